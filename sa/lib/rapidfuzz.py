"""Model of fuzzy matching: the similarity of two texts is a table the specification fills in."""
from rapidfuzz import process
