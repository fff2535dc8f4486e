"""Model of matplotlib (only the submodule pyplot is used)."""
