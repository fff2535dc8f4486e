"""Model of plotly.subplots."""
from plotly.graph_objects import Figure


def make_subplots(rows=1, cols=1, **kw):
    f = Figure()
    f.grid = (rows, cols)
    return f
