"""Model of plotly.graph_objects: figures as lists of traces that copy what they are given."""
import numpy as np
import vf


def _values(v):
    if v is None:
        return None
    if hasattr(v, "to_numpy"):
        v = v.to_numpy()
    return np.array(v)


class Trace:
    __vf_partial__ = True

    def __init__(self, x=None, y=None, name=None, **kw):
        self._vf_x = _values(x)
        self._vf_y = _values(y)
        self.name = name
        self.row = None
        self.col = None
        self.line = None
        self.mode = None
        self.marker = None
        for k, v in kw.items():
            if k.startswith("line_"):
                self.line = dict(self.line or {})
                self.line[k[5:]] = v
            else:
                setattr(self, k, v)

    @property
    def x(self):
        return self._vf_x

    @x.setter
    def x(self, v):
        self._vf_x = _values(v)

    @property
    def y(self):
        return self._vf_y

    @y.setter
    def y(self, v):
        self._vf_y = _values(v)


class Scatter(Trace):
    pass


class Batch:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _copy(t):
    c = Scatter(t.x, t.y, t.name)
    c.row = t.row
    c.col = t.col
    c.line, c.mode, c.marker = t.line, t.mode, t.marker
    return c


class Figure:
    __vf_partial__ = True

    def __init__(self, data=None, layout=None):
        if isinstance(data, Figure):
            self.data = tuple([_copy(t) for t in data.data])
            self.layout_updates = list(data.layout_updates)
            self.axis_updates = list(data.axis_updates)
            self.grid = data.grid
        else:
            if isinstance(data, Trace):
                data = [data]
            self.data = tuple([] if data is None else [_copy(t) for t in data])
            self.layout_updates = []
            self.axis_updates = []
            self.grid = None

    def add_trace(self, trace, row=None, col=None, **kw):
        if row is not None and self.grid is None:
            raise Exception("In order to reference traces by row and column, you must first use plotly.tools.make_subplots to create the figure with a subplot grid.")
        t = _copy(trace)
        t.row = row
        t.col = col
        self.data = tuple(list(self.data) + [t])
        return self

    def add_traces(self, data, **kw):
        rows, cols = kw.get("rows"), kw.get("cols")
        for i, t in enumerate(data):
            self.add_trace(t, None if rows is None else rows[i], None if cols is None else cols[i])
        return self

    def add_scatter(self, x=None, y=None, name=None, row=None, col=None, **kw):
        return self.add_trace(Scatter(x, y, name), row, col)

    def update_layout(self, *a, **kw):
        self.layout_updates.append(kw)
        return self

    def update_xaxes(self, *a, **kw):
        self.axis_updates.append(("x", kw))
        return self

    def update_yaxes(self, *a, **kw):
        self.axis_updates.append(("y", kw))
        return self

    def batch_update(self):
        return Batch()


class FigureWidget(Figure):
    pass
