"""Model of matplotlib.pyplot: figures record what is drawn on their axes; every other call only decorates."""
import numpy as np

figures = []


class Anything:
    """decoration: accepts any call, attribute and index"""

    def __init__(self):
        pass

    def __call__(self, *a, **kw):
        return Anything()

    def __getitem__(self, k):
        return Anything()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


def _arr(v):
    if v is None or isinstance(v, str):
        return v
    return np.array(v)


class Axes:
    def __init__(self, figure):
        self.figure = figure
        self.drawn = []
        self.limits = {}

    def _add(self, kind, a, kw):
        self.drawn.append((kind, tuple([_arr(x) for x in a]), kw))
        return Anything()

    def step(self, *a, **kw):
        return self._add("step", a, kw)

    def plot(self, *a, **kw):
        return self._add("plot", a, kw)

    def stairs(self, *a, **kw):
        return self._add("stairs", a, kw)

    def pcolormesh(self, *a, **kw):
        return self._add("pcolormesh", a, kw)

    def pcolor(self, *a, **kw):
        return self._add("pcolormesh", a, kw)

    def set_xlim(self, *a, **kw):
        self.limits["x"] = (a, kw)

    def set_ylim(self, *a, **kw):
        self.limits["y"] = (a, kw)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


class Figure:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **kw):
        ax = Axes(self)
        self.axes.append(ax)
        return ax

    def subplots(self, *a, **kw):
        return self.add_subplot()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


def figure(*a, **kw):
    f = Figure()
    figures.append(f)
    return f


def subplots(*a, **kw):
    f = figure()
    return f, f.add_subplot()


def get_cmap(*a, **kw):
    return Anything()
