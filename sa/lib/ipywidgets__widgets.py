"""Model of ipywidgets: values, validation and change events; CREATED lists every widget made."""
import vf

CREATED = []


class TraitError(Exception):
    pass


class Change:
    """what an observer is told"""

    def __init__(self, name, old, new, owner, type):
        self.name = name
        self.old = old
        self.new = new
        self.owner = owner
        self.type = type

    def __getitem__(self, key):
        return getattr(self, key)

    def get(self, key, default=None):
        return getattr(self, key, default)


class Widget:
    __vf_partial__ = True

    def __init__(self, value=None, **kw):
        self._vf_handlers = {}
        self._vf_value = None
        for k, v in kw.items():
            setattr(self, k, v)
        self._vf_value = self._vf_valid(value)
        CREATED.append(self)

    def _vf_valid(self, value):
        return value

    @property
    def value(self):
        return self._vf_value

    @value.setter
    def value(self, new):
        old = self._vf_value
        new = self._vf_valid(new)
        self._vf_value = new
        if old is None or new is None:
            changed = old is not new
        else:
            changed = old != new
        if changed:
            c = Change(name="value", old=old, new=new, owner=self, type="change")
            for h in list(self._vf_handlers.get("value", [])):
                h(c)

    def observe(self, handler, names=None, type="change"):
        for n in ([names] if isinstance(names, str) or names is None else list(names)):
            key = "value" if n is None else n
            lst = self._vf_handlers.setdefault(key, [])
            if handler not in lst:
                lst.append(handler)

    def unobserve(self, handler, names=None, type="change"):
        for n in ([names] if isinstance(names, str) or names is None else list(names)):
            key = "value" if n is None else n
            if key in self._vf_handlers:
                self._vf_handlers[key].remove(handler)

    def unobserve_all(self, name=None):
        if name is None:
            self._vf_handlers = {}
        else:
            self._vf_handlers.pop(name, None)


class Layout(Widget):
    pass


class Checkbox(Widget):
    def __init__(self, value=False, description="", description_tooltip=None, **kw):
        super().__init__(value, description=description, description_tooltip=description_tooltip, **kw)


class FloatText(Widget):
    def __init__(self, value=0.0, description="", **kw):
        super().__init__(value, description=description, **kw)

    def _vf_valid(self, value):
        return float(value)


class BoundedFloatText(FloatText):
    def __init__(self, value=0.0, min=0.0, max=100.0, step=None, description="", **kw):
        self.min = min
        self.max = max
        self.step = step
        super().__init__(value, description=description, **kw)

    def _vf_valid(self, value):
        value = float(value)
        if value < self.min:
            value = self.min
        if value > self.max:
            value = self.max
        return value


class Dropdown(Widget):
    def __init__(self, options=(), value=None, description="", **kw):
        self.options = tuple(options)
        super().__init__(value, description=description, **kw)

    def _vf_valid(self, value):
        if value is not None and value not in self.options:
            raise TraitError("Invalid selection: value not found")
        return value


class Button(Widget):
    def __init__(self, description="", **kw):
        super().__init__(None, description=description, **kw)
        self._vf_clicks = []

    def on_click(self, callback, remove=False):
        if remove:
            self._vf_clicks.remove(callback)
        elif callback not in self._vf_clicks:
            self._vf_clicks.append(callback)

    def click(self):
        for c in list(self._vf_clicks):
            c(self)


class Box(Widget):
    def __init__(self, children=(), **kw):
        super().__init__(None, children=tuple(children), **kw)


class HBox(Box):
    pass


class VBox(Box):
    pass


