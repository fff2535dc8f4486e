"""Model of warnings: the filters in force; warnings raised are discarded."""

filters = [("default", None, DeprecationWarning, "__main__", 0), ("ignore", None, DeprecationWarning, None, 0)]


def warn(message, category=None, stacklevel=1, source=None, **kw):
    return None


def warn_explicit(*args, **kw):
    return None


def simplefilter(action, category=Warning, lineno=0, append=False):
    _add((action, None, category, None, lineno), append)


def filterwarnings(action, message="", category=Warning, module="", lineno=0, append=False):
    _add((action, message, category, module, lineno), append)


def _add(item, append):
    if append:
        filters.append(item)
    else:
        filters.insert(0, item)


def resetwarnings():
    filters[:] = []


class catch_warnings:
    def __init__(self, *, record=False, module=None, action=None, category=Warning, lineno=0, append=False):
        self._record = record
        self._action = action
        self._args = (category, lineno, append)

    def __enter__(self):
        self._saved = list(filters)
        if self._action is not None:
            simplefilter(self._action, *self._args)
        return [] if self._record else None

    def __exit__(self, *exc):
        filters[:] = self._saved
        return False
