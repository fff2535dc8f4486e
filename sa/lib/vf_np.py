import numpy as np


class errstate:
    def __init__(self, **kwargs):
        self.kwargs = kwargs

    def __enter__(self):
        self.old = np.seterr(**self.kwargs)
        return self

    def __exit__(self, *args):
        np.seterr(**self.old)
        return False

    def __call__(self, func):
        def wrapped(*args, **kw):
            old = np.seterr(**self.kwargs)
            try:
                return func(*args, **kw)
            finally:
                np.seterr(**old)
        return wrapped


class suppress:
    def __init__(self, *excs):
        self.excs = excs

    def __enter__(self):
        return None

    def __exit__(self, *args):
        return None
