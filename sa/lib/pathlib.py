"""Model of pathlib on known paths."""
import os
import vf


class PurePath:
    __vf_partial__ = True

    def __init__(self, *parts):
        self._p = os.path.normpath(os.path.join(*[vf.fspath(p) for p in parts])) if parts else "."

    def __fspath__(self):
        return self._p

    def __str__(self):
        return self._p

    def __truediv__(self, other):
        return Path(self._p, other)

    def joinpath(self, *others):
        return Path(self._p, *others)

    def resolve(self, strict=False):
        return Path(os.path.realpath(self._p))

    def absolute(self):
        return Path(os.path.realpath(self._p))

    def as_posix(self):
        return self._p

    def with_name(self, name):
        return Path(os.path.dirname(self._p), name)

    @property
    def parent(self):
        return Path(os.path.dirname(self._p))

    @property
    def name(self):
        return os.path.basename(self._p)

    @property
    def suffix(self):
        return os.path.splitext(self._p)[1]

    @property
    def stem(self):
        return os.path.splitext(os.path.basename(self._p))[0]

    def exists(self):
        return os.path.exists(self._p)

    def is_file(self):
        return os.path.exists(self._p)

    def open(self, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        return open(self._p, mode, encoding=encoding)

    def read_text(self, encoding=None, errors=None):
        with open(self._p, encoding=encoding) as f:
            return f.read()

    def read_bytes(self):
        with open(self._p, "rb") as f:
            return f.read()

    def __eq__(self, other):
        return isinstance(other, PurePath) and self._p == other._p

    def __hash__(self):
        return hash(self._p)


Path = PurePath
