"""Model of h5py: registered trees of groups and datasets, usable only while their file is open."""
import numpy as np
import vf
import vf_io


def register(path, tree):
    vf_io.register(path, tree)


class Leaf:
    """contents of a dataset in a registered tree"""

    def __init__(self, value, **attrs):
        self.value = value
        self.attrs = attrs


class Node:
    """contents of a group in a registered tree"""

    def __init__(self, children, **attrs):
        self.children = children
        self.attrs = attrs
        self.tracked = False        # members are listed in the order in which they were created


def tracked(node):
    node.tracked = True
    return node


class AttributeManager:
    __vf_partial__ = True

    def __init__(self, obj, attrs):
        self._obj = obj
        self._attrs = attrs

    def get(self, name, default=None):
        self._obj._check()
        return self._attrs.get(name, default)

    def __getitem__(self, name):
        self._obj._check()
        return self._attrs[name]

    def __contains__(self, name):
        self._obj._check()
        return name in self._attrs

    def keys(self):
        return self._attrs.keys()

    def items(self):
        return self._attrs.items()


class _Object:
    def _check(self):
        if self._file._closed:
            raise ValueError("Invalid location identifier (invalid location identifier)")
        vf_io.operation(self._file.filename)

    @property
    def attrs(self):
        return AttributeManager(self, self._node.attrs)

    @property
    def file(self):
        return self._file

    @property
    def name(self):
        self._check()
        return self._path

    @property
    def parent(self):
        vf.not_modelled("h5py parent")


class Dataset(_Object):
    __vf_partial__ = True
    __vf_wrap__ = True

    def __init__(self, file, path, node):
        self._file = file
        self._path = path
        self._node = node

    def __getitem__(self, k):
        self._check()
        if k == ():
            return self._node.value
        v = np.array(self._node.value)
        return v if k is Ellipsis else v[k]

    def __array__(self, dtype=None, copy=None):
        self._check()
        return np.array(self._node.value)

    def __vf_np__(self, result):
        return result

    def asstr(self, encoding=None, errors="strict"):
        self._check()
        return _AsStr(self)

    @property
    def shape(self):
        self._check()
        return np.shape(self._node.value)

    @property
    def size(self):
        return np.size(self._node.value)

    @property
    def ndim(self):
        return len(self.shape)

    def __len__(self):
        return self.shape[0]

    def __iter__(self):
        self._check()
        return iter(self._node.value)


class _AsStr:
    __vf_partial__ = True

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        v = self._d[()]
        return v.decode("utf-8") if isinstance(v, bytes) else v


class Group(_Object):
    __vf_partial__ = True

    def __init__(self, file, path, node):
        self._file = file
        self._path = path
        self._node = node

    def _find(self, path):
        node = self._node
        parts = [p for p in path.split("/") if p != ""]
        if path.startswith("/"):
            node = self._file._node
        for p in parts:
            if not isinstance(node, Node) or p not in node.children:
                return None
            node = node.children[p]
        return node

    def _wrap(self, path, node):
        full = self._path.rstrip("/") + "/" + path
        return Group(self._file, full, node) if isinstance(node, Node) else Dataset(self._file, full, node)

    def __getitem__(self, path):
        self._check()
        node = self._find(path)
        if node is None:
            raise KeyError("Unable to synchronously open object (object '%s' doesn't exist)" % path)
        return self._wrap(path, node)

    def get(self, path, default=None):
        self._check()
        return self[path] if path in self else default

    def __contains__(self, path):
        self._check()
        return self._find(path) is not None

    def _names(self):
        self._check()
        return list(self._node.children) if self._node.tracked else sorted(self._node.children)

    def __iter__(self):
        return iter(self._names())

    def __len__(self):
        return len(self._names())

    def keys(self):
        return self._names()

    def values(self):
        return [self[n] for n in self._names()]

    def items(self):
        return [(n, self[n]) for n in self._names()]

    def visititems(self, func):
        self._check()
        return self._visit("", self._node, func)

    def visit(self, func):
        return self.visititems(lambda name, obj: func(name))

    def _visit(self, prefix, node, func):
        for n in sorted(node.children):
            p = prefix + n
            child = node.children[n]
            r = func(p, self._wrap(p, child))
            if r is not None:
                return r
            if isinstance(child, Node):
                r = self._visit(p + "/", child, func)
                if r is not None:
                    return r
        return None


class File(Group):
    def __init__(self, name, mode="r", **kw):
        if mode != "r":
            vf.not_modelled("writing h5 files")
        c = vf_io.content_of(name)
        if c is None:
            raise FileNotFoundError(name)
        vf_io.operation(name)
        self._closed = False
        self._file = self
        self._path = "/"
        self._node = c[0]
        self.filename = name
        self._where = name
        self.mode = mode
        vf_io.OPENED.append(self)

    @property
    def closed(self):
        return self._closed

    def close(self):
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self._closed = True

    def __bool__(self):
        return not self._closed
