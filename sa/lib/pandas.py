"""Model of the parts of pandas the library relies on.

Tables have known labels and either a known number of rows (cells may be symbolic values) or a symbolic
number of rows (index and columns are symbolic arrays).  Column arrays are never written in place.
Anything not covered is refused through vf.not_modelled."""
import numpy as np
import vf

__version__ = "3.0.5"


NA = vf.na()


class StringDtype:
    def __init__(self, storage=None, na_value=None):
        pass


def isna(x):
    if isinstance(x, (Series, DataFrame)):
        return x.isna()
    return x is NA or x is None or vf.is_nan(x)


isnull = isna


def notna(x):
    r = isna(x)
    return ~r if isinstance(r, (Series, DataFrame)) else not r


notnull = notna


def _seq(x):
    """python list of the items of a list-like"""
    if isinstance(x, (Series, Index)):
        return x.tolist()
    if isinstance(x, np.ndarray):
        return list(x)
    return list(x)


def _uniq(items):
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return out


def _pos(items, x):
    for i, y in enumerate(items):
        if x == y:
            return i
    return -1


def _is_listlike(x):
    return isinstance(x, (list, tuple, np.ndarray, Series, Index, set, dict))


def _arr(values, n=None):
    """column array of a list-like or scalar"""
    if isinstance(values, (Series, Index)):
        return values._arr_()
    if isinstance(values, np.ndarray):
        return values
    if isinstance(values, (list, tuple)):
        return vf.boxes(list(values))
    if n is None:
        vf.not_modelled("column of " + str(type(values)))
    return vf.full(n, values)


def _truth(mask, n=None):
    """known truth values, possibly missing"""
    if n is not None and not _is_listlike(mask):
        mask = [mask] * n
    out = []
    for m in _seq(mask):
        if m is not NA and not vf.is_concrete(m):
            vf.not_modelled("logic on value-dependent masks")
        out.append(NA if m is NA else bool(m))
    return out


def _kleene(a, b, absorbing):
    if a is absorbing or b is absorbing:
        return absorbing
    if a is NA or b is NA:
        return NA
    return not absorbing


def _concrete(mask):
    out = []
    for m in _seq(mask):
        if m is NA:
            out.append(False)
            continue
        if not vf.is_concrete(m):
            vf.not_modelled("selection by a value-dependent mask")
        out.append(bool(m))
    return out


# --------------------------------------------------------------------------- index
class Index:
    __vf_partial__ = True
    __vf_wrap__ = True

    def __new__(cls, data=None, dtype=None, copy=False, name=None, tupleize_cols=True):
        if cls is Index and isinstance(data, MultiIndex):
            return data._like(name)
        return object.__new__(cls)

    @property
    def levels(self):
        raise AttributeError("'Index' object has no attribute 'levels'")

    def __init__(self, data=None, dtype=None, copy=False, name=None, tupleize_cols=True):
        if isinstance(self, MultiIndex):
            return
        self._labels = None
        self._array = None
        if data is None:
            data = []
        if isinstance(data, Index):
            self._labels = data._labels
            self._array = data._array
            if name is None:
                name = data.name
        elif isinstance(data, Series):
            self._array = data._a
            if name is None:
                name = data.name
        elif isinstance(data, np.ndarray):
            self._array = data
        elif isinstance(data, (list, tuple, set)) or _is_listlike(data):
            self._labels = list(data)
        else:
            self._labels = list(vf.iterable(data))
        if self._array is not None and vf.known_length(self._array) and len(np.shape(self._array)) != 1:
            raise ValueError("Index data must be 1-dimensional")
        if dtype is not None and dtype is not object:
            self._array = _astype(self._arr_(), dtype)
            self._labels = None
        self.name = name

    @property
    def names(self):
        return [self.name]

    @names.setter
    def names(self, names):
        names = list(names)
        if len(names) != 1:
            raise ValueError("Length of new names must be 1, got %d" % len(names))
        self.name = names[0]

    nlevels = 1

    def _arr_(self):
        if self._array is not None:
            return self._array
        return vf.boxes(self._labels)

    def _list(self):
        if self._labels is not None:
            return list(self._labels)
        if not vf.known_length(self._array):
            vf.not_modelled("labels of an index of unknown length")
        return list(self._array)

    def _key_(self):
        return self._array if self._symbolic() else tuple(self._list())

    def _len(self):
        if self._labels is not None:
            return len(self._labels)
        return np.shape(self._array)[0]

    def _symbolic(self):
        return self._array is not None and not vf.known_length(self._array)

    def _take(self, positions):
        ls = self._list()
        return Index([ls[i] for i in positions], name=self.name)

    def __array__(self, dtype=None, copy=None):
        return self._arr_()

    def __vf_np__(self, result):
        return Index(result, name=self.name)

    def __len__(self):
        return self._len()

    def __iter__(self):
        return iter(self._list())

    def __contains__(self, x):
        return _pos(self._list(), x) >= 0

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Index(self._list()[k], name=self.name) if not self._symbolic() else vf.not_modelled("slice of a symbolic index")
        if _is_listlike(k):
            k = _positions(k, self._len())
            return self._take(k)
        if self._symbolic():
            return self._array[k]
        return self._list()[k]

    def tolist(self):
        return self._list()

    to_list = tolist

    @property
    def values(self):
        return self._arr_()

    @property
    def array(self):
        return self._arr_()

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        return self._arr_() if dtype is None else _astype(self._arr_(), dtype)

    @property
    def size(self):
        return self._len()

    @property
    def shape(self):
        return (self._len(),)

    @property
    def dtype(self):
        return self._arr_().dtype

    @property
    def empty(self):
        return self._len() == 0

    def astype(self, dtype, copy=True):
        return Index(_astype(self._arr_(), dtype), name=self.name)

    def unique(self, level=None):
        return Index(_uniq(self._list()), name=self.name)

    def get_level_values(self, level):
        if level != 0 and level != self.name:
            raise KeyError("Requested level (%s) does not match index name" % level)
        return self

    def copy(self, name=None, deep=False):
        return Index(self, name=self.name if name is None else name)

    def rename(self, name, inplace=False):
        if inplace:
            self.name = name
            return None
        return Index(self, name=name)

    def set_names(self, names, level=None, inplace=False):
        if isinstance(names, (list, tuple)):
            names = names[0]
        return self.rename(names, inplace=inplace)

    def map(self, f):
        if isinstance(f, dict):
            return Index([f[x] for x in self._list()], name=self.name)
        return Index([f(x) for x in self._list()], name=self.name)

    def isin(self, values):
        vs = _seq(values)
        return np.array([_pos(vs, x) >= 0 for x in self._list()])

    def equals(self, other):
        return isinstance(other, Index) and self._list() == other._list()

    def sort_values(self, ascending=True):
        return Index(sorted(self._list(), reverse=not ascending), name=self.name)

    def get_loc(self, key):
        i = _pos(self._list(), key)
        if i < 0:
            raise KeyError(key)
        return i

    def drop(self, labels):
        labels = labels if _is_listlike(labels) else [labels]
        return Index([x for x in self._list() if _pos(labels, x) < 0], name=self.name)

    def to_series(self):
        return Series(self._arr_(), index=self, name=self.name)

    def min(self):
        return np.min(self._arr_())

    def max(self):
        return np.max(self._arr_())

    def duplicated(self):
        ls = self._list()
        return np.array([_pos(ls[:i], x) >= 0 for i, x in enumerate(ls)])

    def __add__(self, o):
        return Index(self._arr_() + _val(o), name=self.name)

    def __radd__(self, o):
        return Index(_val(o) + self._arr_(), name=self.name)

    def __sub__(self, o):
        return Index(self._arr_() - _val(o), name=self.name)

    def __rsub__(self, o):
        return Index(_val(o) - self._arr_(), name=self.name)

    def __mul__(self, o):
        return Index(self._arr_() * _val(o), name=self.name)

    def __rmul__(self, o):
        return Index(_val(o) * self._arr_(), name=self.name)

    def __truediv__(self, o):
        return Index(self._arr_() / _val(o), name=self.name)

    def __rtruediv__(self, o):
        return Index(_val(o) / self._arr_(), name=self.name)

    def __pow__(self, o):
        return Index(self._arr_() ** _val(o), name=self.name)

    def __neg__(self):
        return Index(-self._arr_(), name=self.name)

    def __eq__(self, o):
        if not _is_listlike(o):
            return np.array([x == o for x in self._list()])
        return np.array([x == y for x, y in zip(self._list(), _seq(o))])

    def __ne__(self, o):
        return np.array([not x for x in (self == o)])

    def __lt__(self, o):
        return self._arr_() < _val(o)

    def __le__(self, o):
        return self._arr_() <= _val(o)

    def __gt__(self, o):
        return self._arr_() > _val(o)

    def __ge__(self, o):
        return self._arr_() >= _val(o)


def _val(o):
    return o._arr_() if isinstance(o, (Index, Series)) else o


class _Names(list):
    pass


class MultiIndex(Index):
    def __init__(self, levels=None, codes=None, names=None, **kw):
        self._levels = [list(x) for x in levels]
        self._codes = [list(x) for x in codes]
        self._names = [None] * len(self._levels) if names is None else list(names)
        if len(self._names) != len(self._levels):
            raise ValueError("Length of names must match number of levels in MultiIndex.")

    @classmethod
    def _of(cls, columns, names):
        levels, codes = [], []
        for c in columns:
            lv = sorted(_uniq(c))
            levels.append(lv)
            codes.append([_pos(lv, x) for x in c])
        return MultiIndex(levels, codes, names)

    @classmethod
    def from_arrays(cls, arrays, sortorder=None, names=None):
        if names is None:
            names = [getattr(a, "name", None) if isinstance(a, (Index, Series)) else None for a in arrays]
        return MultiIndex._of([_seq(a) for a in arrays], names)

    @classmethod
    def from_tuples(cls, tuples, sortorder=None, names=None):
        ts = [tuple(t) for t in tuples]
        return MultiIndex._of([list(x) for x in zip(*ts)], names)

    @classmethod
    def from_product(cls, iterables, sortorder=None, names=None):
        its = [_seq(x) for x in iterables]
        if names is None:
            names = [getattr(a, "name", None) if isinstance(a, (Index, Series)) else None for a in iterables]
        rows = [()]
        for it in its:
            rows = [r + (x,) for r in rows for x in it]
        return MultiIndex._of([[r[i] for r in rows] for i in range(len(its))], names)

    def _like(self, name=None):
        return MultiIndex(self._levels, self._codes, self._names)

    @property
    def nlevels(self):
        return len(self._levels)

    @property
    def name(self):
        return None

    @property
    def names(self):
        return list(self._names)

    @names.setter
    def names(self, names):
        names = list(names)
        if len(names) != len(self._levels):
            raise ValueError("Length of names must match number of levels in MultiIndex.")
        self._names = names

    @property
    def levels(self):
        return [Index(lv, name=n) for lv, n in zip(self._levels, self._names)]

    @property
    def codes(self):
        return [np.array(c) for c in self._codes]

    def _list(self):
        return [tuple(lv[k] for lv, k in zip(self._levels, ks)) for ks in zip(*self._codes)]

    def _len(self):
        return len(self._codes[0])

    def _symbolic(self):
        return False

    def _arr_(self):
        vf.not_modelled("array of a MultiIndex")

    def _take(self, positions):
        return MultiIndex(self._levels, [[c[i] for i in positions] for c in self._codes], self._names)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return MultiIndex(self._levels, [c[k] for c in self._codes], self._names)
        if _is_listlike(k):
            return self._take(_positions(k, self._len()))
        return self._list()[k]

    def _level_number(self, level):
        if isinstance(level, str) or level is None:
            i = _pos(self._names, level)
            if i < 0:
                raise KeyError("Level %s not found" % level)
            return i
        if level < 0:
            level += len(self._levels)
        if level >= len(self._levels):
            raise IndexError("Too many levels")
        return level

    def get_level_values(self, level):
        i = self._level_number(level)
        lv = self._levels[i]
        return Index([lv[k] for k in self._codes[i]], name=self._names[i])

    def unique(self, level=None):
        if level is not None:
            return self.get_level_values(level).unique()
        return MultiIndex.from_tuples(_uniq(self._list()), names=self._names)

    def set_levels(self, levels, level=None, verify_integrity=True):
        if level is None:
            new = [list(x) for x in levels]
        else:
            new = list(self._levels)
            if isinstance(level, (list, tuple)):
                for l, v in zip(level, levels):
                    new[self._level_number(l)] = _seq(v)
            else:
                new[self._level_number(level)] = _seq(levels)
        for lv, c in zip(new, self._codes):
            if c and max(c) >= len(lv):
                raise ValueError("On level, code max >= length of level.")
        return MultiIndex(new, self._codes, self._names)

    def set_names(self, names, level=None, inplace=False):
        new = list(self._names)
        if level is not None:
            new[self._level_number(level)] = names
        else:
            new = list(names)
        if inplace:
            self.names = new
            return None
        return MultiIndex(self._levels, self._codes, new)

    def rename(self, names, inplace=False):
        return self.set_names(names, inplace=inplace)

    def copy(self, names=None, deep=False, name=None):
        return MultiIndex(self._levels, self._codes, self._names if names is None else names)

    def reorder_levels(self, order):
        o = [self._level_number(x) for x in order]
        if sorted(o) != list(range(len(self._levels))):
            raise AssertionError("Length of order must be same as number of levels")
        return MultiIndex([self._levels[i] for i in o], [self._codes[i] for i in o], [self._names[i] for i in o])

    def swaplevel(self, i=-2, j=-1):
        i, j = self._level_number(i), self._level_number(j)
        o = list(range(len(self._levels)))
        o[i], o[j] = o[j], o[i]
        return self.reorder_levels(o)

    def droplevel(self, level=0):
        keep = [i for i in range(len(self._levels)) if i != self._level_number(level)]
        return self._sub(keep)

    def _sub(self, keep):
        if len(keep) == 1:
            return self.get_level_values(keep[0])
        return MultiIndex([self._levels[i] for i in keep], [self._codes[i] for i in keep], [self._names[i] for i in keep])

    def remove_unused_levels(self):
        return MultiIndex.from_tuples(self._list(), names=self._names)

    def sort_values(self, ascending=True):
        return MultiIndex.from_tuples(sorted(self._list(), reverse=not ascending), names=self._names)

    def to_list(self):
        return self._list()

    def map(self, f):
        out = [f(x) for x in self._list()]
        return MultiIndex.from_tuples(out, names=self._names) if out and isinstance(out[0], tuple) else Index(out)


def RangeIndex(start=0, stop=None, step=1, name=None):
    if stop is None:
        start, stop = 0, start
    return Index(list(range(start, stop, step)), name=name)


def _index_of(x, n=None):
    if x is None:
        if n is None:
            vf.not_modelled("index")
        return Index(vf.arange(n))
    if isinstance(x, Index):
        return x.copy()
    if isinstance(x, (Series, np.ndarray)):
        return Index(x)
    ls = list(x)
    if ls and isinstance(ls[0], tuple):
        return MultiIndex.from_tuples(ls)
    return Index(ls)


def _positions(k, n):
    """row positions selected by a list-like of booleans or integers"""
    ks = _seq(k)
    if ks and (ks[0] is NA or vf.is_bool(ks[0])):
        m = _concrete(ks)
        if len(m) != n:
            raise IndexError("Boolean index has wrong length: %d instead of %d" % (len(m), n))
        return [i for i, b in enumerate(m) if b]
    return [int(i) for i in ks]


def _no_truths(k, ks):
    """k selects rows although there are none"""
    if ks or not isinstance(k, Series):
        return False
    if not k._truths:
        vf.not_modelled("selection by a series without rows")
    return True


def _astype(a, dtype):
    if dtype is float or dtype == "float" or dtype == "float64" or dtype is np.float64:
        if not vf.known_length(a):
            return a
        return vf.boxes([_to_float(x) for x in list(a)])
    if dtype is complex or dtype == "complex" or dtype is object or dtype == "object":
        return a
    if dtype is str or dtype == "str" or dtype == "string" or isinstance(dtype, StringDtype):
        if isinstance(dtype, StringDtype) or dtype == "string":
            a = [NA if x is None or vf.is_nan(x) else x for x in list(a)]
        return vf.boxes([x if (x is NA or isinstance(x, str)) else str(x) for x in list(a)])
    if dtype is int or dtype == "int" or dtype == "int64":
        return vf.boxes([int(x) for x in list(a)])
    vf.not_modelled("astype " + str(dtype))


def _to_float(x):
    if x is NA:
        return np.nan
    return float(x)


# --------------------------------------------------------------------------- series
def _kept(ls, keep):
    """positions that stay when duplicates are dropped"""
    first, last, count = {}, {}, {}
    seen = []
    at = []
    for x in ls:
        k = 0
        while k < len(seen) and not (seen[k] is x or seen[k] == x):
            k += 1
        if k == len(seen):
            seen.append(x)
        at.append(k)
    for i, k in enumerate(at):
        first.setdefault(k, i)
        last[k] = i
        count[k] = count.get(k, 0) + 1
    if keep == "first":
        return [i for i, k in enumerate(at) if first[k] == i]
    if keep == "last":
        return [i for i, k in enumerate(at) if last[k] == i]
    if keep is False:
        return [i for i, k in enumerate(at) if count[k] == 1]
    raise ValueError('keep must be either "first", "last" or False')


class Series:
    __vf_partial__ = True
    __vf_wrap__ = True
    _truths = False

    def __init__(self, data=None, index=None, dtype=None, name=None, copy=None):
        if isinstance(data, dict):
            if index is None:
                index = list(data)
                data = list(data.values())
            else:
                index = _index_of(index)
                data = [data.get(k, np.nan) for k in index._list()]
        if isinstance(data, Series):
            if index is not None:
                index = _index_of(index)
                data = _align(data, index)
            else:
                index = data.index
                if name is None:
                    name = data.name
                data = data._a
        elif isinstance(data, Index):
            if name is None:
                name = data.name
            data = data._arr_()
        if data is None:
            data = np.nan if index is not None else []
        if _is_listlike(data):
            self._a = _arr(data)
            n = np.shape(self._a)[0]
            if len(np.shape(self._a)) != 1:
                raise ValueError("Data must be 1-dimensional")
        else:
            n = 1 if index is None else _index_of(index)._len()
            self._a = vf.full(n, data)
        if dtype is not None:
            self._a = _astype(self._a, dtype)
        self._index = _index_of(index, n)
        if not vf.same_size(self._index._len(), n):
            raise ValueError("Length of values does not match length of index")
        self.name = name

    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, value):
        new = _index_of(value)
        if not vf.same_size(new._len(), self._index._len()):
            raise ValueError("Length mismatch")
        self._index = new

    def _arr_(self):
        return self._a

    def _new(self, a, name=True):
        return Series(a, index=self._index, name=self.name if name is True else name)

    def _mask(self, a):
        """a series of truth values, which stays one when it has no rows"""
        r = self._new(a)
        r._truths = True
        return r

    def __array__(self, dtype=None, copy=None):
        return self._a

    def __vf_np__(self, result):
        return self._new(result)

    def __len__(self):
        return np.shape(self._a)[0]

    def __iter__(self):
        return iter(self._a)

    def __contains__(self, k):
        return k in self._index

    @property
    def values(self):
        return self._a

    @property
    def array(self):
        return self._a

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        return self._a if dtype is None else _astype(self._a, dtype)

    def tolist(self):
        return list(self._a)

    to_list = tolist

    @property
    def shape(self):
        return np.shape(self._a)

    @property
    def size(self):
        return np.shape(self._a)[0]

    @property
    def ndim(self):
        return 1

    @property
    def dtype(self):
        return self._a.dtype

    @property
    def empty(self):
        return len(self) == 0

    @property
    def real(self):
        return self._a.real

    @property
    def imag(self):
        return self._a.imag

    def items(self):
        return list(zip(self._index._list(), list(self._a)))

    def keys(self):
        return self._index

    def get(self, k, default=None):
        i = _pos(self._index._list(), k)
        return default if i < 0 else self._a[i]

    def copy(self, deep=True):
        return self._new(self._a)

    def rename(self, name=None, **kw):
        return self._new(self._a, name)

    def astype(self, dtype, copy=True, errors="raise"):
        return self._new(_astype(self._a, dtype))

    def apply(self, f, args=(), **kw):
        if not vf.known_length(self._a):
            return self._new(vf.column_of(f(vf.cell0(self._a), *args, **kw), self._a))
        return self._new(vf.boxes([f(x, *args, **kw) for x in list(self._a)]))

    def map(self, f, na_action=None):
        if isinstance(f, dict):
            return self._new(vf.boxes([f.get(x, np.nan) for x in list(self._a)]))
        return self.apply(f)

    def abs(self):
        return self._new(np.abs(self._a))

    def __abs__(self):
        return self.abs()

    def sum(self, axis=None):
        return np.sum(self._a)

    def min(self):
        return np.min(self._a)

    def max(self):
        return np.max(self._a)

    def mean(self):
        return np.mean(self._a)

    def any(self):
        return np.any(self._a)

    def all(self):
        return np.all(self._a)

    def isna(self):
        return self._mask(vf.boxes([isna(x) for x in list(self._a)]))

    def notna(self):
        return self._mask(vf.boxes([not isna(x) for x in list(self._a)]))

    def dropna(self):
        keep = [i for i, x in enumerate(list(self._a)) if not isna(x)]
        return self._rows(keep)

    def fillna(self, v):
        return self._new(vf.boxes([v if isna(x) else x for x in list(self._a)]))

    def unique(self):
        return vf.boxes(_uniq(list(self._a)))

    def nunique(self, dropna=True):
        return len(_uniq([x for x in list(self._a) if not (dropna and isna(x))]))

    def drop_duplicates(self, keep="first", inplace=False, ignore_index=False):
        if inplace or ignore_index:
            vf.not_modelled("drop_duplicates options")
        ls = list(self._a)
        return self._rows(_kept(ls, keep))

    def convert_dtypes(self, *a, **kw):
        return self.copy()

    def isin(self, values):
        vs = _seq(values)
        return self._mask(vf.boxes([_pos(vs, x) >= 0 for x in list(self._a)]))

    def _rows(self, positions):
        ls = list(self._a)
        return Series(vf.boxes([ls[i] for i in positions]), index=self._index._take(positions), name=self.name)

    def to_frame(self, name=None):
        return DataFrame({(self.name if name is None else name): self})

    def reset_index(self, drop=False):
        if not drop:
            vf.not_modelled("Series.reset_index")
        return Series(self._a, name=self.name)

    def sort_index(self, ascending=True, axis=0, inplace=False):
        order = _order(self._index._list(), ascending)
        return self._rows(order)

    def reindex(self, index=None):
        index = _index_of(index)
        return Series(_align(self, index), index=index, name=self.name)

    def equals(self, o):
        return self._index.equals(o.index) and list(self._a) == list(o._a)

    @property
    def loc(self):
        return _SLoc(self)

    @property
    def iloc(self):
        return _SILoc(self)

    @property
    def str(self):
        return _Str(self)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.iloc[k]
        if isinstance(k, (Series, np.ndarray, list)):
            ks = _seq(k)
            if ks and (ks[0] is NA or vf.is_bool(ks[0])):
                return self._rows(_positions(ks, len(self)))
            return self._rows([self._index.get_loc(x) for x in ks])
        return self.loc[k]

    def __setitem__(self, k, v):
        self.loc[k] = v

    def _op(self, o):
        """(self array, other array) after alignment"""
        if isinstance(o, Series):
            if not vf.same_index(self._index, o._index):
                o2 = _align(o, self._index)
                if len(o2) != len(self) or len(o) != len(self):
                    vf.not_modelled("arithmetic of differently indexed series")
                return o2
            return o._a
        if isinstance(o, Index):
            return o._arr_()
        if isinstance(o, (list, tuple)):
            return vf.boxes(list(o))
        return o

    def _name2(self, o):
        if isinstance(o, Series) and o.name != self.name:
            return None
        return self.name

    def _calc(self, f, o):
        o = self._op(o)
        if o is NA or vf.has_na(self._a) or isinstance(o, np.ndarray) and vf.has_na(o):
            os = list(o) if isinstance(o, np.ndarray) else [o] * len(self)
            return vf.boxes([NA if x is NA or y is NA else f(x, y) for x, y in zip(list(self._a), os)])
        return f(self._a, o)

    def __add__(self, o):
        return self._new(self._calc(lambda x, y: x + y, o), self._name2(o))

    def __radd__(self, o):
        return self._new(self._calc(lambda x, y: y + x, o), self._name2(o))

    def __sub__(self, o):
        return self._new(self._calc(lambda x, y: x - y, o), self._name2(o))

    def __rsub__(self, o):
        return self._new(self._calc(lambda x, y: y - x, o), self._name2(o))

    def __mul__(self, o):
        return self._new(self._calc(lambda x, y: x * y, o), self._name2(o))

    def __rmul__(self, o):
        return self._new(self._calc(lambda x, y: y * x, o), self._name2(o))

    def __truediv__(self, o):
        return self._new(self._calc(lambda x, y: x / y, o), self._name2(o))

    def __rtruediv__(self, o):
        return self._new(self._calc(lambda x, y: y / x, o), self._name2(o))

    def __pow__(self, o):
        return self._new(self._calc(lambda x, y: x ** y, o), self._name2(o))

    def __rpow__(self, o):
        return self._new(self._calc(lambda x, y: y ** x, o), self._name2(o))

    def __mod__(self, o):
        return self._new(self._calc(lambda x, y: np.mod(x, y), o), self._name2(o))

    def __neg__(self):
        return self._new(-self._a)

    def __pos__(self):
        return self._new(self._a)

    def __invert__(self):
        return self._mask(vf.boxes([NA if x is NA else not x for x in _truth(self._a)]))

    def __and__(self, o):
        return self._mask(vf.boxes([_kleene(a, b, False) for a, b in zip(_truth(self._a), _truth(o, len(self)))]))

    def __or__(self, o):
        return self._mask(vf.boxes([_kleene(a, b, True) for a, b in zip(_truth(self._a), _truth(o, len(self)))]))

    __rand__ = __and__
    __ror__ = __or__

    def _cmp(self, f, o):
        o = self._op(o)
        if vf.known_length(self._a):
            os = list(o) if isinstance(o, np.ndarray) else [o] * len(self)
            return self._mask(vf.boxes([NA if x is NA or y is NA else f(x, y) for x, y in zip(list(self._a), os)]))
        return self._mask(f(self._a, o))

    def __eq__(self, o):
        return self._cmp(lambda x, y: x == y, o)

    def __ne__(self, o):
        return self._cmp(lambda x, y: x != y, o)

    def __lt__(self, o):
        return self._cmp(lambda x, y: x < y, o)

    def __le__(self, o):
        return self._cmp(lambda x, y: x <= y, o)

    def __gt__(self, o):
        return self._cmp(lambda x, y: x > y, o)

    def __ge__(self, o):
        return self._cmp(lambda x, y: x >= y, o)

    def eq(self, other):
        return self == other

    def ne(self, other):
        return self != other

    def lt(self, other):
        return self < other

    def le(self, other):
        return self <= other

    def gt(self, other):
        return self > other

    def ge(self, other):
        return self >= other

    def between(self, left, right, inclusive="both"):
        if inclusive not in ("both", "neither", "left", "right"):
            raise ValueError("Inclusive has to be either string of 'both','left', 'right', or 'neither'.")
        low = self >= left if inclusive in ("both", "left") else self > left
        high = self <= right if inclusive in ("both", "right") else self < right
        return low & high

    def add(self, other):
        return self + other

    def sub(self, other):
        return self - other

    def mul(self, other):
        return self * other

    def div(self, other):
        return self / other

    def pow(self, other):
        return self ** other

    multiply, subtract, truediv, divide = mul, sub, div, div


class _Str:
    __vf_partial__ = True

    def __init__(self, s):
        self.s = s

    def strip(self, chars=None):
        return self.s.apply(lambda x: x.strip(chars))

    def lower(self):
        return self.s.apply(lambda x: x.lower())

    def startswith(self, p):
        return self.s.apply(lambda x: x.startswith(p))

    def replace(self, a, b, regex=False):
        return self.s.apply(lambda x: x.replace(a, b))


def _align(s, index):
    """array of s reordered to index; missing labels give NaN"""
    if vf.same_index(s._index, index):
        return s._a
    if s._index._symbolic() or index._symbolic():
        vf.not_modelled("alignment of symbolic indices")
    ls, vals = s._index._list(), list(s._a)
    out = []
    for x in index._list():
        i = _pos(ls, x)
        out.append(np.nan if i < 0 else vals[i])
    return vf.boxes(out)


def _order(labels, ascending=True):
    pairs = [(x, i) for i, x in enumerate(labels)]
    pairs = sorted(pairs, key=lambda p: p[0], reverse=not ascending)
    return [p[1] for p in pairs]


def _loc_rows(index, k):
    """(positions, is_scalar, remaining index or None)"""
    n = index._len()
    if isinstance(k, slice):
        if k.start is None and k.stop is None and k.step is None:
            return None, False, None
        ls = index._list()
        lo = 0 if k.start is None else ls.index(k.start)
        hi = n if k.stop is None else ls.index(k.stop) + 1
        return list(range(lo, hi)), False, None
    if isinstance(k, (list, np.ndarray, Series, Index)) and not isinstance(k, tuple):
        ks = _seq(k)
        if ks and (ks[0] is NA or vf.is_bool(ks[0])):
            return _positions(ks, n), False, None
        ls = index._list()
        out = []
        for x in ks:
            i = _pos(ls, x)
            if i < 0:
                raise KeyError(x)
            out.append(i)
        return out, False, None
    ls = index._list()
    if isinstance(index, MultiIndex):
        key = k if isinstance(k, tuple) else (k,)
        if len(key) > index.nlevels:
            raise KeyError(k)
        hit = []
        for i, t in enumerate(ls):
            if all(isinstance(a, slice) or a == b for a, b in zip(key, t)):
                hit.append(i)
        if not hit:
            raise KeyError(k)
        if len(key) == index.nlevels and not any(isinstance(a, slice) for a in key):
            return hit, len(hit) == 1, None
        return hit, False, [j for j in range(index.nlevels) if j >= len(key) or isinstance(key[j], slice)]
    hit = [i for i, x in enumerate(ls) if x == k]
    if not hit:
        raise KeyError(k)
    return hit, len(hit) == 1, None


class _SLoc:
    __vf_partial__ = True

    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        rows, scalar, rest = _loc_rows(self.s._index, k)
        if rows is None:
            return self.s
        if scalar:
            return list(self.s._a)[rows[0]]
        r = self.s._rows(rows)
        if rest is not None:
            r._index = r._index._sub(rest)
        return r

    def __setitem__(self, k, v):
        s = self.s
        rows, scalar, rest = _loc_rows(s._index, k)
        s._a = _assigned(s._a, s._index, rows, v)


class _SILoc:
    __vf_partial__ = True

    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, slice):
            n = len(self.s)
            return self.s._rows(list(range(n))[k])
        if _is_listlike(k):
            return self.s._rows(_positions(k, len(self.s)))
        return list(self.s._a)[k]

    def __setitem__(self, k, v):
        n = len(self.s)
        rows = list(range(n))[k] if isinstance(k, slice) else [k if k >= 0 else k + n]
        self.s._a = _assigned(self.s._a, self.s._index, rows, v)


def _assigned(col, index, rows, v):
    """column with the given rows replaced (rows None: all)"""
    if isinstance(v, DataFrame):
        if len(v._data) != 1:
            vf.not_modelled("assignment of a table")
        v = Series(v._data[0], index=v._index)
    if isinstance(v, Series):
        target = index if rows is None else index._take(rows)
        v = _align(v, target)
    if rows is None:
        if isinstance(v, (np.ndarray, list, tuple, Index)):
            a = _arr(v)
            if not vf.same_size(np.shape(a)[0], index._len()):
                raise ValueError("cannot set using a list-like indexer with a different length than the value")
            return a
        return vf.full(index._len(), v)
    vals = list(col)
    if isinstance(v, (np.ndarray, list, tuple, Index)) and len(np.shape(_arr(v))) == 1:
        new = list(_arr(v))
        if len(new) != len(rows):
            if len(new) != 1:
                raise ValueError("cannot set using a multi-index selection indexer with a different length than the value")
            new = new * len(rows)
    else:
        new = [v] * len(rows)
    for i, x in zip(rows, new):
        vals[i] = x
    return vf.boxes(vals)


# --------------------------------------------------------------------------- frames
WRITTEN = []    # tables written by to_csv, for specifications to look at


class DataFrame:
    __vf_partial__ = True
    __vf_wrap__ = True

    def __getattr__(self, name):
        if not name.startswith("_"):
            if isinstance(self._columns, Index) and name in self._columns._list():
                return self[name]
            vf.not_modelled("attribute %r of DataFrame" % name)
        raise AttributeError("'DataFrame' object has no attribute '%s'" % name)

    def to_csv(self, path_or_buf=None, *args, **kw):
        WRITTEN.append((path_or_buf, self.copy(), args, kw))

    def plot(self, *args, backend=None, **kw):
        if backend != "plotly":
            vf.not_modelled("plotting with another backend than plotly")
        import plotly.graph_objects as go
        return go.Figure([go.Scatter(x=self._index, y=self[c], name=str(c)) for c in self._columns._list()])

    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        idx = None if index is None else _index_of(index)
        if data is None:
            data = {}
        if isinstance(data, DataFrame):
            cols = data._columns if columns is None else _index_of(columns)
            src = data if idx is None else data.reindex(index=idx)
            self._index = src._index.copy() if idx is None else idx
            self._columns = cols.copy()
            self._data = [src._column(c) for c in cols._list()]
        elif isinstance(data, Series):
            self._index = data._index if idx is None else idx
            self._columns = _index_of([0 if data.name is None else data.name] if columns is None else columns)
            self._data = [_align(data, self._index)]
        elif isinstance(data, dict):
            keys = list(data)
            cols = _index_of(keys) if columns is None else _index_of(columns)
            if idx is None:
                for k in keys:
                    if isinstance(data[k], Series):
                        idx = data[k]._index.copy()
                        break
                else:
                    for k in keys:
                        if _is_listlike(data[k]):
                            idx = _index_of(None, np.shape(_arr(data[k]))[0])
                            break
                    else:
                        if keys:
                            raise ValueError("If using all scalar values, you must pass an index")
                        idx = Index([])
            self._index = idx
            self._columns = cols
            self._data = []
            for c in cols._list():
                if _pos(keys, c) >= 0:
                    self._data.append(self._as_column(data[c]))
                else:
                    self._data.append(vf.full(idx._len(), np.nan))
        elif isinstance(data, np.ndarray):
            shape = np.shape(data)
            if len(shape) == 1:
                arrs = [data]
            elif len(shape) == 2:
                if not vf.is_concrete(shape[1]):
                    vf.not_modelled("table with a symbolic number of columns")
                arrs = [data[:, j] for j in range(shape[1])]
            else:
                raise ValueError("Must pass 2-d input. shape=%s" % str(shape))
            self._index = _index_of(None, shape[0]) if idx is None else idx
            if not vf.same_size(self._index._len(), shape[0]):
                raise ValueError("Shape of passed values does not match the index")
            self._columns = _index_of(list(range(len(arrs))) if columns is None else columns)
            if self._columns._len() != len(arrs):
                raise ValueError("Shape of passed values does not match the columns")
            self._data = arrs
        elif isinstance(data, (list, tuple)):
            rows = list(data)
            if rows and isinstance(rows[0], dict):
                keys = []
                for r in rows:
                    for k in r:
                        if k not in keys:
                            keys.append(k)
                cols = _index_of(keys if columns is None else columns)
                self._data = [vf.boxes([r.get(c, np.nan) for r in rows]) for c in cols._list()]
            elif rows and isinstance(rows[0], (list, tuple)):
                m = max([len(r) for r in rows])
                cols = _index_of((list(rows[0]._fields) if hasattr(rows[0], "_fields") else list(range(m))) if columns is None else columns)
                self._data = [vf.boxes([r[j] for r in rows]) for j in range(m)]
            else:
                cols = _index_of([0] if columns is None else columns)
                self._data = [vf.boxes(rows)] if rows else [vf.boxes([]) for c in cols._list()]
            self._columns = cols
            self._index = _index_of(None, len(rows)) if idx is None else idx
        else:
            vf.not_modelled("DataFrame constructor")
        if dtype is not None:
            self._data = [_astype(a, dtype) for a in self._data]

    def _as_column(self, v):
        if isinstance(v, Series):
            return _align(v, self._index)
        if _is_listlike(v):
            a = _arr(v)
            if len(np.shape(a)) != 1:
                raise ValueError("Per-column arrays must each be 1-dimensional")
            if not vf.same_size(np.shape(a)[0], self._index._len()):
                raise ValueError("Length of values does not match length of index")
            return a
        return vf.full(self._index._len(), v)

    @classmethod
    def _make(cls, data, index, columns):
        r = object.__new__(DataFrame)
        r._data = data
        r._index = index
        r._columns = columns
        return r

    # ---------------------------------------------------------------- attributes
    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, value):
        new = _index_of(value)
        if not vf.same_size(new._len(), self._index._len()):
            raise ValueError("Length mismatch: index")
        self._index = new

    @property
    def columns(self):
        return self._columns

    @columns.setter
    def columns(self, value):
        new = _index_of(value)
        if new._len() != self._columns._len():
            raise ValueError("Length mismatch: Expected axis has %d elements" % self._columns._len())
        self._columns = new

    @property
    def shape(self):
        return (self._index._len(), len(self._data))

    @property
    def size(self):
        return self._index._len() * len(self._data)

    @property
    def ndim(self):
        return 2

    @property
    def empty(self):
        return len(self._data) == 0 or (not self._index._symbolic() and self._index._len() == 0)

    @property
    def values(self):
        if not self._data:
            vf.not_modelled("values of an empty table")
        return np.stack(self._data, axis=1)

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        return self.values

    @property
    def T(self):
        vals = [list(a) for a in self._data]
        return DataFrame._make([vf.boxes([v[i] for v in vals]) for i in range(self._index._len())], self._columns.copy(), self._index.copy())

    def __array__(self, dtype=None, copy=None):
        return self.values

    def __vf_np__(self, result):
        return DataFrame._make([result[:, j] for j in range(len(self._data))], self._index.copy(), self._columns.copy())

    def __len__(self):
        return self._index._len()

    def __iter__(self):
        return iter(self._columns._list())

    def __contains__(self, k):
        return k in self._columns

    def keys(self):
        return self._columns

    def items(self):
        return [(c, self[c]) for c in self._columns._list()]

    def iterrows(self):
        return [(l, self._row(i)) for i, l in enumerate(self._index._list())]

    def _row(self, i):
        return Series(vf.boxes([list(a)[i] for a in self._data]), index=self._columns, name=self._index._list()[i])

    def _column(self, c):
        i = _pos(self._columns._list(), c)
        if i < 0:
            raise KeyError(c)
        return self._data[i]

    def _rows(self, positions):
        if positions is None:
            return self.copy()
        vals = [list(a) for a in self._data]
        return DataFrame._make([vf.boxes([v[i] for i in positions]) for v in vals], self._index._take(positions), self._columns.copy())

    def _cols(self, positions):
        return DataFrame._make([self._data[i] for i in positions], self._index.copy(), self._columns._take(positions))

    def copy(self, deep=True):
        return DataFrame._make(list(self._data), self._index.copy(), self._columns.copy())

    def _map(self, f):
        return DataFrame._make([f(a) for a in self._data], self._index.copy(), self._columns.copy())

    def _become(self, other):
        self._data, self._index, self._columns = other._data, other._index, other._columns

    # ---------------------------------------------------------------- selection
    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._rows(list(range(self._index._len()))[k])
        if isinstance(k, DataFrame):
            vf.not_modelled("selection by a table")
        if isinstance(k, (list, np.ndarray, Series, Index)):
            ks = _seq(k)
            if ks and (ks[0] is NA or vf.is_bool(ks[0])) or _no_truths(k, ks):
                return self._rows(_positions(ks, self._index._len()))
            cols = self._columns._list()
            pos = []
            for c in ks:
                i = _pos(cols, c)
                if i < 0:
                    raise KeyError(c)
                pos.append(i)
            return self._cols(pos)
        if isinstance(self._columns, MultiIndex) and not (isinstance(k, tuple) and len(k) == self._columns.nlevels):
            rows, scalar, rest = _loc_rows(self._columns, k)
            r = self._cols(rows)
            r._columns = r._columns._sub(rest)
            return r
        return Series(self._column(k), index=self._index, name=k)

    def __setitem__(self, k, v):
        if _is_listlike(k) and not isinstance(k, tuple):
            ks = list(k)
            if isinstance(v, DataFrame):
                for c, d in zip(ks, v._data):
                    self[c] = Series(d, index=v._index)
                return
            if isinstance(v, np.ndarray) and len(np.shape(v)) == 2:
                for j, c in enumerate(ks):
                    self[c] = v[:, j]
                return
            vf.not_modelled("assignment to several columns")
        i = _pos(self._columns._list(), k)
        a = self._as_column(v)
        if i < 0:
            if isinstance(self._columns, MultiIndex):
                vf.not_modelled("new column in a MultiIndex")
            self._columns = Index(self._columns._list() + [k], name=self._columns.name)
            self._data = self._data + [a]
        else:
            self._data = self._data[:i] + [a] + self._data[i + 1:]

    def get(self, k, default=None):
        return self[k] if k in self else default

    def pop(self, k):
        s = self[k]
        self._become(self.drop(columns=[k]))
        return s

    def insert(self, loc, column, value, allow_duplicates=False):
        cols = self._columns._list()
        self._data = self._data[:loc] + [self._as_column(value)] + self._data[loc:]
        self._columns = Index(cols[:loc] + [column] + cols[loc:], name=self._columns.name)

    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r[k] = v(r) if callable(v) else v
        return r

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def at(self):
        return _Loc(self)

    def head(self, n=5):
        return self._rows(list(range(self._index._len()))[:n])

    def tail(self, n=5):
        return self._rows(list(range(self._index._len()))[-n:])

    def xs(self, key, axis=0, level=None):
        if level is None:
            return self.loc[key]
        i = self._index._level_number(level)
        rows = [j for j, t in enumerate(self._index._list()) if t[i] == key]
        r = self._rows(rows)
        r._index = r._index._sub([j for j in range(self._index.nlevels) if j != i])
        return r

    # ---------------------------------------------------------------- reshaping
    def reindex(self, labels=None, index=None, columns=None, axis=None, fill_value=np.nan):
        if labels is not None:
            if axis in (1, "columns"):
                columns = labels
            else:
                index = labels
        r = self
        if columns is not None:
            cols = _index_of(columns)
            mine = self._columns._list()
            data = []
            for c in cols._list():
                i = _pos(mine, c)
                data.append(vf.full(self._index._len(), fill_value) if i < 0 else self._data[i])
            r = DataFrame._make(data, self._index.copy(), cols)
        if index is not None:
            idx = _index_of(index)
            r = DataFrame._make([_align(Series(a, index=self._index), idx) for a in r._data], idx, r._columns.copy())
        return r

    def rename(self, mapper=None, index=None, columns=None, axis=None, inplace=False, copy=None, errors="ignore"):
        if mapper is not None:
            if axis in (1, "columns"):
                columns = mapper
            else:
                index = mapper
        r = self.copy()
        if columns is not None:
            if isinstance(columns, dict):
                r._columns = Index([columns.get(c, c) for c in self._columns._list()], name=self._columns.name)
            else:
                r._columns = Index([columns(c) for c in self._columns._list()], name=self._columns.name)
        if index is not None:
            if isinstance(index, dict):
                r._index = Index([index.get(c, c) for c in self._index._list()], name=self._index.name)
            else:
                r._index = Index([index(c) for c in self._index._list()], name=self._index.name)
        return self._inplace(r, inplace)

    def _inplace(self, r, inplace):
        if inplace:
            self._become(r)
            return None
        return r

    def rename_axis(self, mapper=None, index=None, columns=None, axis=0):
        r = self.copy()
        names = mapper if mapper is not None else index
        if columns is not None:
            r._columns.names = columns if isinstance(columns, (list, tuple)) else [columns]
        if names is not None:
            t = r._columns if axis in (1, "columns") else r._index
            t.names = names if isinstance(names, (list, tuple)) else [names]
        return r

    def drop(self, labels=None, axis=0, index=None, columns=None, level=None, inplace=False, errors="raise"):
        if labels is not None:
            if axis in (1, "columns"):
                columns = labels
            else:
                index = labels
        r = self
        if columns is not None:
            cs = list(columns) if _is_listlike(columns) and not isinstance(columns, tuple) else [columns]
            mine = self._columns._list()
            for c in cs:
                if _pos(mine, c) < 0 and errors == "raise":
                    raise KeyError("%s not found in axis" % c)
            r = r._cols([i for i, c in enumerate(mine) if _pos(cs, c) < 0])
        if index is not None:
            cs = list(index) if _is_listlike(index) and not isinstance(index, tuple) else [index]
            mine = self._index._list()
            for c in cs:
                if _pos(mine, c) < 0 and errors == "raise":
                    raise KeyError("%s not found in axis" % c)
            r = r._rows([i for i, c in enumerate(mine) if _pos(cs, c) < 0])
        return self._inplace(r, inplace)

    def astype(self, dtype, copy=True, errors="raise"):
        if isinstance(dtype, dict):
            cols = self._columns._list()
            return DataFrame._make([_astype(a, dtype[c]) if c in dtype else a for c, a in zip(cols, self._data)], self._index.copy(), self._columns.copy())
        return self._map(lambda a: _astype(a, dtype))

    def convert_dtypes(self, *a, **kw):
        return self.copy()

    def infer_objects(self, copy=None):
        return self.copy()

    def set_index(self, keys, drop=True, append=False, inplace=False, verify_integrity=False):
        if append:
            vf.not_modelled("set_index append")
        many = isinstance(keys, list)
        ks = keys if many else [keys]
        cols = self._columns._list()
        arrays, names, used = [], [], []
        for k in ks:
            if isinstance(k, (Series, Index, np.ndarray)):
                arrays.append(_arr(k))
                names.append(getattr(k, "name", None))
                continue
            i = _pos(cols, k)
            if i < 0:
                raise KeyError("None of %s are in the columns" % k)
            used.append(i)
            arrays.append(self._data[i])
            names.append(k)
        r = self._cols([i for i in range(len(cols)) if not (drop and i in used)])
        if len(ks) == 1:
            r._index = Index(arrays[0], name=names[0])
        else:
            r._index = MultiIndex.from_arrays(arrays, names=names)
        return self._inplace(r, inplace)

    def reset_index(self, level=None, drop=False, inplace=False):
        r = self.copy()
        n = self._index._len()
        if not drop:
            if level is not None:
                vf.not_modelled("reset_index level")
            if isinstance(self._index, MultiIndex):
                new = [("level_%d" % i if nm is None else nm, self._index.get_level_values(i)._arr_()) for i, nm in enumerate(self._index._names)]
            else:
                new = [("index" if self._index.name is None else self._index.name, self._index._arr_())]
            r._columns = Index([a for a, b in new] + self._columns._list())
            r._data = [b for a, b in new] + r._data
        r._index = _index_of(None, n)
        return self._inplace(r, inplace)

    def swaplevel(self, i=-2, j=-1, axis=0):
        r = self.copy()
        if axis in (1, "columns"):
            r._columns = r._columns.swaplevel(i, j)
        else:
            r._index = r._index.swaplevel(i, j)
        return r

    def reorder_levels(self, order, axis=0):
        r = self.copy()
        if axis in (1, "columns"):
            r._columns = r._columns.reorder_levels(order)
        else:
            r._index = r._index.reorder_levels(order)
        return r

    def droplevel(self, level, axis=0):
        r = self.copy()
        if axis in (1, "columns"):
            r._columns = r._columns.droplevel(level)
        else:
            r._index = r._index.droplevel(level)
        return r

    def sort_index(self, axis=0, level=None, ascending=True, inplace=False, kind=None, na_position="last", sort_remaining=True, ignore_index=False, key=None):
        idx = self._columns if axis in (1, "columns") else self._index
        labels = idx._list()
        if key is not None:
            vf.not_modelled("sort_index key")
        if level is not None:
            if isinstance(level, (list, tuple)):
                ks = [idx._level_number(l) for l in level]
            else:
                ks = [idx._level_number(level)]
            if sort_remaining:
                ks = ks + [i for i in range(idx.nlevels) if i not in ks]
            labels = [tuple(t[i] for i in ks) for t in labels]
        if isinstance(ascending, (list, tuple)):
            order = list(range(len(labels)))
            for i in range(len(ascending) - 1, -1, -1):
                pairs = sorted([(labels[j][i], n) for n, j in enumerate(order)], key=lambda p: p[0], reverse=not ascending[i])
                order = [order[p[1]] for p in pairs]
        else:
            order = _order(labels, ascending)
        r = self._cols(order) if axis in (1, "columns") else self._rows(order)
        return self._inplace(r, inplace)

    def sort_values(self, by, axis=0, ascending=True, inplace=False, kind=None, na_position="last", ignore_index=False, key=None):
        bys = by if isinstance(by, list) else [by]
        cols = []
        for b in bys:
            if _pos(self._columns._list(), b) >= 0:
                cols.append(list(self._column(b)))
            else:
                cols.append(self._index.get_level_values(b)._list())
        labels = [tuple(c[i] for c in cols) for i in range(self._index._len())]
        if isinstance(ascending, (list, tuple)):
            vf.not_modelled("sort_values ascending list")
        for t in labels:
            for x in t:
                if not vf.is_concrete(x):
                    vf.not_modelled("sorting by measured values")
        r = self._rows(_order(labels, ascending))
        if ignore_index:
            r._index = _index_of(None, r._index._len())
        return self._inplace(r, inplace)

    def drop_duplicates(self, subset=None, keep="first", inplace=False, ignore_index=False):
        cols = self._columns._list() if subset is None else (subset if isinstance(subset, list) else [subset])
        vals = [list(self._column(c)) for c in cols]
        ts = [tuple([v[i] for v in vals]) for i in range(self._index._len())]
        return self._inplace(self._rows(_kept(ts, keep)), inplace)

    def dropna(self, axis=0, how=None, thresh=None, subset=None, inplace=False, ignore_index=False):
        if thresh is not None:
            vf.not_modelled("dropna thresh")
        how = "any" if how is None else how
        vals = [[isna(x) for x in list(a)] for a in self._data]
        if axis in (1, "columns"):
            keep = [j for j, v in enumerate(vals) if not ((any(v) if how == "any" else all(v)) and len(v) > 0)]
            r = self._cols(keep)
        else:
            cols = self._columns._list()
            use = [v for c, v in zip(cols, vals) if subset is None or c in subset]
            keep = [i for i in range(self._index._len()) if not (any([v[i] for v in use]) if how == "any" else all([v[i] for v in use]))]
            r = self._rows(keep)
        return self._inplace(r, inplace)

    def fillna(self, value, inplace=False):
        return self._inplace(self._map(lambda a: vf.boxes([value if isna(x) else x for x in list(a)])), inplace)

    def isna(self):
        return self._map(lambda a: vf.boxes([isna(x) for x in list(a)]))

    isnull = isna

    def notna(self):
        return self._map(lambda a: vf.boxes([not isna(x) for x in list(a)]))

    def stack(self, level=-1, dropna=None, sort=None, future_stack=True):
        if not isinstance(self._columns, MultiIndex):
            if isinstance(self._index, MultiIndex):
                rows = [t + (c,) for t in self._index._list() for c in self._columns._list()]
            else:
                rows = [(t, c) for t in self._index._list() for c in self._columns._list()]
            vals = [list(a) for a in self._data]
            return Series(vf.boxes([v[i] for i in range(self._index._len()) for v in vals]), index=MultiIndex.from_tuples(rows, names=self._index.names + [self._columns.name]))
        i = self._columns._level_number(level)
        cols = self._columns._list()
        keep = [j for j in range(self._columns.nlevels) if j != i]
        outer = _uniq([c[i] for c in cols])
        if len(keep) != 1:
            vf.not_modelled("stack of three column levels")
        inner = _uniq([c[keep[0]] for c in cols])
        rows, data = [], [[] for c in inner]
        vals = [list(a) for a in self._data]
        for n, t in enumerate(self._index._list()):
            for o in outer:
                rows.append((t if isinstance(t, tuple) else (t,)) + (o,))
                for m, c in enumerate(inner):
                    j = _pos([(x[i], x[keep[0]]) for x in cols], (o, c))
                    data[m].append(np.nan if j < 0 else vals[j][n])
        return DataFrame._make([vf.boxes(d) for d in data], MultiIndex.from_tuples(rows, names=self._index.names + [self._columns._names[i]]),
                               Index(inner, name=self._columns._names[keep[0]]))

    def unstack(self, level=-1, fill_value=None):
        idx = self._index
        i = idx._level_number(level)
        keep = [j for j in range(idx.nlevels) if j != i]
        ls = idx._list()
        outer = sorted(_uniq([tuple(t[j] for j in keep) for t in ls]))
        inner = sorted(_uniq([t[i] for t in ls]))
        data, cols = [], []
        for c, a in zip(self._columns._list(), self._data):
            v = list(a)
            for x in inner:
                cols.append((c, x))
                col = []
                for o in outer:
                    p = -1
                    for n, t in enumerate(ls):
                        if t[i] == x and tuple(t[j] for j in keep) == o:
                            p = n
                    col.append(np.nan if p < 0 else v[p])
                data.append(vf.boxes(col))
        rows = Index([o[0] for o in outer], name=idx._names[keep[0]]) if len(keep) == 1 else MultiIndex.from_tuples(outer, names=[idx._names[j] for j in keep])
        return DataFrame._make(data, rows, MultiIndex.from_tuples(cols, names=[self._columns.name, idx._names[i]]))

    def pivot(self, columns=None, index=None, values=None):
        ic = list(self._column(index))
        cc = list(self._column(columns))
        vs = values if isinstance(values, list) else [values]
        rows, cols = sorted(_uniq(ic)), sorted(_uniq(cc))
        data, names = [], []
        for v in vs:
            vv = list(self._column(v))
            for c in cols:
                col = []
                for r in rows:
                    p = -1
                    for n in range(len(ic)):
                        if ic[n] == r and cc[n] == c:
                            if p >= 0:
                                raise ValueError("Index contains duplicate entries, cannot reshape")
                            p = n
                    col.append(np.nan if p < 0 else vv[p])
                data.append(vf.boxes(col))
                names.append((v, c))
        if not isinstance(values, list):
            return DataFrame._make(data, Index(rows, name=index), Index([n[1] for n in names], name=columns))
        return DataFrame._make(data, Index(rows, name=index), MultiIndex.from_tuples(names, names=[None, columns]))

    def groupby(self, by=None, axis=0, level=None, as_index=True, sort=True, group_keys=True, observed=True, dropna=True):
        return _GroupBy(self, by, level, as_index, sort)

    # ---------------------------------------------------------------- computing
    def apply(self, f, axis=0, raw=False, result_type=None, args=(), **kw):
        if axis in (1, "columns"):
            if self._index._symbolic():
                row = Series([vf.cell0(a) for a in self._data], index=self._columns)
                r = f(row, *args, **kw)
                if isinstance(r, Series):
                    return DataFrame._make([vf.column_of(x, self._index._arr_()) for x in r._a], self._index.copy(), r._index)
                return Series(vf.column_of(r, self._index._arr_()), index=self._index)
            res = [f(self._row(i), *args, **kw) for i in range(self._index._len())]
            if res and isinstance(res[0], Series):
                return DataFrame._make([vf.boxes([list(r._a)[j] for r in res]) for j in range(len(res[0]))], self._index.copy(), res[0]._index)
            return Series(vf.boxes(res), index=self._index)
        out = [f(self[c], *args, **kw) for c in self._columns._list()]
        if out and isinstance(out[0], (Series, np.ndarray)):
            return DataFrame._make([_arr(o) for o in out], self._index.copy(), self._columns.copy())
        return Series(vf.boxes(out), index=self._columns)

    def map(self, f):
        return DataFrame._make([Series(a, index=self._index).apply(f)._a for a in self._data], self._index.copy(), self._columns.copy())

    applymap = map

    def pipe(self, f, *a, **kw):
        return f(self, *a, **kw)

    def abs(self):
        return self._map(np.abs)

    def sum(self, axis=0):
        if axis in (1, "columns"):
            t = self._data[0]
            for a in self._data[1:]:
                t = t + a
            return Series(t, index=self._index)
        return Series(vf.boxes([np.sum(a) for a in self._data]), index=self._columns)

    def mean(self, axis=0):
        return Series(vf.boxes([np.mean(a) for a in self._data]), index=self._columns)

    def equals(self, o):
        return self._index.equals(o._index) and self._columns.equals(o._columns) and all([list(a) == list(b) for a, b in zip(self._data, o._data)])

    def _op(self, o, f):
        if isinstance(o, DataFrame):
            cols = self._columns._list()
            if not o._columns._list() == cols:
                vf.not_modelled("arithmetic of differently labelled tables")
            return DataFrame._make([f(a, Series(b, index=o._index) if False else _align(Series(b, index=o._index), self._index)) for a, b in zip(self._data, o._data)], self._index.copy(), self._columns.copy())
        if isinstance(o, Series):
            cols = self._columns._list()
            if not o._index._symbolic() and o._index._list() == cols:
                return DataFrame._make([f(a, o._a[j]) for j, a in enumerate(self._data)], self._index.copy(), self._columns.copy())
            vf.not_modelled("arithmetic of a table and a series")
        if isinstance(o, np.ndarray) and len(np.shape(o)) == 2:
            return DataFrame._make([f(a, o[:, j]) for j, a in enumerate(self._data)], self._index.copy(), self._columns.copy())
        if _is_listlike(o):
            vf.not_modelled("arithmetic of a table and a list")
        return self._map(lambda a: f(a, o))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._op(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._op(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._op(o, lambda a, b: b / a)

    def __pow__(self, o):
        return self._op(o, lambda a, b: a ** b)

    def __neg__(self):
        return self._map(lambda a: -a)

    def __eq__(self, o):
        return self._op(o, lambda a, b: a == b)


class _Loc:
    __vf_partial__ = True

    def __init__(self, df):
        self.df = df

    def _split(self, k):
        """(row key, column key or _ALL)"""
        df = self.df
        if isinstance(k, tuple):
            if isinstance(df._index, MultiIndex) and not any([isinstance(x, (slice, list, np.ndarray, Series, Index, tuple)) for x in k]):
                try:
                    _loc_rows(df._index, k)
                    return k, _ALL
                except KeyError:
                    pass
            if len(k) == 2:
                return k
            if len(k) == 1:
                return k[0], _ALL
            raise KeyError("Too many indexers")
        return k, _ALL

    def __getitem__(self, k):
        df = self.df
        rk, ck = self._split(k)
        if ck is not _ALL:
            if isinstance(ck, slice) or _is_listlike(ck) and not isinstance(ck, tuple):
                cols, cscalar, crest = _loc_rows(df._columns, ck)
                sub = df if cols is None else df._cols(cols)
            else:
                sub = df[ck]
                if isinstance(sub, Series):
                    return sub.loc[rk]
            return sub.loc[rk]
        rows, scalar, rest = _loc_rows(df._index, rk)
        if scalar:
            return df._row(rows[0])
        r = df._rows(rows)
        if rest is not None:
            r._index = r._index._sub(rest)
        return r

    def __setitem__(self, k, v):
        df = self.df
        rk, ck = self._split(k)
        if ck is _ALL:
            cols = list(range(len(df._data)))
        elif isinstance(ck, slice) or _is_listlike(ck) and not isinstance(ck, tuple):
            cols = _loc_rows(df._columns, ck)[0]
            cols = list(range(len(df._data))) if cols is None else cols
        else:
            i = _pos(df._columns._list(), ck)
            if i < 0:
                df[ck] = vf.full(df._index._len(), np.nan)
                i = _pos(df._columns._list(), ck)
            cols = [i]
        rows, scalar, rest = _loc_rows(df._index, rk)
        many = len(cols) > 1 or ck is _ALL or isinstance(ck, (slice, list))
        data = list(df._data)
        for n, j in enumerate(cols):
            w = v
            if many and isinstance(v, DataFrame):
                w = Series(v._column(df._columns._list()[j]), index=v._index)
            elif many and isinstance(v, np.ndarray) and len(np.shape(v)) == 2:
                w = v[:, n]
            elif many and _is_listlike(v):
                if scalar:
                    w = _seq(v)[n]
                else:
                    vf.not_modelled("assignment to several columns")
            if rows is None and not isinstance(w, (Series, DataFrame)) and not _is_listlike(w):
                data[j] = vf.full(df._index._len(), w)
            else:
                data[j] = _assigned(data[j], df._index, rows, w)
        df._data = data


_ALL = object()


class _ILoc:
    __vf_partial__ = True

    def __init__(self, df):
        self.df = df

    def _pos(self, k, n):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                return None
            return list(range(n))[k]
        if _is_listlike(k):
            return _positions(k, n)
        if k >= n or k < -n:
            raise IndexError("single positional indexer is out-of-bounds")
        return k if k >= 0 else k + n

    def __getitem__(self, k):
        df = self.df
        rk, ck = k if isinstance(k, tuple) else (k, slice(None))
        cp = self._pos(ck, len(df._data))
        if cp is not None and not isinstance(cp, list):
            s = Series(df._data[cp], index=df._index, name=df._columns._list()[cp])
            if isinstance(rk, slice) and rk.start is None and rk.stop is None and rk.step is None:
                return s
            return s.iloc[rk]
        sub = df if cp is None else df._cols(cp)
        if isinstance(rk, slice) and rk.start is None and rk.stop is None and rk.step is None:
            return sub.copy()
        rp = self._pos(rk, df._index._len())
        if not isinstance(rp, list):
            return sub._row(rp)
        return sub._rows(rp)

    def __setitem__(self, k, v):
        df = self.df
        rk, ck = k if isinstance(k, tuple) else (k, slice(None))
        cp = self._pos(ck, len(df._data))
        cp = list(range(len(df._data))) if cp is None else (cp if isinstance(cp, list) else [cp])
        rp = None if isinstance(rk, slice) and rk.start is None and rk.stop is None and rk.step is None else self._pos(rk, df._index._len())
        if rp is not None and not isinstance(rp, list):
            rp = [rp]
        if _is_listlike(v) and len(cp) > 1:
            vf.not_modelled("assignment to several columns")
        data = list(df._data)
        for j in cp:
            data[j] = _assigned(data[j], df._index, rp, v)
        df._data = data


class _GroupBy:
    __vf_partial__ = True

    def __init__(self, df, by, level, as_index, sort):
        if level is not None:
            by = [df._index._names[df._index._level_number(l)] if isinstance(df._index, MultiIndex) else df._index.name for l in (level if isinstance(level, (list, tuple)) else [level])]
        self.df = df
        self.by = by if isinstance(by, list) else [by]
        self.many = isinstance(by, list)
        self.as_index = as_index
        cols = []
        for b in self.by:
            if _pos(df._columns._list(), b) >= 0:
                cols.append(list(df._column(b)))
            elif isinstance(df._index, MultiIndex) or df._index.name == b:
                cols.append(df._index.get_level_values(b)._list())
            else:
                raise KeyError(b)
        self.keys = [tuple(c[i] for c in cols) for i in range(df._index._len())]
        self.groups = _uniq(self.keys)
        if sort:
            self.groups = sorted(self.groups)
        self.rest = [c for c in df._columns._list() if _pos(self.by, c) < 0]

    def _agg(self, f):
        df = self.df
        data = []
        for c in self.rest:
            v = list(df._column(c))
            data.append(vf.boxes([f([x for x, k in zip(v, self.keys) if k == g]) for g in self.groups]))
        if len(self.by) == 1:
            idx = Index([g[0] for g in self.groups], name=self.by[0])
        else:
            idx = MultiIndex.from_tuples(self.groups, names=self.by)
        r = DataFrame._make(data, idx, Index(self.rest))
        return r if self.as_index else r.reset_index()

    def __getitem__(self, k):
        r = _GroupBy(self.df, self.by, None, self.as_index, False)
        r.groups = self.groups
        r.rest = list(k) if isinstance(k, list) else [k]
        return r

    def sum(self, **kw):
        return self._agg(lambda xs: sum(xs[1:], xs[0]))

    def first(self, **kw):
        return self._agg(lambda xs: xs[0])

    def last(self, **kw):
        return self._agg(lambda xs: xs[-1])

    def mean(self, **kw):
        return self._agg(lambda xs: sum(xs[1:], xs[0]) / len(xs))

    def min(self, **kw):
        return self._agg(lambda xs: np.min(vf.boxes(xs)))

    def max(self, **kw):
        return self._agg(lambda xs: np.max(vf.boxes(xs)))

    def size(self):
        return Series([len([1 for k in self.keys if k == g]) for g in self.groups], index=MultiIndex.from_tuples(self.groups, names=self.by))

    def __iter__(self):
        return iter([(g if len(self.by) > 1 else g[0], self.df._rows([i for i, k in enumerate(self.keys) if k == g])) for g in self.groups])


class _Stacked:
    """tables of unknown length below each other: only the columns are known"""
    __vf_partial__ = True

    def __init__(self, cols):
        self._cols = cols

    @property
    def columns(self):
        return Index(self._cols)

    def plot(self, *args, backend=None, **kw):
        import plotly.graph_objects as go
        return go.Figure([go.Scatter(name=str(c)) for c in self._cols])


def concat(objs, axis=0, join="outer", ignore_index=False, keys=None, levels=None, names=None, verify_integrity=False, sort=False, copy=None):
    if isinstance(objs, dict):
        keys = list(objs)
        objs = list(objs.values())
    objs = [o for o in objs if o is not None]
    if not objs:
        raise ValueError("No objects to concatenate")
    if axis in (1, "columns"):
        idx = objs[0]._index
        for o in objs[1:]:
            if not vf.same_index(idx, o._index) and (idx._symbolic() or o._index._symbolic() or sorted(idx._list()) != sorted(o._index._list())):
                vf.not_modelled("concatenation of differently indexed tables")
        data, cols = [], []
        for n, o in enumerate(objs):
            if isinstance(o, Series):
                data.append(_align(o, idx))
                cols.append(keys[n] if keys is not None else (o.name if o.name is not None else n))
            else:
                for c, a in zip(o._columns._list(), o._data):
                    data.append(_align(Series(a, index=o._index), idx))
                    if keys is not None:
                        cols.append((keys[n],) + (c if isinstance(c, tuple) else (c,)))
                    else:
                        cols.append(c)
        if ignore_index:
            cols = list(range(len(cols)))
        c = _index_of(cols)
        if names is not None:
            c.names = names
        return DataFrame._make(data, idx.copy(), c)
    if all([isinstance(o, Series) for o in objs]):
        if keys is not None:
            vf.not_modelled("concat of series with keys")
        vals, ls = [], []
        for o in objs:
            vals = vals + list(o._a)
            ls = ls + o._index._list()
        return Series(vals, index=None if ignore_index else ls, name=objs[0].name)
    cols = []
    for o in objs:
        for c in o._columns._list():
            if c not in cols:
                cols.append(c)
    if any([o._index._symbolic() for o in objs]):
        return _Stacked(cols)
    data, rows = [[] for c in cols], []
    for n, o in enumerate(objs):
        mine = o._columns._list()
        for j, c in enumerate(cols):
            i = _pos(mine, c)
            data[j] = data[j] + (list(o._data[i]) if i >= 0 else [np.nan] * o._index._len())
        for t in o._index._list():
            rows.append(t if keys is None else (keys[n],) + (t if isinstance(t, tuple) else (t,)))
    if ignore_index:
        idx = _index_of(None, len(rows))
    elif rows and isinstance(rows[0], tuple):
        inner = objs[0]._index.names
        idx = MultiIndex.from_tuples(rows, names=inner if keys is None else ((list(names) if names is not None else [None]) + inner)[:len(rows[0])])
    else:
        idx = Index(rows, name=objs[0]._index.name)
    return DataFrame._make([vf.boxes(d) for d in data], idx, Index(cols))


def to_numeric(arg, errors="raise", downcast=None, dtype_backend=None):
    def conv(x):
        if x is NA:
            return NA
        if isna(x):
            return np.nan
        if isinstance(x, str):
            v = vf.numeral_value(x.strip())
            if v is None:
                if errors == "coerce":
                    return missing
                raise ValueError("Unable to parse string %s" % x)
            return v
        return x
    missing = NA if isinstance(arg, Series) and vf.known_length(arg._a) and vf.has_na(arg._a) else np.nan
    if isinstance(arg, Series):
        return arg._new(vf.boxes([conv(x) for x in list(arg._a)]))
    if isinstance(arg, Index):
        return Index([conv(x) for x in arg._list()], name=arg.name)
    if isinstance(arg, (list, tuple, np.ndarray)):
        return vf.boxes([conv(x) for x in list(arg)])
    return conv(arg)


# --------------------------------------------------------------------------- reading text
class _Errors:
    pass


class ParserError(ValueError):
    pass


class EmptyDataError(ValueError):
    pass


errors = _Errors()
errors.ParserError = ParserError
errors.EmptyDataError = EmptyDataError

_MISSING = ["", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "<NA>", "N/A", "NA", "NULL", "NaN", "None", "n/a", "nan", "null"]


def _fields(line, sep):
    if sep is None:
        vf.not_modelled("sniffed separator")
    if sep == r"\s+":
        return line.split()
    if len(sep) > 1:
        import re
        return re.split(sep, line)
    return [f.strip('"') for f in line.split(sep)]


def read_csv(filepath_or_buffer, *, sep=None, delimiter=None, header="infer", names=None, index_col=None, usecols=None, dtype=None, engine=None,
             skiprows=None, nrows=None, skipfooter=0, encoding=None, decimal=".", comment=None, skip_blank_lines=True, na_values=None, keep_default_na=True,
             skipinitialspace=False, encoding_errors="strict", on_bad_lines="error", low_memory=True, thousands=None, float_precision=None, _default_sep=","):
    if sep is not None and delimiter is not None:
        raise ValueError("Specified a sep and a delimiter; you can only specify one.")
    sep = delimiter if sep is None else sep
    sep = _default_sep if sep is None else sep
    for v in (na_values, thousands):
        if v is not None:
            vf.not_modelled("read_csv option")
    import vf_io
    if isinstance(filepath_or_buffer, vf_io.File) or hasattr(filepath_or_buffer, "readlines"):
        lines = filepath_or_buffer.readlines()
    else:
        f = vf_io.open_(filepath_or_buffer, "r", encoding=encoding if encoding is not None else "utf-8")
        try:
            lines = f.readlines()
        finally:
            f.close()
    lines = [l.rstrip("\r\n") for l in lines]
    if skiprows is not None:
        if isinstance(skiprows, int):
            lines = lines[skiprows:]
        elif callable(skiprows):
            lines = [l for i, l in enumerate(lines) if not skiprows(i)]
        else:
            sk = list(skiprows)
            lines = [l for i, l in enumerate(lines) if i not in sk]
    if skipfooter:
        lines = lines[:-skipfooter]
    if comment is not None:
        lines = [l.split(comment)[0] for l in lines]
    if skip_blank_lines:
        lines = [l for l in lines if l.strip(" ") != ""]
    if header == "infer":
        header = 0 if names is None else None
    if not lines:
        raise EmptyDataError("No columns to parse from file")
    rows = [_fields(l, sep) for l in lines]
    if skipinitialspace:
        rows = [[x.lstrip() for x in r] for r in rows]
    cols = None
    if header is not None:
        if not isinstance(header, int):
            vf.not_modelled("multi-row header")
        cols = [x for x in rows[header]]
        cols = ["Unnamed: %d" % i if x == "" else x for i, x in enumerate(cols)]
        seen = []
        for i, c in enumerate(list(cols)):
            k, n = c, 0
            while k in seen:
                n += 1
                k = c + "." + str(n)
            cols[i] = k
            seen.append(k)
        rows = rows[header + 1:]
    if names is not None:
        cols = list(names)
    if usecols is not None:
        if callable(usecols):
            vf.not_modelled("callable usecols")
        use = []
        for c in usecols:
            if isinstance(c, str):
                if cols is None or _pos(cols, c) < 0:
                    raise ValueError("Usecols do not match columns, columns expected but not found: " + c)
                use.append(_pos(cols, c))
            else:
                use.append(c)
        use = sorted(set(use))
        if rows and max(use) >= len(rows[0]):
            raise ParserError("Too many columns specified")
        rows = [[r[i] if i < len(r) else "" for i in use] for r in rows]
        if cols is not None:
            if len(cols) != len(use):
                if names is not None and len(cols) < len(use):
                    raise ValueError("Number of passed names did not match number of header fields in the file")
                cols = [cols[i] for i in use]
    width = len(rows[0]) if rows else len(cols)
    implicit = 0
    if cols is None:
        cols = list(range(width))
    elif width > len(cols) and index_col is None:
        implicit = width - len(cols)
        if implicit > 1:
            vf.not_modelled("several implicit index columns")
    total = len(cols) + implicit
    if nrows is not None:
        rows = rows[:nrows]
    out = []
    for r in rows:
        if len(r) > total:
            if index_col is False or all([x == "" for x in r[total:]]) and len(r) == total + 1:
                r = r[:total]
            elif on_bad_lines == "skip":
                continue
            else:
                raise ParserError("Error tokenizing data. Expected %d fields, saw %d" % (total, len(r)))
        out.append(r + [""] * (total - len(r)))
    data = [_convert([r[j] for r in out], decimal) for j in range(total)]
    if implicit:
        idx = Index(data[0])
        return DataFrame._make(data[1:], idx, _cols_index(cols))
    df = DataFrame._make(data, _index_of(None, len(out)), _cols_index(cols))
    if dtype is not None:
        df = df.astype(dtype)
    if index_col is not None and index_col is not False:
        many = isinstance(index_col, (list, tuple))
        ks = list(index_col) if many else [index_col]
        pos = []
        for k in ks:
            if isinstance(k, str):
                i = _pos(cols, k)
                if i < 0:
                    raise ValueError("Index %s invalid" % k)
                pos.append(i)
            else:
                pos.append(k if k >= 0 else k + len(cols))
        r = df._cols([i for i in range(len(cols)) if i not in pos])
        nm = [cols[i] for i in pos]
        if len(pos) == 1:
            r._index = Index(data[pos[0]], name=nm[0])
        else:
            r._index = MultiIndex.from_arrays([data[i] for i in pos], names=nm)
        df = r
    return df


def _cols_index(cols):
    return Index(list(cols))


def read_table(filepath_or_buffer, *, sep=None, delimiter=None, **kw):
    return read_csv(filepath_or_buffer, sep=sep, delimiter=delimiter, _default_sep="\t", **kw)


def _convert(cells, decimal):
    out = []
    for c in cells:
        t = c.strip()
        if t in _MISSING:
            out.append(np.nan)
            continue
        v = vf.numeral_value(t if decimal == "." else t.replace(decimal, "."))
        if v is None:
            return vf.boxes([np.nan if x.strip() in _MISSING else x for x in cells])
        out.append(v)
    return vf.boxes(out)
