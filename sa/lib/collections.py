"""Model of collections.deque; the other names are handled by the interpreter."""


class deque:
    def __init__(self, iterable=(), maxlen=None):
        self.maxlen = maxlen
        self._d = []
        self.extend(iterable)

    def append(self, x):
        self._d.append(x)
        if self.maxlen is not None and len(self._d) > self.maxlen:
            del self._d[0]

    def appendleft(self, x):
        self._d.insert(0, x)
        if self.maxlen is not None and len(self._d) > self.maxlen:
            del self._d[-1]

    def extend(self, iterable):
        if self.maxlen is None:
            self._d.extend(list(iterable))
        else:
            for x in list(iterable):
                self.append(x)

    def extendleft(self, iterable):
        for x in list(iterable):
            self.appendleft(x)

    def pop(self):
        if not self._d:
            raise IndexError("pop from an empty deque")
        return self._d.pop()

    def popleft(self):
        if not self._d:
            raise IndexError("pop from an empty deque")
        return self._d.pop(0)

    def rotate(self, n=1):
        if self._d:
            n = n % len(self._d)
            if n:
                self._d[:] = self._d[-n:] + self._d[:-n]

    def clear(self):
        del self._d[:]

    def copy(self):
        return deque(self._d, self.maxlen)

    __copy__ = copy

    def remove(self, x):
        self._d.remove(x)

    def insert(self, i, x):
        self._d.insert(i, x)

    def index(self, x):
        return self._d.index(x)

    def count(self, x):
        return self._d.count(x)

    def reverse(self):
        self._d.reverse()

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d)

    def __reversed__(self):
        return iter(self._d[::-1])

    def __contains__(self, x):
        return x in self._d

    def __bool__(self):
        return len(self._d) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise TypeError("sequence index must be integer, not 'slice'")
        if not -len(self._d) <= i < len(self._d):
            raise IndexError("deque index out of range")
        return self._d[i]

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            raise TypeError("sequence index must be integer, not 'slice'")
        self._d[i] = x

    def __delitem__(self, i):
        if isinstance(i, slice):
            raise TypeError("sequence index must be integer, not 'slice'")
        del self._d[i]

    def __add__(self, o):
        if not isinstance(o, deque):
            raise TypeError("can only concatenate deque to deque")
        return deque(self._d + o._d, self.maxlen)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, n):
        return deque(self._d * n, self.maxlen)

    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, deque):
            return NotImplemented
        return self._d == o._d

    def __repr__(self):
        return "deque(%r)" % (self._d,)
