"""Model of regular expressions on known strings."""
import vf

A = ASCII = 256
I = IGNORECASE = 2
M = MULTILINE = 8
S = DOTALL = 16
X = VERBOSE = 64
U = UNICODE = 32


class error(Exception):
    pass


PatternError = error


class Match:
    __vf_partial__ = True

    def __init__(self, pattern, text, data):
        self.re = pattern
        self.string = text
        self._spans, self._names = data

    def _num(self, g):
        if isinstance(g, str):
            if g not in self._names:
                raise IndexError("no such group")
            return self._names[g]
        if g < 0 or g >= len(self._spans):
            raise IndexError("no such group")
        return g

    def _get(self, g):
        s, e = self._spans[self._num(g)]
        return None if s < 0 else self.string[s:e]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(default if self._get(i) is None else self._get(i) for i in range(1, len(self._spans)))

    def groupdict(self, default=None):
        return {n: (default if self._get(i) is None else self._get(i)) for n, i in self._names.items()}

    def start(self, g=0):
        return self._spans[self._num(g)][0]

    def end(self, g=0):
        return self._spans[self._num(g)][1]

    def span(self, g=0):
        return self._spans[self._num(g)]

    @property
    def lastindex(self):
        r = None
        for i in range(1, len(self._spans)):
            if self._spans[i][0] >= 0:
                r = i
        return r

    def expand(self, template):
        return vf.re_expand(self.re.pattern, self.re.flags, self.string, self._spans[0][0], template)

    def __bool__(self):
        return True


class Pattern:
    __vf_partial__ = True

    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.flags = flags
        problem = vf.re_check(pattern, flags)
        if problem:
            raise error(problem)

    def _run(self, mode, text, pos):
        d = vf.re_match(self.pattern, self.flags, mode, text, pos)
        return None if d is None else Match(self, text, d)

    def match(self, string, pos=0):
        return self._run("match", string, pos)

    def search(self, string, pos=0):
        return self._run("search", string, pos)

    def fullmatch(self, string, pos=0):
        return self._run("fullmatch", string, pos)

    def finditer(self, string):
        return iter([Match(self, string, d) for d in vf.re_all(self.pattern, self.flags, string)])

    def findall(self, string):
        out = []
        for d in vf.re_all(self.pattern, self.flags, string):
            m = Match(self, string, d)
            g = m.groups("")
            out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
        return out

    def split(self, string, maxsplit=0):
        return list(vf.re_split(self.pattern, self.flags, string, maxsplit))

    def sub(self, repl, string, count=0):
        if isinstance(repl, str):
            return vf.re_sub(self.pattern, self.flags, repl, string, count)
        out, last, n = "", 0, 0
        for d in vf.re_all(self.pattern, self.flags, string):
            if count and n >= count:
                break
            m = Match(self, string, d)
            out = out + string[last:m.start()] + repl(m)
            last = m.end()
            n += 1
        return out + string[last:]


def compile(pattern, flags=0):
    return pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags)


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def escape(pattern):
    return vf.re_escape(pattern)
