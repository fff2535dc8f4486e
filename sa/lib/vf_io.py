"""Model of files: known contents, open/closed state, every opened file is recorded."""
import vf

FILES = {}        # path -> (content or object, encoding)
OPENED = []
WRONG = []        # text opened with an encoding other than the file's


FAULT = {"path": None, "after": -1, "hit": False}     # the n-th operation on the file fails
INTERRUPT = [OSError]


def reset():
    global OPENED, WRONG
    OPENED = []
    WRONG = []


def arm(path, after, exc=OSError):
    FAULT["path"] = path
    FAULT["after"] = after
    FAULT["hit"] = False
    INTERRUPT[0] = exc


def disarm():
    FAULT["path"] = None
    return FAULT["hit"]


def operation(path):
    if FAULT["path"] is None or vf.fspath(path) != FAULT["path"]:
        return
    if FAULT["after"] == 0:
        FAULT["hit"] = True
        FAULT["after"] = -1
        raise INTERRUPT[0]("injected I/O error")
    FAULT["after"] = FAULT["after"] - 1


def register(path, content, encoding="utf-8"):
    FILES[path] = (content, encoding)


def content_of(path):
    path = vf.fspath(path)
    if path in FILES:
        return FILES[path]
    text = vf.read_source(path)
    if text is None:
        return None
    return (text, "utf-8")


def exists(path):
    return content_of(path) is not None


isfile = exists


class File:
    __vf_partial__ = True

    def __init__(self, path, mode, encoding, data, lines):
        self.name = path
        self._where = path
        self.mode = mode
        self.encoding = encoding
        self._data = data
        self._lines = lines
        self._pos = 0
        self.closed = False

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        operation(self.name)

    def __enter__(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        self.closed = True

    def readable(self):
        return True

    def fileno(self):
        return 3

    def tell(self):
        self._check()
        return self._pos

    def seek(self, pos, whence=0):
        self._check()
        self._pos = pos if whence == 0 else len(self._lines)
        return self._pos

    def readline(self, size=-1):
        self._check()
        if self._pos >= len(self._lines):
            return ""
        line = self._lines[self._pos]
        self._pos += 1
        return line

    def readlines(self, hint=-1):
        self._check()
        rest = self._lines[self._pos:]
        self._pos = len(self._lines)
        return rest

    def read(self, size=-1):
        self._check()
        if "b" in self.mode:
            return self._data
        if size is not None and size >= 0:
            vf.not_modelled("partial read")
        rest = self._lines[self._pos:]
        self._pos = len(self._lines)
        return "".join(rest)

    def __iter__(self):
        return iter(self.readlines())

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration()
        return line


class Raw:
    """undecoded content of a file"""
    __vf_partial__ = True

    def __init__(self, text, encoding):
        self.text = text
        self.true_encoding = encoding

    def decode(self, encoding="utf-8", errors="strict"):
        note_encoding(self.true_encoding, encoding)
        return self.text


def norm(e):
    e = e.lower().replace("_", "-")
    return {"utf8": "utf-8", "iso8859-1": "iso-8859-1", "latin-1": "iso-8859-1", "latin1": "iso-8859-1"}.get(e, e)


def note_encoding(true, used):
    if used is None or norm(used) != norm(true):
        WRONG.append((true, used))


def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    c = content_of(file)
    if "w" in mode or "a" in mode or "x" in mode or "+" in mode:
        vf.not_modelled("writing files")
    if c is None:
        raise FileNotFoundError(file)
    operation(file)
    text, enc = c
    if "b" in mode:
        f = File(file, mode, None, Raw(text, enc), [])
    else:
        note_encoding(enc, encoding)
        f = File(file, mode, encoding, text, text.splitlines(True) if isinstance(text, str) else [])
    OPENED.append(f)
    return f


def still_open():
    return [f._where for f in OPENED if not f.closed]
