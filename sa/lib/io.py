"""Model of text streams in memory."""
import vf_io


class StringIO(vf_io.File):
    def __init__(self, initial_value="", newline="\n"):
        super().__init__("<memory>", "r", None, initial_value, initial_value.splitlines(True))

    def getvalue(self):
        return "".join(self._lines)


def open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    return vf_io.open_(file, mode, buffering, encoding, errors, newline)
