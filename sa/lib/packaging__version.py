"""Model of packaging.version for release versions."""
import vf


class InvalidVersion(ValueError):
    pass


class Version:
    __vf_partial__ = True

    def __init__(self, version):
        self._text = version
        parts = []
        for p in version.split("."):
            if not p.isdigit():
                vf.not_modelled("version " + version)
            parts.append(int(p))
        self._release = tuple(parts)

    @property
    def release(self):
        return self._release

    @property
    def major(self):
        return self._release[0]

    @property
    def minor(self):
        return self._release[1] if len(self._release) > 1 else 0

    def _key(self):
        k = list(self._release)
        while len(k) < 6:
            k.append(0)
        return tuple(k)

    def __lt__(self, o):
        return self._key() < o._key()

    def __le__(self, o):
        return self._key() <= o._key()

    def __gt__(self, o):
        return self._key() > o._key()

    def __ge__(self, o):
        return self._key() >= o._key()

    def __eq__(self, o):
        return isinstance(o, Version) and self._key() == o._key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._key())

    def __str__(self):
        return self._text


def parse(version):
    return Version(version)
