"""Model of yaml: documents are registered as objects."""
import vf
import copy
import vf_io


class YAMLError(Exception):
    pass


class SafeLoader:
    pass


class FullLoader:
    pass


class CSafeLoader:
    pass


def load(stream, Loader=None):
    if isinstance(stream, vf_io.File):
        stream._check()
        c = stream._data
        if isinstance(c, vf_io.Raw):
            c = c.text
        if not isinstance(c, str):
            return copy.deepcopy(c)
    vf.not_modelled("parsing of YAML text")


def safe_load(stream):
    return load(stream, SafeLoader)
