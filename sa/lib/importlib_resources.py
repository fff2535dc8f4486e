"""Model of importlib_resources: packages map to directories."""
from pathlib import Path


def files(package):
    return Path("/pkg/" + package.replace(".", "/"))
