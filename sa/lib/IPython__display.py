"""Model of IPython.display: nothing is shown."""


def display(*objs, **kw):
    return None
