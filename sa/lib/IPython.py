"""Model of IPython outside a notebook."""


def get_ipython():
    return None
