"""Recording stand-in for matplotlib."""
rcParams = {}


def use(*a, **k):
    pass


from . import pyplot  # noqa
