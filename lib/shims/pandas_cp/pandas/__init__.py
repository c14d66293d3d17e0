"""Placeholder (this interpreter has no pandas): type names only."""


class DataFrame:
    def __init__(self, *a, **k):
        raise NotImplementedError('pandas stand-in')


class Series(DataFrame):
    pass
