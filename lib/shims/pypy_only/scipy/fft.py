"""Names only: nothing run with this interpreter uses them."""


def fht(*a, **k):
    raise NotImplementedError('fht')


def fhtoffset(*a, **k):
    raise NotImplementedError('fhtoffset')
