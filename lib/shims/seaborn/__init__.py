"""Recording stand-in for seaborn."""
from matplotlib import pyplot as _plt

CALLS = []


def _rec(name):
    def f(*a, **k):
        CALLS.append((name, a, k))
        ax = k.get('ax')
        if ax is not None and hasattr(ax, 'calls'):
            kk = {q: _plt._snap(v) for q, v in k.items() if q != 'ax'}
            ax.calls.append(('sns.' + name, _plt._snap(a), kk))
        return ax
    return f


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return _rec(name)
