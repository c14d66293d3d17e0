import copy
import numpy as np

FIGS = []
SAVED = []
SHOWN = [0]


def _snap(x):
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True)
    if isinstance(x, (list, tuple)):
        return type(x)(_snap(v) for v in x)
    if isinstance(x, dict):
        return {k: _snap(v) for k, v in x.items()}
    return x


class Recorder:
    """Any method call is recorded; unknown methods return a dummy artist."""
    def __init__(self):
        self.__dict__['calls'] = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a, **k):
            self.calls.append((name, _snap(a), _snap(k)))
            return Artist()
        return f

    def of(self, name):
        return [c for c in self.calls if c[0] == name]

    def __iter__(self):
        return iter(())


class Artist(Recorder):
    pass


class Axes(Recorder):
    def __init__(self):
        super().__init__()
        self.__dict__['transAxes'] = 'transAxes'
        self.__dict__['transData'] = 'transData'
        self.__dict__['drawn'] = []

    def plot(self, *a, **k):
        self.calls.append(('plot', _snap(a), _snap(k)))
        return [Artist()]

    def get_legend_handles_labels(self):
        return [], []


class Figure(Recorder):
    def __init__(self):
        super().__init__()
        self.__dict__['axes'] = []

    def add_axes(self, *a, **k):
        ax = Axes()
        self.axes.append(ax)
        self.calls.append(('add_axes', a, k))
        return ax

    def add_subplot(self, *a, **k):
        return self.add_axes(*a, **k)

    def gca(self):
        if not self.axes:
            self.add_axes()
        return self.axes[-1]

    def savefig(self, path=None, *a, **k):
        SAVED.append(path)

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        arr = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                arr[i, j] = Axes()
                self.axes.append(arr[i, j])
        if not squeeze:
            return arr
        if nrows * ncols == 1:
            return arr[0, 0]
        return arr.squeeze() if 1 in (nrows, ncols) else arr


def reset():
    del FIGS[:]
    del SAVED[:]
    SHOWN[0] = 0


def figure(*a, **k):
    f = Figure()
    f.calls.append(('figure', a, k))
    FIGS.append(f)
    return f


def gcf():
    return FIGS[-1] if FIGS else figure()


def gca():
    return gcf().gca()


def subplots(nrows=1, ncols=1, sharex=False, sharey=False, squeeze=True, **k):
    if int(nrows) != nrows or int(ncols) != ncols or nrows < 1 or ncols < 1:
        raise ValueError('Number of rows and columns must be positive integers')
    f = figure()
    f.calls.append(('subplots', (nrows, ncols), k))
    return f, f.subplots(int(nrows), int(ncols), squeeze=squeeze)


def sca(ax):
    pass


def close(*a, **k):
    pass


def show(*a, **k):
    SHOWN[0] += 1


def savefig(path=None, *a, **k):
    SAVED.append(path)


def title(*a, **k):
    gca().calls.append(('set_title', _snap(a), _snap(k)))


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)

    def f(*a, **k):
        return getattr(gca(), name)(*a, **k)
    return f
