"""Emulated runtime of the JIT: what the compiled functions may rely on.

The compiler itself is not installed here, so compiled functions run
interpreted.  This module supplies the parts of the runtime that are observable
at this level and that matter for the properties:

* one pseudo random generator per (operating system thread, worker) - seeding
  inside compiled code seeds only the generator of the worker that executes it;
* parallel regions: a prange loop of a function compiled with parallel=True is
  executed in a chosen order, with a chosen assignment of iterations to workers;
* an optional access monitor (vlib.race) told about region/iteration changes;
* a record of the compilation options of every compiled function.
"""
import threading
import itertools
import numpy as np

# real functions, kept before anything is patched
_REAL = {}
NAMES = ['seed', 'choice', 'uniform', 'random', 'rand', 'randn', 'randint',
         'random_sample', 'ranf', 'sample', 'normal', 'standard_normal', 'shuffle',
         'permutation', 'exponential', 'binomial', 'poisson', 'beta', 'gamma',
         'geometric', 'triangular', 'random_integers', 'multinomial', 'laplace',
         'logistic', 'lognormal', 'standard_exponential', 'weibull', 'power',
         'pareto', 'gumbel', 'bytes']


import os as _os


class Config:
    """Schedule and entropy of emulated threads; set by workloads."""
    def __init__(self):
        self.order = 'seq'        # seq | rev | perm
        self.assign = 'chunk'     # chunk | rr | perm   (iteration -> worker)
        self.sched_seed = 0
        self.entropy = 0          # what unseeded generators start from
        self.cpu = _os.cpu_count() or 1


cfg = Config()
dispatchers = []                  # every compiled function, in creation order
monitor = None                    # vlib.race.Monitor or None
on_region = None                  # callable(function name, threads, iterations) -> callable run at the end, or None
instrument = None                 # callable(py_func, options) -> callable or None
counters = {'calls': 0, 'regions': 0, 'iterations': 0, 'schedules': set(),
            'rng_draws': 0, 'seeds': 0}
num_threads = [_os.cpu_count() or 1]
_thread_ids = itertools.count()


class _TLS(threading.local):
    def __init__(self):
        self.stack = []
        self.regions = []         # active parallel regions (outermost first)
        self.worker = 0
        self.rngs = {}
        self.tid = next(_thread_ids)
        self.gen = -1
        self.num_threads = None


tls = _TLS()
_generation = [0]


def reset(entropy=0, order='seq', assign='chunk', sched_seed=0):
    """A fresh 'process': all per-worker generators forgotten."""
    cfg.entropy = entropy
    cfg.order = order
    cfg.assign = assign
    cfg.sched_seed = sched_seed
    _generation[0] += 1


def rng():
    if tls.gen != _generation[0]:
        tls.rngs = {}
        tls.gen = _generation[0]
    r = tls.rngs.get(tls.worker)
    if r is None:
        ss = np.random.SeedSequence([cfg.entropy, tls.tid, tls.worker, 77])
        r = tls.rngs[tls.worker] = np.random.RandomState(
            np.random.MT19937(ss))
    return r


def _make(name):
    real = _REAL[name]

    def f(*a, **k):
        if tls.stack:
            counters['rng_draws'] += 1
            r = rng()
            if name == 'seed':
                counters['seeds'] += 1
                return r.seed(int(a[0] if a else list(k.values())[0]) & 0xFFFFFFFF)
            g = getattr(r, name, None) or getattr(r, 'random_sample')
            return g(*a, **k)
        return real(*a, **k)
    f.__name__ = name
    return f


def install():
    for n in NAMES:
        if hasattr(np.random, n):
            _REAL[n] = getattr(np.random, n)
            setattr(np.random, n, _make(n))


class Region:
    __slots__ = ('shadow', 'it', 'names', 'keep', 'fn')

    def __init__(self, fn):
        self.shadow = {}
        self.names = {}
        self.it = None
        self.keep = []
        self.fn = fn


def effective_threads():
    n = tls.num_threads if tls.num_threads is not None else num_threads[0]
    return max(1, n)


def prange(*args):
    r = range(*args)
    st = tls.stack
    if not st or not st[-1][1]:
        return r
    # inside a prange of the same call: inner loops are serialised
    if st[-1][2]:
        return r
    if tls.regions and monitor is None:
        return r
    return _region(r, st[-1])


def _region(r, frame):
    frame[2] = True
    nested = bool(tls.regions)
    reg = Region(frame[0])
    tls.regions.append(reg)
    counters['regions'] += 1
    n = len(r)
    idx = list(range(n))
    w = effective_threads()
    rs = None
    if not nested:
        if cfg.order == 'rev':
            idx.reverse()
        elif cfg.order == 'perm':
            rs = np.random.RandomState(
                (cfg.sched_seed * 1000003 + counters['regions'] * 7919) & 0xFFFFFFFF)
            rs.shuffle(idx)
    if cfg.assign == 'chunk':
        asg = [(i * w) // max(1, n) for i in range(n)]
    elif cfg.assign == 'rr':
        asg = [i % w for i in range(n)]
    else:
        rs = rs or np.random.RandomState(
            (cfg.sched_seed * 1000003 + counters['regions'] * 7919) & 0xFFFFFFFF)
        asg = list(rs.randint(0, w, size=n))
    if n > 1:
        counters['schedules'].add(hash((tuple(idx), tuple(asg))))
    saved = tls.worker
    left = on_region(frame[0], w, n) if on_region is not None and not nested else None
    try:
        for i in idx:
            reg.it = i
            if not nested:
                tls.worker = asg[i]
            counters['iterations'] += 1
            yield r[i]
    finally:
        # a loop left by an exception was already cleaned up by the dispatcher
        if reg in tls.regions:
            tls.worker = saved
            tls.regions.remove(reg)
        reg.shadow = {}
        reg.keep = []
        frame[2] = False
        if left is not None:
            left()


class Dispatcher:
    def __init__(self, py_func, options):
        self.py_func = py_func
        self.targetoptions = dict(options)
        self.parallel = bool(options.get('parallel', False))
        self.__name__ = getattr(py_func, '__name__', 'f')
        self.__doc__ = py_func.__doc__
        self.__module__ = py_func.__module__
        self.__qualname__ = getattr(py_func, '__qualname__', self.__name__)
        self.__wrapped__ = py_func
        self._run = None
        self.signatures = []
        dispatchers.append(self)

    def _callable(self):
        f = None
        if instrument is not None:
            f = instrument(self.py_func, self.targetoptions)
        self._run = f or self.py_func
        return self._run

    def __call__(self, *a, **k):
        f = self._run or self._callable()
        st = tls.stack
        st.append([self.__name__, self.parallel, False])
        counters['calls'] += 1
        n0, w0 = len(tls.regions), tls.worker
        try:
            return f(*a, **k)
        finally:
            st.pop()
            if len(tls.regions) > n0:
                del tls.regions[n0:]
                tls.worker = w0

    def __get__(self, obj, typ=None):
        if obj is None:
            return self
        import types
        return types.MethodType(self, obj)

    def compile(self, *a, **k):
        return None

    def recompile(self):
        return None

    def __repr__(self):
        return 'CPUDispatcher(%r)' % (self.py_func,)


def set_num_threads(n):
    if isinstance(n, bool) or not isinstance(n, (int, np.integer)):
        raise TypeError('The number of threads specified must be an integer')
    if n < 1 or n > cfg.cpu:
        raise ValueError('The number of threads must be between 1 and %s' % cfg.cpu)
    tls.num_threads = int(n)


def get_num_threads():
    return effective_threads()
