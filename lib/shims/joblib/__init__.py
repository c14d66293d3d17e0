"""Stand-in for joblib: every task runs on its own thread, in a chosen order.

MODE 'seq'/'rev'/'perm' runs tasks one at a time in that order (each on a fresh
thread, so thread-local state behaves as with real workers); 'threads' runs
them concurrently.
"""
import threading
import random as _random

MODE = ['seq']
SEED = [0]
TLS = threading.local()             # concurrency of the calls a worker is part of
HOOK = [None]                       # called in the caller: gives what a task's thread runs first, giving what it runs last
CPU = [8]
LOG = {'calls': 0, 'tasks': 0, 'orders': set()}


def cpu_count(*a, **k):
    return 8


def effective_n_jobs(n=-1):
    return 8 + 1 + n if n < 0 else n


def delayed(function):
    def d(*a, **k):
        return function, a, k
    return d


class Parallel:
    def __init__(self, n_jobs=None, backend=None, verbose=0, timeout=None, pre_dispatch='2 * n_jobs',
                 batch_size='auto', temp_folder=None, max_nbytes='1M', mmap_mode='r', prefer=None,
                 require=None, **k):
        if prefer not in (None, 'threads', 'processes'):
            raise ValueError("prefer=%s is not a valid backend hint" % prefer)
        if require not in (None, 'sharedmem'):
            raise ValueError("require=%s is not a valid backend constraint" % require)
        if n_jobs == 0:
            raise ValueError('n_jobs == 0 in Parallel has no meaning')
        self.n_jobs = n_jobs
        self.require = require

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __call__(self, iterable):
        tasks = list(iterable)
        n = len(tasks)
        LOG['calls'] += 1
        LOG['tasks'] += n
        out = [None] * n
        err = [None] * n

        limit = 1 if self.n_jobs is None else self.n_jobs if self.n_jobs > 0 else max(1, CPU[0] + 1 + self.n_jobs)
        width = getattr(TLS, 'width', 1) * max(1, min(n, limit))
        slots = threading.Semaphore(limit)
        enter = HOOK[0]() if HOOK[0] is not None else None
        caller = threading.get_ident()

        def run(i):
            f, a, k = tasks[i]
            before = getattr(TLS, 'width', 1)
            TLS.width = width
            leave = enter() if enter is not None and threading.get_ident() != caller else None
            try:
                with slots:
                    run_task(i, f, a, k)
            finally:
                if leave is not None:
                    leave()
                TLS.width = before

        def run_task(i, f, a, k):
            try:
                out[i] = f(*a, **k)
            except BaseException as e:  # noqa
                err[i] = e
        order = list(range(n))
        if MODE[0] == 'rev':
            order.reverse()
        elif MODE[0] == 'perm':
            _random.Random(SEED[0] * 7 + n).shuffle(order)
        LOG['orders'].add((MODE[0], tuple(order)))
        if self.n_jobs in (None, 1) and MODE[0] != 'threads':
            order = list(range(n))      # sequential backend runs in the caller
            for i in order:
                run(i)
                if err[i] is not None:
                    raise err[i]
            return out
        ths = [threading.Thread(target=run, args=(i,)) for i in order]
        if MODE[0] == 'threads' and self.n_jobs not in (None, 1):
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        else:
            for t in ths:
                t.start()
                t.join()
        for e in err:
            if e is not None:
                raise e
        return out
