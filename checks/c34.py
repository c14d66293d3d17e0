"""Monitor of the threads in use: every parallel region reports how many threads it runs on, and who runs beside it."""
import copy
import os
import threading
import time
import numpy as np
from vlib import env, gen, nbrt
from c31 import pickled

ID = 'C34'
RULE = ('one evaluation = one operation (fit, transform, predict, score) of which every parallel region was judged; distinct = '
        '(estimator, operation, how its job count was set, job count, other job counts set before, own thread) situations')
BUDGET = {'quick': (600, 50), 'thorough': (12000, 600)}
CHUNK = 4
ASSUMPTIONS = ['numba\'s thread count is local to a thread and starts at the number of processors, as documented by numba; '
               'threads started inside numpy and scipy are not counted']
CPU = os.cpu_count() or 1


def prepare(tier):
    env.setup()


def resolve(n):
    return 1 if n is None else min(int(n), CPU) if n > 0 else max(1, CPU + 1 + int(n))


class Watch:
    """threads of the regions active at the same time"""
    def __init__(self, slow=0.0):
        self.regions, self.active, self.peak, self.lock, self.slow = [], {}, 0, threading.Lock(), slow
        self.loop = 0

    def __call__(self, fn, w, n):
        import joblib
        t = threading.get_ident()
        with self.lock:
            self.regions.append((fn, w, getattr(joblib.TLS, 'width', 1)))
            self.active[t] = w
            self.peak = max(self.peak, sum(self.active.values()))
        if self.slow:
            time.sleep(self.slow)

        def left():
            with self.lock:
                self.active.pop(t, None)
        return left


def on_thread(f):
    out = []

    def g():
        try:
            out.append((True, f()))
        except BaseException as e:  # noqa
            out.append((False, e))
    t = threading.Thread(target=g)
    t.start()
    t.join()
    ok, v = out[0]
    if not ok:
        raise v
    return v


def jobs(rng):
    return [None, 1, 1, 2, 3, CPU, -1, -2, -CPU, CPU + 5, np.int64(2)][int(rng.integers(0, 11))]


def case(rng, tier, mon):
    import joblib
    joblib.CPU[0] = CPU
    if mon.idx % 3 == 2:
        return ensemble(rng, mon)
    from convst.transformers import R_DST
    from convst.classifiers import R_DST_Ridge
    kind = str(rng.choice(gen.KINDS))
    X = gen.dataset(rng, kind, 6, 2 if kind in ('m', 'mv') else 1, 12, 'normal')
    y = np.arange(6) % 2
    T = X[:2]
    ests, tags, nj = [], [], []

    def new(v):
        C = [R_DST, R_DST_Ridge][int(rng.integers(0, 2))]
        p = dict(n_shapelets=int(rng.integers(2, 8)), shapelet_lengths=[3], random_state=int(rng.integers(0, 99)), alpha=0.0,
                 phase_invariance=bool(rng.integers(0, 2)), transform_type=str(rng.choice(['auto', gen.TYPE[kind]])))
        ests.append(C(n_jobs=v, **p))
        tags.append('constructor')
        nj.append(v)
    fitted, history = set(), []
    mon.describe(kind=kind, steps=history)
    try:
        for step in range(int(rng.integers(4, 10))):
            what = str(rng.choice(['new', 'set', 'clone', 'copy', 'fit', 'fit', 'use', 'use', 'use', 'foreign']))
            if not ests or what == 'new':
                new(jobs(rng))
                history.append(('new', type(ests[-1]).__name__, nj[-1]))
                continue
            i = int(rng.integers(0, len(ests)))
            e = ests[i]
            if what == 'set':
                v = jobs(rng)
                e.set_params(n_jobs=v)
                nj[i], tags[i] = v, 'set_params'
                history.append(('set', i, v))
                continue
            if what == 'clone':
                from sklearn.base import clone
                ests.append(clone(e))
                nj.append(nj[i])
                tags.append('clone')
                history.append(('clone', i))
                continue
            if what == 'copy':
                ests.append(pickled(e) if rng.random() < 0.5 else copy.deepcopy(e))
                nj.append(nj[i])
                tags.append('copy')
                if i in fitted:
                    fitted.add(len(ests) - 1)
                history.append(('copy', i))
                continue
            if what == 'foreign':
                from numba import set_num_threads
                v = int(rng.integers(1, CPU + 1))
                set_num_threads(v)
                history.append(('numba', v))
                continue
            w = Watch()
            if what == 'fit' or i not in fitted:
                f, op = (lambda: e.fit(X, y)), 'fit'
                fitted.add(i)
            elif isinstance(e, R_DST):
                f, op = (lambda: e.transform(T)), 'transform'
            else:
                op = str(rng.choice(['predict', 'score']))
                f = (lambda: e.predict(T)) if op == 'predict' else (lambda: e.score(T, y[:2]))
            own = rng.random() < 0.3
            history.append((op, i, own))
            nbrt.on_region = w
            try:
                on_thread(f) if own else f()
            finally:
                nbrt.on_region = None
            want = resolve(nj[i])
            for fn, k, width in w.regions:
                mon.check(k * width == want, 'threads', '%s of %s with n_jobs=%r (%s) runs %s on %d threads instead of %d' % (
                    op, type(e).__name__, nj[i], tags[i], fn, k * width, want), history=history)
            mon.count('regions', len(w.regions))
            if w.regions:
                mon.ev((type(e).__name__, op, tags[i], nj[i], sorted({resolve(v) for v in nj}), own))
    finally:
        nbrt.tls.num_threads = None


def ensemble(rng, mon):
    """members and their threads together stay within the number of jobs"""
    import joblib
    from convst.classifiers import R_DST_Ensemble
    from convst.transformers._input_transformers import Raw, Derivate, Periodigram
    kind = str(rng.choice(['u', 'm']))
    X = gen.dataset(rng, kind, 6, 2 if kind == 'm' else 1, 24, 'normal')
    y = np.arange(6) % 2
    v = jobs(rng)
    m = int(rng.integers(1, 5))
    tr = [[Raw, Derivate, Periodigram][int(rng.integers(0, 3))]() for _ in range(m)]
    p = dict(n_shapelets_per_estimator=int(rng.integers(2, 5)), shapelet_lengths=[3], random_state=0, shp_alpha=0.0,
             input_transformers=tr, proba_norm=[0.5] * m)
    k = int(rng.integers(0, 4))
    if k:
        p.update(prefer=[None, 'threads', 'processes'][k - 1], require=None)
    how = str(rng.choice(['constructor', 'set_params', 'late']))
    from numba import set_num_threads
    set_num_threads(int(rng.integers(1, CPU + 1)))
    e = R_DST_Ensemble(n_jobs=v if how == 'constructor' else jobs(rng), **p)
    if how == 'set_params':
        e.set_params(n_jobs=v)
    mode = str(rng.choice(['seq', 'rev', 'threads']))
    joblib.MODE[0] = mode
    mon.describe(kind=kind, members=m, n_jobs=v, how=how, mode=mode)
    try:
        for op in ('fit', 'predict', 'score', 'predict'):
            if how == 'late' and op == 'predict':
                v = jobs(rng)
                e.set_params(n_jobs=v)
            if how == 'late' and op == 'fit':
                v = e.n_jobs
            want = resolve(v)
            if rng.random() < 0.3:
                set_num_threads(int(rng.integers(1, CPU + 1)))
            w = Watch(0.002 if mode == 'threads' else 0)
            f = {'fit': lambda: e.fit(X, y), 'predict': lambda: e.predict(X), 'score': lambda: e.score(X, y)}[op]
            nbrt.on_region = w
            own = rng.random() < 0.3
            try:
                on_thread(f) if own else f()
            finally:
                nbrt.on_region = None
            for fn, t, width in w.regions:
                mon.check(t * width <= want, 'ensemble-threads', '%s with n_jobs=%r runs %d members beside each other, %s on %d '
                          'threads' % (op, v, width, fn, t), members=m, how=how)
                mon.check(2 * t * width > want or t * width >= m, 'ensemble-idle', '%s with n_jobs=%r and %d members uses only %d threads' % (
                    op, v, m, t * width), how=how)
            mon.check(w.peak <= want, 'ensemble-threads', '%s with n_jobs=%r: %d threads active' % (op, v, w.peak))
            mon.count('regions', len(w.regions))
            mon.count('peaks_seen', w.peak > 1)
            if w.regions:
                mon.ev(('ensemble', op, how, v, m, mode, own))
    finally:
        joblib.MODE[0] = 'seq'
        nbrt.tls.num_threads = None
