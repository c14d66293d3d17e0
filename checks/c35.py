"""Controlled scheduler: several threads use estimators at once and hand over at chosen lines; results as when used alone."""
import copy
import os
import random
import sys
import threading
import numpy as np
from vlib import env, gen, nbrt
from vlib.runner import Skip

ID = 'C35'
RULE = ('one evaluation = one operation that ran while other threads ran theirs, compared with the same operation alone; '
        'distinct = (operation, kind, what ran beside it, handovers in it) situations; switches counts handovers between threads')
BUDGET = {'quick': (900, 90), 'thorough': (12000, 600)}
CHUNK = 2
ASSUMPTIONS = ['threads are switched between lines of the code of the repository, also inside compiled functions; the threading '
               'layer of the compiler must support concurrent callers', 'no estimator is fitted or changed while another thread uses it']


def prepare(tier):
    env.setup()


class Baton:
    """one thread runs at a time; at chosen lines it hands over to another"""
    def __init__(self, seed, n, p_host, p_kernel):
        self.rnd, self.cond, self.alive = random.Random(seed), threading.Condition(), set(range(n))
        self.holder, self.steps, self.switches, self.seized, self.ph, self.pk = 0, 0, 0, 0, p_host, p_kernel
        self.local, self.where, self.inside = threading.local(), set(), [0] * n
        self.hold, self.long = False, self.rnd.choice([0.0, 0.5, 0.9])
        self.root = os.path.join(os.path.realpath(env.REPO), 'convst')

    def wait(self, slot):
        with self.cond:
            while self.holder != slot:
                seen = self.steps
                if not self.cond.wait(0.4) and self.steps == seen:      # the other is blocked on something else
                    self.seized += 1
                    self.holder = slot

    def point(self, slot, frame):
        if self.holder != slot:
            self.wait(slot)
        self.steps += 1
        if not self.hold and self.rnd.random() < (self.pk if nbrt.tls.stack else self.ph):
            others = sorted(self.alive - {slot})
            if others:
                self.switches += 1
                self.inside[slot] += 1
                self.where.add((frame.f_code.co_name, frame.f_lineno))
                with self.cond:
                    self.holder = self.rnd.choice(others)
                    self.hold = self.rnd.random() < self.long
                    self.cond.notify_all()
                self.wait(slot)

    def done(self):
        """an operation ended: threads that were let run to its end may be stopped again"""
        self.hold = False

    def trace(self, slot):
        known = {}

        def line(frame, event, arg):
            if event == 'line':
                self.point(slot, frame)
            return line

        def call(frame, event, arg):
            f = frame.f_code.co_filename
            mine = known.get(f)
            if mine is None:
                mine = known[f] = os.path.realpath(f).startswith(self.root)
            return line if mine else None
        return call

    def run(self, slot, f):
        self.local.slot = slot
        self.wait(slot)
        sys.settrace(self.trace(slot))
        try:
            f()
        finally:
            sys.settrace(None)
            with self.cond:
                self.alive.discard(slot)
                self.hold = False
                self.steps += 1
                if self.alive:
                    self.holder = self.rnd.choice(sorted(self.alive))
                self.cond.notify_all()

    def inherit(self):
        """threads started by a call act for it"""
        slot = getattr(self.local, 'slot', None)
        if slot is None:
            return None

        def enter():
            self.local.slot = slot
            sys.settrace(self.trace(slot))
            return lambda: sys.settrace(None)
        return enter


def data(rng, n, kind, T, nft):
    X = gen.dataset(rng, kind, n, nft, T, str(rng.choice(['normal', 'ints', 'ties', 'walk'])))
    if all(np.ptp(np.asarray(x)) == 0 for x in X):
        raise Skip
    y = np.arange(n) % 2
    for i in range(n):
        if y[i]:
            np.asarray(X[i])[..., 2:5] += 3
    return X, y


def fields(o):
    return [np.array(a) for a in o.shapelets_]


def workload(rng, names):
    """(name, operation on given shared objects) and the shared objects themselves"""
    from convst.transformers import R_DST, _input_transformers as it
    from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
    from convst.utils.dataset_utils import z_norm_3D
    shared, ops = {}, []
    sizes = {k: [] for k in gen.KINDS}
    for i, nm in enumerate(names):
        what, kind, same = nm
        nft = int(rng.integers(1, 4)) if kind in ('m', 'mv') else 1
        T = int(rng.integers(9, 16))
        n = int(rng.integers(4, 7))
        seed = int(rng.integers(0, 3)) if rng.random() < .5 else int(rng.integers(0, 1 << 30))
        p = dict(shapelet_lengths=[[3], [3, 4], [2, 5]][int(rng.integers(0, 3))], phase_invariance=bool(rng.integers(0, 2)),
                 random_state=seed, prime_dilations=bool(rng.integers(0, 2)), n_jobs=int(rng.integers(1, 4)),
                 normalize_output=bool(rng.integers(0, 2)))
        k = int(rng.integers(3, 9))
        pt = dict(p, n_shapelets=k, alpha=float(rng.choice([0.0, 0.5])), proba_norm=float(rng.choice([0.0, 0.5, 1.0])))
        if rng.random() < .2:
            pt['n_samples'] = 0.7
        pe = dict(p, n_shapelets_per_estimator=k, input_transformers=[it.Raw(), it.Derivate()], proba_norm=[0.5, 0.5],
                  min_len=None)
        C = dict(rdst=R_DST, ridge=R_DST_Ridge, ensemble=R_DST_Ensemble)
        if what == 'input':
            t = [it.Raw(), it.Derivate(order=2), it.Periodigram(window_type='hann'), it.Periodigram()][int(rng.integers(0, 4))]
            X = data(rng, n, 'u', T, nft)[0]
            shared[i] = shared[same] if same is not None else t.fit(X)
            ops.append(lambda o, X=X: [np.asarray(o.transform(X))])
        elif what == 'znorm':
            X = data(rng, n, 'u', T, nft)[0]
            ops.append(lambda o, X=X: [np.asarray(z_norm_3D(X))])
        elif what == 'scale':
            X = rng.integers(0, 3, size=(n, 6)).astype(float)
            shared[i] = shared[same] if same is not None else it.c_StandardScaler().fit(X)
            X = X[:int(rng.integers(1, n + 1))]
            ops.append(lambda o, X=X: [np.asarray(o.transform(X))])
        else:
            base, act = what.split('-')
            X, y = data(rng, n, kind, T, nft)
            pp = pe if base == 'ensemble' else pt
            m0 = min(gen.true_lengths(X))
            if act == 'use':
                if same is not None and same in shared and type(shared[same]) is C[base] and shared[same]._kind == kind:
                    e = shared[same]
                else:
                    nbrt.reset(entropy=1)
                    e = C[base](**pp).fit(X, y)
                    e._kind, e._min, e._nft = kind, m0, nft
                shared[i] = e
                Tt = max(e._min, 5)
                nz = len(sizes[kind]) and rng.random() < .6 and sizes[kind][-1] or int(rng.integers(1, 6))
                sizes[kind].append(nz)
                Z = gen.dataset(rng, kind, nz, e._nft, Tt + (int(rng.integers(0, 4)) if kind in ('uv', 'mv') else 0), 'normal')
                if kind in ('uv', 'mv') and min(gen.true_lengths(Z)) < e._min:
                    Z = [np.concatenate([np.asarray(z, dtype=float)] * 3, axis=-1)[:, :Tt + j] for j, z in enumerate(Z)]
                if base == 'rdst':
                    ops.append(lambda o, Z=Z: [np.asarray(o.transform(Z))])
                else:
                    ops.append(lambda o, Z=Z: [np.asarray(o.predict(Z))] + ([np.asarray(o.transformer.transform(Z))]
                                                                           if hasattr(o, 'transformer') else []))
            else:
                def op(o, B=C[base], pp=pp, X=X, y=y, base=base):
                    e = B(**copy.deepcopy(pp)).fit(X, y)
                    out = [np.asarray(e.transform(X) if base == 'rdst' else e.predict(X))]
                    if base == 'rdst':
                        out += fields(e)
                    elif base == 'ridge':
                        out += fields(e.transformer)
                    return out
                ops.append(op)
    return shared, ops


WHAT = ['rdst-use'] * 5 + ['ridge-use'] * 3 + ['ensemble-use'] * 2 + ['rdst-fit'] * 4 + ['ridge-fit'] * 2 + ['ensemble-fit', 'input', 'input', 'znorm', 'scale']


def eq(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind == 'f') for x, y in zip(a, b))


SEEN, HOOKS = {}, {}


def which():
    for h in list(HOOKS.values()):
        e = h()
        if e is not None:
            return e


class Pause:
    """calls g in another thread before the k-th line of the host code of f; k = None: only lists the lines"""
    def __init__(self, f, g=None, k=None):
        self.f, self.g, self.k, self.n, self.places, self.hit = f, g, k, 0, [], None
        self.root = os.path.join(os.path.realpath(env.REPO), 'convst')

    def call(self, frame, event, arg):
        if self.hit or nbrt.tls.stack or not os.path.realpath(frame.f_code.co_filename).startswith(self.root):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line' and not self.hit:
            self.n += 1
            if self.k is None:
                self.places.append((frame.f_code.co_name, frame.f_lineno))
            elif self.n == self.k:
                self.hit = (frame.f_code.co_name, frame.f_lineno)
                self.g()
        return self.line

    def inherit(self):
        def enter():
            sys.settrace(self.call)
            return lambda: sys.settrace(None)
        return enter if threading.get_ident() in self.own else None

    def run(self):
        import joblib
        out, err, self.own = [], [], set()
        HOOKS[id(self)] = self.inherit

        def go():
            self.own.add(threading.get_ident())
            sys.settrace(self.call)
            try:
                out.append(self.f())
            except BaseException as e:  # noqa
                err.append(e)
            finally:
                sys.settrace(None)
        joblib.HOOK[0] = which
        t = threading.Thread(target=go, daemon=True)
        t.start()
        t.join(120)
        del HOOKS[id(self)]
        if not HOOKS:
            joblib.HOOK[0] = None
        if err:
            raise err[0]
        return out[0]


def interrupted(rng, mon):
    """one operation, stopped at a line of the host code while another one on the same object runs from start to end"""
    w = str(rng.choice(['rdst-use', 'ridge-use', 'ensemble-use', 'ensemble-use', 'input', 'scale', 'rdst-fit', 'rdst-fit', 'rdst-fit', 'ridge-fit', 'ensemble-fit']))
    k = str(rng.choice(gen.KINDS))
    if w.startswith('ensemble') or w in ('input', 'scale'):
        k = {'uv': 'u', 'mv': 'm'}.get(k, k)
    fit = w.endswith('fit')
    shared, ops = workload(rng, [(w, k, None), (w, k, None if fit else 0)])
    mon.describe(operations=[w, k], mode='interrupted')
    ent = int(rng.integers(0, 1 << 30))
    nbrt.reset(entropy=ent)
    fresh = lambda: {i: v for i, v in copy.deepcopy(shared).items()} if not fit else {}
    want = [op(fresh().get(i)) for i, op in enumerate(ops)]
    o = fresh()
    p = Pause(lambda: ops[0](o.get(0)))
    p.run()
    order = {}
    for n, pl in enumerate(p.places, 1):
        order.setdefault(pl, []).append(n)
    seen = SEEN.setdefault((w, k), {})
    todo = sorted(order, key=lambda pl: (seen.get(pl, 0), rng.random()))[:6 if w.startswith('ensemble') else 24 if w == 'rdst-fit' else 14]
    for pl in todo:
        seen[pl] = seen.get(pl, 0) + 1
        at = order[pl][int(rng.integers(0, len(order[pl])))]
        o = fresh() if rng.random() < .5 else o
        got, err, th, free, met = [], [], [], threading.Event(), threading.Event()
        # the other runs to its end, or stops a few lines further on until this one ended
        near = [n for n in range(at, min(at + (4 if rng.random() < .7 else 12), p.n + 1))] if rng.random() < .5 else []
        stop = int(near[int(rng.integers(0, len(near)))]) if near else None

        def g():
            def other():
                try:
                    f = lambda: ops[1](o.get(1))
                    got.append(f() if stop is None else Pause(f, lambda: (met.set(), free.wait(60)), stop).run())
                except BaseException as e:  # noqa
                    err.append(e)
                finally:
                    met.set()
            th.append(threading.Thread(target=other, daemon=True))
            th[0].start()
            met.wait(1)                 # it may wait for something this one holds
        q = Pause(lambda: ops[0](o.get(0)), g, at)
        try:
            a = q.run()
        finally:
            free.set()
            if th:
                th[0].join(120)
        if err:
            raise err[0]
        mon.check(eq(a, want[0]), w, '%s on %s data gives something else when another one runs at line %s of %s' % (w, k, pl[1], pl[0]))
        if q.hit:
            mon.check(bool(got), 'stuck', '%s does not end beside another one' % w)
            mon.check(eq(got[0], want[1]), w, '%s on %s data gives something else while another one stands at line %s of %s' % (w, k, pl[1], pl[0]))
            mon.count('interruptions')
            mon.ev(('interrupted' if stop is None else 'overlapped', w, k, pl))


def case(rng, tier, mon):
    import joblib
    if mon.idx % 2:
        return interrupted(rng, mon)
    n = int(rng.integers(2, 5))
    kind = str(rng.choice(gen.KINDS))
    names, firsts = [], {}
    lead = str(rng.choice(WHAT))
    for i in range(n * int(rng.integers(1, 3))):
        w = lead if rng.random() < .5 else str(rng.choice(WHAT))
        k = kind if rng.random() < .7 else str(rng.choice(gen.KINDS))
        if w.startswith('ensemble') or w in ('input', 'znorm', 'scale'):
            k = {'uv': 'u', 'mv': 'm'}.get(k, k)
        same = None
        if w.endswith('use') or w in ('input', 'scale'):
            same = firsts.setdefault((w, k), i)
            same = same if same != i and rng.random() < .8 else None
        names.append((w, k, same))
    shared, ops = workload(rng, names)
    alone = lambda: [op(copy.deepcopy(shared.get(i))) for i, op in enumerate(ops)]
    ent = int(rng.integers(0, 1 << 30))
    first = rng.random() < .5
    mon.describe(operations=[str(a) for a in names], threads=n)
    joblib.MODE[0] = str(rng.choice(['seq', 'rev', 'perm']))
    nbrt.reset(entropy=ent)
    if first:
        want = alone()
    got, err = [None] * len(ops), []
    hand = [0] * len(ops)
    b = Baton(int(rng.integers(0, 1 << 30)), n, float(rng.choice([0.5, 0.2, 0.05])), float(rng.choice([0.05, 0.01, 0.002, 0.0])))

    def work(slot):
        try:
            for i in range(slot, len(ops), n):
                h = b.inside[slot]
                got[i] = ops[i](shared.get(i))
                hand[i] = b.inside[slot] - h
                b.done()
        except BaseException as e:  # noqa
            err.append(e)
    joblib.HOOK[0] = b.inherit
    nbrt.reset(entropy=ent, order=str(rng.choice(['seq', 'rev', 'perm'])), assign=str(rng.choice(['chunk', 'rr', 'perm'])))
    try:
        th = [threading.Thread(target=b.run, args=(s, lambda s=s: work(s)), daemon=True) for s in range(n)]
        for t in th:
            t.start()
        for t in th:
            t.join(120)
    finally:
        joblib.HOOK[0] = None
        joblib.MODE[0] = 'seq'
    if err:
        raise err[0]
    mon.check(not any(t.is_alive() for t in th), 'stuck', 'operations that end when they run alone do not end side by side')
    nbrt.reset(entropy=ent + 1)
    if not first:
        want = alone()
    mon.count('switches', b.switches)
    mon.count('places', len(b.where))
    mon.count('seized', b.seized)
    for i, (a, c) in enumerate(zip(got, want)):
        mon.check(eq(a, c), names[i][0], '%s on %s data gives something else beside %s than alone' % (
            names[i][0], names[i][1], sorted(set(x[0] for j, x in enumerate(names) if j % n != i % n))))
        mon.ev((names[i][0], names[i][1], tuple(sorted(set(x[0] for j, x in enumerate(names) if j % n != i % n))), min(hand[i], 50)))
