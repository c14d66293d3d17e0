"""Unusable data: fit, transform and predict must refuse it; usable boundary data must still be computed."""
import traceback
import os

import numpy as np
from vlib import env, gen, nbrt, ref, work

ID = 'C30'
RULE = ('one evaluation = one call with unusable data observed to raise (from checked code, not from an access outside of '
        'an array inside a kernel), or one call with just usable data observed to compute; distinct = (what is wrong, '
        'estimator, kind, phase, size of the fault)')
BUDGET = {'quick': (1400, 100), 'thorough': (20000, 600)}
CHUNK = 4
ASSUMPTIONS = ['an IndexError raised inside a compiled kernel is no refusal: the compiled kernel would read outside of the array']


def prepare(tier):
    env.setup()


def attempt(f):
    """None when the call was refused, otherwise what it did."""
    try:
        r = f()
    except Exception as e:
        if isinstance(e, (IndexError, ZeroDivisionError)):
            codes = {d.py_func.__code__ for d in nbrt.dispatchers}
            for fr, _ in traceback.walk_tb(e.__traceback__):
                if fr.f_code in codes:
                    return 'accessed memory outside of an array in %s: %s' % (fr.f_code.co_name, e)
        return None
    return 'returned %s of shape %s' % (type(r).__name__, np.shape(r))


def batch(rng, kind, n, n_ft, lens):
    L = [int(v) for v in rng.choice(lens, size=n)] if kind in ('uv', 'mv') else [int(lens[0])] * n
    X = [rng.normal(size=(n_ft, l)) for l in L]
    return X if kind in ('uv', 'mv') else np.stack(X)


def case(rng, tier, mon):
    from sklearn.exceptions import NotFittedError
    from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
    from convst.transformers import R_DST
    kind = gen.KINDS[mon.idx % 4]
    est = ['transformer', 'transformer', 'ridge', 'ensemble'][(mon.idx // 4) % 4]
    vl = kind in ('uv', 'mv')
    if est == 'ensemble' and vl:
        est = 'ridge'
    n_ft = 1 if kind in ('u', 'uv') else int(rng.integers(2, 6))
    n = int(rng.integers(6, 14))
    y = rng.permutation(np.arange(n) % int(rng.integers(2, 4)))
    T = int(rng.integers(16, 40))
    X = batch(rng, kind, n, n_ft, [T, T + 5, T + 9])
    phase = bool(rng.integers(0, 2))
    p = dict(shapelet_lengths=[int(rng.integers(2, 8))], random_state=int(rng.integers(0, 1 << 30)), phase_invariance=phase,
             n_jobs=int(rng.choice([1, 3])))
    nbrt.reset(entropy=int(rng.integers(0, 1 << 30)), sched_seed=mon.idx)

    def new():
        if est == 'transformer':
            return R_DST(n_shapelets=int(rng.integers(4, 25)), **p)
        if est == 'ridge':
            return R_DST_Ridge(n_shapelets=int(rng.integers(10, 25)), **p)
        return R_DST_Ensemble(n_shapelets_per_estimator=int(rng.integers(10, 20)), **p)

    def use(m, Z):
        return m.transform(Z) if est == 'transformer' else m.predict(Z)

    def refuse(what, f, size=0, allowed=Exception):
        got = attempt(f)
        mon.check(got is None, what, '%s: expected a refusal, the call %s' % (what, got), estimator=est, kind=kind,
                  n_channels=n_ft, length=T, params=p)
        mon.ev((what, est, kind, phase, size))
        mon.count('refused_' + what)

    # before fit
    m = new()
    for call in (lambda: use(m, X),) + ((lambda: m.score(X, y),) if est != 'transformer' else ()):
        try:
            r = call()
        except (NotFittedError, ValueError, AttributeError):
            mon.ev(('unfitted', est, kind))
            mon.count('refused_unfitted')
        else:
            mon.fail('unfitted', 'an unfitted %s computed %r' % (est, r))
    # labels
    for k in ([1, -1, n, -n] if est == 'transformer' else [1, -1]):
        yy = np.concatenate([y, y])[:n + k] if k > 0 else y[:n + k]
        if k == 1 and rng.random() < 0.5:
            yy = np.concatenate([y, [99]])
        refuse('labels', lambda: new().fit(X, yy), k)
    # training series that are no batch of series
    refuse('no-series', lambda: new().fit(X[:0], y[:0]))
    refuse('flat', lambda: new().fit(np.asarray(X[0])[0], y[:1]))
    if not vl:
        refuse('flat', lambda: new().fit(X[:, 0], y))
        refuse('flat', lambda: new().fit(X[None], y))
    bad = [np.array(x) for x in X]
    j = int(rng.integers(1, n))
    bad[j] = np.vstack([bad[j], bad[j][:1]]) if n_ft == 1 or rng.random() < 0.5 else bad[j][:-1]
    refuse('mixed-channels', lambda: new().fit(bad, y))
    tiny = batch(rng, kind, n, n_ft, [2])
    refuse('two-timestamps', lambda: new().fit(tiny, y))
    # fitted
    m = new().fit(X, y)
    ok = X[:3]
    F = use(m, ok)
    for c in sorted({n_ft + 1, n_ft + 3, n_ft - 1, 1, n_ft * 2} - {n_ft, 0}):
        Z = batch(rng, kind, 3, c, [T, T + 2])
        refuse('channels', lambda: use(m, Z), c - n_ft)
    refuse('no-series', lambda: use(m, X[:0]))
    refuse('flat', lambda: use(m, np.asarray(X[0])[0]))
    if not vl:
        refuse('flat', lambda: use(m, X[:, 0]))
    else:
        refuse('mixed-channels', lambda: use(m, bad))
    if est == 'transformer':
        shp = ref.shapelets(m)
        span = max([(s.L - 1) * s.d + 1 for s in shp] + [0])
        if shp and not phase:
            for t in {span - 1, span - 2, int(rng.integers(1, span))}:
                if t < 1:
                    continue
                Z = batch(rng, kind, 3, n_ft, [t])
                refuse('short', lambda: use(m, Z), span - t)
                if vl:
                    Z = batch(rng, kind, 4, n_ft, [span, T + 20])
                    Z[int(rng.integers(0, 4))] = rng.normal(size=(n_ft, t))
                    refuse('short', lambda: use(m, Z), span - t)
        # just usable
        for t in {max(span, 3), T + span, max(3, T - 1) if phase else max(span, T)}:
            Z = batch(rng, kind, 3, n_ft, [t])
            G = m.transform(Z)
            work.judge_matrix(mon, m, shp, Z, G, phase, tag='usable-')
            mon.count('usable_batches')
    # a refused call leaves the fitted estimator as it was
    mon.check(np.array_equal(F, use(m, ok)), 'state', 'refused calls changed what the fitted estimator computes')
    mon.describe(estimator=est, kind=kind, n=n, channels=n_ft, length=T, params=p)
