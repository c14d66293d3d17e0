"""Variable-length features: true values only, and equal to each series transformed alone."""
import numpy as np
from vlib import env, gen, ref, work

ID = 'C03'
RULE = ('one evaluation = the three features of one (variable-length series, shapelet) pair compared with the '
        'definition on the true values, or one series compared between batches of different lengths; distinct = '
        'different (length, dilation, normalised, phase, window count, tie, channels) situations')
BUDGET = {'quick': (2000, 70), 'thorough': (10000, 700)}
CHUNK = 2


def prepare(tier):
    env.setup()


def case(rng, tier, mon):
    kind = ['uv', 'mv'][mon.idx % 2]
    force, fam = {}, None
    m = (mon.idx // 2) % 4
    if m == 0:
        # padding value zero must not be attractive: shifted exact data, equalities
        fam = str(rng.choice(['negint', 'unique', 'ties', 'spikes']))
        q = float(rng.choice([0, 50, 100]))
        force = dict(proba_norm=0.0, percentiles=[q, q])
    elif m == 1:
        force = dict(proba_norm=1.0)
    kw = dict(family=fam, params=force, n_shp=int(rng.choice([1, 4, 10, 20])),
              n_ts=int(rng.choice([4, 5, 8, 12, 17, 25, 40])))
    n_test, sc = 4, work.scaled(rng, mon, kind, 15)
    if sc:
        kw, n_test = sc[1], 140 if sc[0] == 'series' else 2
    w = work.build(rng, **dict(kw, kind=kind))
    T = work.test_series(rng, w, n_test)
    F = w.model.transform(T)
    mon.describe(kind=kind, lengths=w.lens, test_lengths=[t.shape[1] for t in T], family=w.family, params=w.p,
                 shapelets=len(w.shp))
    mon.count('shapelets', len(w.shp))
    mon.count('padded_series', sum(t.shape[1] < max(u.shape[1] for u in T) for t in T))
    work.judge_matrix(mon, w.model, w.shp, T, F, w.phase)
    # alone / other companions
    for i, t in list(enumerate(T))[::1 if len(T) < 9 else 9]:
        alone = w.model.transform([t])
        mon.check(np.array_equal(alone[0], F[i]), 'alone', 'series of length %d: features differ when transformed '
                  'alone' % t.shape[1], alone=alone[0], batch=F[i])
        mon.ev(('alone', t.shape[1], max(u.shape[1] for u in T) - t.shape[1]))
    long = np.stack([gen.series(rng, int(max(t.shape[1] for t in T) * 2 + 3), 'normal') for _ in range(w.n_ft)])
    G = w.model.transform(list(T) + [long * 100])
    mon.check(np.array_equal(G[:-1], F), 'companion', 'features changed when a longer series joined the batch',
              before=F, after=G[:-1])
    mon.count('companion_checks', len(T))
