"""Provenance monitor: every fitted shapelet is located in the training data."""
import numpy as np
from vlib import env, gen, ref, work, judge

ID = 'C07'
RULE = ('one evaluation = one fitted shapelet located among all windows of all training series; distinct = (kind, '
        'length, dilation, normalised, phase, channels, wraps, source at the boundary)')
BUDGET = {'quick': (3000, 40), 'thorough': (50000, 700)}
CHUNK = 5
ASSUMPTIONS = ['normalised values are compared with a tolerance of 1e-7, raw values exactly']


def prepare(tier):
    env.setup()


def case(rng, tier, mon):
    kind = gen.KINDS[mon.idx % 4]
    fam = str(rng.choice(['normal', 'unique', 'walk', 'unique', 'offset', 'sine', 'spikes', 'ints', 'const', 'negint']))
    params = {}
    if mon.idx % 3 == 0:
        params['phase_invariance'] = True
    kw = dict(family=fam, params=params, n_shp=int(rng.choice([5, 15, 40])))
    sc = work.scaled(rng, mon, kind, 15)
    if sc:
        kw, fam = sc[1], sc[1]['family']
    w = work.build(rng, **dict(kw, kind=kind))
    srcs = judge.provenance(mon, w.X, w.shp, w.phase)
    for s in w.shp:
        i, k = srcs[s.i][0]
        T = w.X[i].shape[1]
        wraps = k + (s.L - 1) * s.d >= T
        mon.count('wrapping', wraps and len(srcs[s.i]) == 1)
        mon.count('unique_source', len(srcs[s.i]) == 1)
        mon.count('ends_at_last_timestamp', k + (s.L - 1) * s.d == T - 1)
        mon.count('multi_channel', len(s.channels) > 1)
        mon.ev((kind, s.L, s.d, s.norm, w.phase, len(s.channels), wraps, k == 0))
    mon.count('shapelets', len(w.shp))
    mon.describe(kind=kind, lengths=w.lens[:6], family=fam, params=w.p, sources=[srcs[s.i][:2] for s in w.shp][:5])
