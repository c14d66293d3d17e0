"""Multivariate features: per-channel distances summed over exactly the shapelet's channels."""
import copy

import numpy as np
from vlib import env, gen, judge, ref, work

ID = 'C02'
RULE = ('one evaluation = the three features of one (multivariate series, shapelet) pair compared with the definition, '
        'or of one series whose unused channels were replaced, or of one shapelet whose per-channel values are located on its '
        'channels; distinct = different (length, dilation, normalised, '
        'phase, channels, tie, boundary) situations')
BUDGET = {'quick': (2000, 40), 'thorough': (10000, 700)}
CHUNK = 2


def prepare(tier):
    env.setup()


def case(rng, tier, mon):
    force, fam = {}, None
    m = mon.idx % 5
    if m == 0:
        fam = str(rng.choice(['ties', 'ints', 'spikes', 'unique']))
        q = float(rng.choice([0, 50, 100]))
        force = dict(proba_norm=0.0, percentiles=[q, q])
    elif m == 1:
        force = dict(proba_norm=1.0, max_channels=work.DROP)
    elif m == 2:
        force = dict(max_channels=1)
    n_shp = int(rng.choice([1, 3, 8, 15, 25]))
    kind = 'mv' if mon.idx % 3 == 2 else 'm'
    kw = dict(family=fam, params=force, n_shp=n_shp, n_ft=int(rng.choice([2, 3, 4, 6, 9])))
    n_test, sc = 3, work.scaled(rng, mon, kind, 16)
    if sc:
        kw, n_test = sc[1], 140 if sc[0] == 'series' else 2
    w = work.build(rng, **dict(kw, kind=kind))
    T = work.test_series(rng, w, n_test)
    F = w.model.transform(T)
    mon.describe(kind=kind, n_train=w.n, n_channels=w.n_ft, n_timestamps=w.min_len, family=w.family, params=w.p,
                 shapelets=len(w.shp), channels=[s.channels for s in w.shp][:5])
    mon.count('shapelets', len(w.shp))
    mon.count('multi_channel_shapelets', sum(len(s.channels) > 1 for s in w.shp))
    work.judge_matrix(mon, w.model, w.shp, T, F, w.phase)
    mon.count('variable_length', kind == 'mv')
    # its own values on each channel: the channel's values stem from that channel of a training series
    for s in w.shp:
        for v, c in zip(s.values, s.channels):
            mon.check(channel_source(w.X, s, v, c, w.phase), 'own-values', 'the values shapelet %d pairs with channel %d '
                      'are no window of channel %d of a training series' % (s.i, c, c), values=v, channels=s.channels)
        mon.ev(('own', s.norm, tuple(s.channels)))
    # channels a shapelet does not use never influence it
    if w.shp:
        s = w.shp[int(rng.integers(0, len(w.shp)))]
        unused = [c for c in range(w.n_ft) if c not in s.channels]
        if unused:
            T2 = gen.copy_data(T)
            for x in T2:
                x[unused] = rng.normal(size=x[unused].shape) * 50
            F2 = w.model.transform(T2)
            a = slice(3 * s.i, 3 * s.i + 3)
            mon.check(np.array_equal(F[:, a], F2[:, a]), 'unused-channel',
                      'features of a shapelet on channels %s changed when channels %s changed' % (s.channels, unused),
                      before=F[:, a], after=F2[:, a])
            mon.count('unused_channel_checks')
            mon.ev(('unused', len(s.channels), len(unused)))


def channel_source(X, s, v, c, phase):
    one = copy.copy(s)
    one.values, one.channels = [v], [c]
    return bool(ref.sources(X, one, phase))
