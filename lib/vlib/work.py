"""Fitting workloads shared by the checks."""
import numpy as np
from . import gen, nbrt, ref


class W:
    pass


def new_model(params, **over):
    from convst.transformers import R_DST
    p = dict(params)
    p.update(over)
    for k in ('shapelet_lengths', 'percentiles', 'shapelet_lengths_bounds'):
        if p.get(k) is not None:
            p[k] = list(p[k])
    return R_DST(**p)


def build(rng, kind=None, n=None, n_ft=None, n_ts=None, family=None, layout=None, n_shp=None, big=False,
          params=None, y=None, fit=True, sched=True, **force):
    """One training set with random admissible parameters, fitted."""
    w = W()
    w.kind = kind or str(rng.choice(gen.KINDS))
    sn, sf, st = gen.shape(rng, w.kind, big)
    w.n, w.n_ft, w.n_ts = n or sn, n_ft or sf, n_ts or st
    if w.kind in ('u', 'uv'):
        w.n_ft = 1
    w.family = family or str(rng.choice(gen.FAMILIES))
    w.X = gen.dataset(rng, w.kind, w.n, w.n_ft, w.n_ts, w.family)
    w.lens = gen.true_lengths(w.X)
    w.min_len = min(w.lens)
    w.y = gen.labels(rng, w.n, layout) if y is None else np.asarray(y)
    w.p = gen.rdst_params(rng, w.min_len, w.n_ft, w.kind, n_shp)
    if params:
        w.p.update(params)
    w.p.update(force)
    for k in [k for k, v in w.p.items() if v is DROP]:
        del w.p[k]
    w.phase = w.p['phase_invariance']
    if sched:
        nbrt.reset(entropy=int(rng.integers(0, 1 << 30)), order=str(rng.choice(['seq', 'rev', 'perm'])),
                   assign=str(rng.choice(['chunk', 'rr', 'perm'])), sched_seed=int(rng.integers(0, 1 << 30)))
    w.model = None
    if fit:
        w.model = new_model(w.p).fit(w.X, w.y)
        w.shp = ref.shapelets(w.model)
    return w


DROP = object()


def scale(rng, kind, only=None):
    """Sizes beyond what narrow integers, fixed blocks or small buffers hold; keyword arguments for build."""
    name = str(rng.choice(only or (['shapelets', 'long', 'dilation', 'series', 'classes', 'timestamps'] + (
        ['channels'] * 2 if kind in ('m', 'mv') else []))))
    vl = kind in ('uv', 'mv')
    p = dict(shapelet_lengths_bounds=DROP, n_shapelets=4)
    kw = dict(kind=kind, params=p, family=str(rng.choice(['normal', 'unique', 'walk'])), n_ft=2 if kind in ('m', 'mv') else 1)
    if name == 'shapelets':
        kw.update(n=4, n_ts=int(rng.integers(8, 14)))
        p.update(n_shapelets=int(rng.choice([130, 200, 260, 300, 600, 1100])), shapelet_lengths=[int(rng.integers(2, 5))], alpha=0.0)
    elif name == 'long':
        kw.update(n=2, n_ts=int(rng.integers(140, 300)))
        p.update(n_shapelets=2, shapelet_lengths=[int(rng.integers(128, kw['n_ts'] + 1))], alpha=0.0)
    elif name == 'dilation':
        kw.update(n=2, n_ts=int(rng.integers(300, 800)))
        p.update(n_shapelets=8, shapelet_lengths=[2], alpha=0.0, prime_dilations=bool(rng.random() < 0.2))
    elif name in ('series', 'classes'):
        n = int(rng.choice([130, 150, 270]))
        kw.update(n=n, n_ts=int(rng.integers(5, 9)), y=rng.permutation(np.arange(n) // 2) if name == 'classes' else None)
        p.update(n_shapelets=6, shapelet_lengths=[int(rng.integers(2, 4))])
    elif name == 'timestamps':
        kw.update(n=2, n_ts=int(rng.choice([1100, 4200, 33000], p=[0.5, 0.4, 0.1])))
        p.update(n_shapelets=1 if kw['n_ts'] > 5000 else 2, shapelet_lengths=[int(rng.integers(2, 5))], alpha=0.0)
    else:
        kw.update(n=3, n_ft=int(rng.choice([130, 140, 260])), n_ts=int(rng.integers(5, 9)))
        p.update(n_shapelets=5, shapelet_lengths=[3])
        if rng.random() < 0.3:
            p['max_channels'] = DROP
    if vl and name == 'timestamps':
        kw['n_ts'] //= 2
    return name, kw


def scaled(rng, mon, kind, every, only=None, at=7):
    """Every so many cases (None otherwise) the sizes of such a case."""
    if mon.idx % every != at % every:
        return None
    name, kw = scale(rng, kind, only)
    mon.count('large_' + name)
    return name, kw


def test_series(rng, w, n=4, extra=1.5):
    """Series to transform: fresh ones, training ones, other families, (variable) other lengths."""
    out = []
    other = None
    if w.kind in ('u', 'm') and getattr(w, 'shp', None) and w.min_len < 400 and rng.random() < 0.15:
        # a batch of another length than in training, long enough for every shapelet
        other = int(rng.integers(max(4, max((s.L - 1) * s.d + 1 for s in w.shp)), int(w.min_len * 1.5) + 3))
    for _ in range(n):
        m = rng.random()
        if other:
            out.append(np.stack([gen.series(rng, other, w.family if m < 0.7 else 'mixed') for _ in range(w.n_ft)]))
            continue
        if m < 0.35:
            out.append(np.array(w.X[int(rng.integers(0, len(w.X)))]))
            continue
        T = w.lens[0]
        if w.kind in ('uv', 'mv'):
            T = int(rng.integers(w.min_len, int(max(w.lens) * extra) + 2))
        fam = w.family if m < 0.75 else str(rng.choice(gen.FAMILIES))
        out.append(np.stack([gen.series(rng, T, fam) for _ in range(w.n_ft)]))
    return out if w.kind in ('uv', 'mv') else np.stack(out)


def sig(w):
    return (w.kind, w.family, w.phase, w.n, w.n_ft, w.min_len)


def judge_matrix(mon, model, shp, series_list, F, phase, tag='', scale=None):
    """Judge the whole feature matrix; returns nothing, raises on violation."""
    F = np.asarray(F)
    mon.check(F.shape == (len(series_list), 3 * len(shp)), tag + 'shape',
              'feature matrix of shape %s for %d series and %d shapelets' % (F.shape, len(series_list), len(shp)))
    for i, x in enumerate(series_list):
        for s in shp:
            sg = ref.judge_features(mon, x, s, phase, F[i, 3 * s.i:3 * s.i + 3], tag,
                                    scale=1.0 if scale is None else scale[i])
            mon.ev(sg)
