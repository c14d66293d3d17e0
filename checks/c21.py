"""Monitor of the dataset loaders over generated archives."""
import numpy as np
from vlib import env, gen

ID = 'C21'
RULE = ('one evaluation = one loaded dataset compared with the archive content; distinct = (loader, kind, label type, '
        'normalised, class layout, dtype)')
BUDGET = {'quick': (12000, 45), 'thorough': (30000, 780)}
CHUNK = 10
ASSUMPTIONS = ['the archive reader is replaced by one that serves generated datasets; labels of the test part all occur '
               'in the training part']


def prepare(tier):
    env.setup()


def znorm(x):
    x = np.asarray(x, float)
    out = np.empty_like(x)
    for c in range(len(x)):
        m, s = x[c].mean(), x[c].std()
        out[c] = (x[c] - m) / (s + 1e-8)
    return out


def case(rng, tier, mon):
    from aeon import datasets
    from convst.utils import dataset_utils as du
    if mon.idx % 50 == 0:
        return names(mon, du)
    var = mon.idx % 3 == 2
    nft = int(rng.integers(1, 5))
    T = int(rng.integers(2, 20))
    fam = str(rng.choice(gen.FAMILIES))
    dt = 'float64' if rng.random() < .8 else 'float32'
    k = int(rng.integers(2, 5))
    lab_kind = str(rng.choice(['words', 'digits', 'negative', 'sparse', 'signed-text', 'single']))
    pool = {'words': ['walk', 'Run', 'a b', 'zz', '0x'], 'digits': ['1', '2', '3', '10', '9'], 'negative': [-1, 1, 7, 3, 12],
            'sparse': [100, 5, 42, 7, 0], 'signed-text': ['-1', '1', '+2', '-10', '3.0'], 'single': ['only'] * 5}[lab_kind]
    pool = [pool[i] for i in rng.permutation(5)[:k]]

    def part(n):
        return [np.stack([gen.series(rng, t, fam) for _ in range(nft)]).astype(dt)
                for t in rng.integers(T, T + 9, size=n)]
    ntr, nte = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    if var:
        Xa, Xb = part(ntr), part(nte)
    else:
        Xa = np.stack([np.stack([gen.series(rng, T, fam) for _ in range(nft)]) for _ in range(ntr)]).astype(dt)
        Xb = np.stack([np.stack([gen.series(rng, T, fam) for _ in range(nft)]) for _ in range(nte)]).astype(dt)
    ya = np.array([pool[i] for i in rng.integers(0, k, size=ntr)])
    yb = np.array([ya[i] for i in rng.integers(0, ntr, size=nte)])
    datasets.DATA.clear()
    datasets.DATA['Some'] = dict(train=(Xa, ya), test=(Xb, yb))
    datasets.DATA['Other'] = dict(train=(Xb, yb), test=(Xa, ya))
    norm = bool(rng.integers(0, 2))
    mon.describe(variable=var, channels=nft, train=ntr, test=nte, labels=lab_kind, normalize=norm, family=fam, dtype=dt)
    cls = sorted(set(ya.tolist()))
    enc = {c: i for i, c in enumerate(cls)}
    ea, eb = [enc[c] for c in ya.tolist()], [enc[c] for c in yb.tolist()]

    def judge(X, want, what):
        mon.check(len(X) == len(want), what + '-count', '%d series, expected %d' % (len(X), len(want)))
        for i, (x, w) in enumerate(zip(X, want)):
            x = np.asarray(x)
            mon.check(x.shape == w.shape, what + '-shape', 'series %d has shape %s, expected %s' % (i, x.shape, w.shape))
            if not norm:
                mon.check(np.array_equal(x, w), what + '-values', 'series %d of the %s part differs from the archive' % (i, what))
            else:
                e = znorm(w)
                eps = 1e-15 if dt == 'float64' else 1e-6
                sd = w.astype(float).std(axis=1, keepdims=True)
                amp = np.abs(w.astype(float)).max(axis=1, keepdims=True)
                ok = np.abs(x - e) <= 1e-9 + (1e-3 if dt == 'float32' else 0) + 100 * eps * (amp + 1) / (sd + 1e-8) * (1 + np.abs(e)) * 10
                mon.check(ok.all(), what + '-normalised', 'series %d of the %s part is not the z-normalised one' % (i, what),
                          got=x, expected=e)
                mon.count('channels_normalised', len(x))
                mon.count('constant_channels', int((sd == 0).sum()))
        mon.ev((what, var, nft == 1, lab_kind, norm, dt, fam))
        mon.count('series', len(X))

    args = ('Some', norm) if rng.random() < .5 else ('Some',)
    kw = {} if len(args) == 2 else dict(normalize=norm)
    if not norm and rng.random() < .5:
        args, kw = ('Some',), {}
    A, B, a, b, ml = du.load_UCR_UEA_dataset_split(*args, **kw)
    judge(A, list(Xa), 'train')
    judge(B, list(Xb), 'test')
    mon.check([int(v) for v in a] == ea and [int(v) for v in b] == eb, 'labels', 'labels %s / %s, expected %s / %s' % (
        a, b, ea, eb), original=(ya, yb))
    lens = [x.shape[1] for x in list(Xa) + list(Xb)]
    mon.check(int(ml) == min(lens), 'min-length', 'shortest length %r, expected %d' % (ml, min(lens)), train=lens[:ntr], test=lens[ntr:])
    P, y = du.load_UCR_UEA_dataset('Some', normalize=norm) if norm or rng.random() < .5 else du.load_UCR_UEA_dataset('Some')
    judge(P, list(Xa) + list(Xb), 'pooled')
    mon.check([int(v) for v in y] == ea + eb, 'labels', 'pooled labels %s, expected %s' % (y, ea + eb))
    mon.check(isinstance(P, list) == var, 'container', 'pooled data of type %s' % type(P).__name__)
    # loading is repeatable and independent of what was loaded before
    du.load_UCR_UEA_dataset_split('Other') if set(yb.tolist()) == set(ya.tolist()) else None
    A2, B2, a2, b2, ml2 = du.load_UCR_UEA_dataset_split('Some', normalize=norm)
    judge(A2, list(Xa), 'train')
    mon.check(np.array_equal(a, a2) and np.array_equal(b, b2) and ml == ml2, 'repeat', 'a second load differs')
    mon.count('datasets')


def names(mon, du):
    fs = [n for n in ('return_all_univariate_dataset_names', 'return_all_multivariate_dataset_names',
                      'return_all_variable_univariate_dataset_names', 'return_all_variable_multivariate_dataset_names')]
    lists = {n: [str(v) for v in getattr(du, n)()] for n in fs}
    for n, l in lists.items():
        mon.check(len(l) == len(set(l)), 'names-duplicate', '%s holds duplicates: %s' % (n, sorted(v for v in set(l) if l.count(v) > 1)))
        for m, k in lists.items():
            if n < m:
                mon.check(not set(l) & set(k), 'names-overlap', '%s and %s share %s' % (n, m, sorted(set(l) & set(k))))
    allv = [str(v) for v in du.return_all_dataset_names()]
    mon.check(sorted(allv) == sorted(v for l in lists.values() for v in l), 'names-all', 'the complete list is not the union')
    mon.check(len(lists[fs[0]]) == 112, 'names-count', '%d univariate names, 112 documented' % len(lists[fs[0]]))
    mon.ev(('names',))
    mon.count('names', len(allv))
