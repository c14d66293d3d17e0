"""Reproducibility monitor: executions with the same random state are compared value by value."""
import random
import numpy as np
from vlib import env, gen, ref, work, nbrt
from vlib.runner import Skip

ID = 'C12'
RULE = ('one evaluation = one repeated fit compared with the reference execution (or two seeds told apart); distinct = '
        '(estimator, kind, what was perturbed, subsampling, number of shapelets bucket)')
BUDGET = {'quick': (320, 90), 'thorough': (8000, 780)}
CHUNK = 2
ASSUMPTIONS = ['every thread of the emulated runtime has its own generator whose initial state is arbitrary, as for '
               'compiled code; a perturbation changes these states, the execution order, the worker of each iteration, '
               'the number of threads, the global numpy and python generators and the job scheduler']


def prepare(tier):
    env.setup()


def perturb(rng, what):
    import joblib
    if what in ('generators', 'all'):
        np.random.seed(int(rng.integers(0, 1 << 30)))
        np.random.rand(int(rng.integers(0, 5)))
        random.seed(int(rng.integers(0, 1 << 30)))
    o, a = 'seq', 'chunk'
    if what in ('schedule', 'all', 'threads'):
        o, a = str(rng.choice(['seq', 'rev', 'perm'])), str(rng.choice(['chunk', 'rr', 'perm']))
        joblib.MODE[0] = str(rng.choice(['seq', 'rev', 'perm', 'threads']))
        joblib.SEED[0] = int(rng.integers(0, 1000))
    else:
        joblib.MODE[0] = 'seq'
    ent = int(rng.integers(0, 1 << 30)) if what != 'schedule' else 5
    nbrt.reset(entropy=ent, order=o, assign=a, sched_seed=int(rng.integers(0, 1 << 30)))


def case(rng, tier, mon):
    est = ['rdst', 'rdst', 'ridge', 'rdst', 'ensemble', 'rdst-sub', 'ridge-sub', 'rdst'][mon.idx % 8]
    kind = gen.KINDS[(mon.idx // 8) % 4]
    sub = float(rng.choice([0.5, 0.7, 1.5])) if est.endswith('sub') else None
    base = est.split('-')[0]
    seed = int(rng.choice([0, 1, 42, int(rng.integers(0, 1 << 31)), 4294967295 - 1]))
    n = int(rng.integers(6, 12))
    k = int(rng.integers(2, 4))
    y = np.arange(n) % k
    T = int(rng.integers(8, 20)) if base == 'rdst' else int(rng.integers(16, 24))
    nft = int(rng.integers(2, 4))
    fam = str(rng.choice(['normal', 'walk', 'ints', 'sine']))
    X = gen.dataset(rng, kind, n, nft, T, fam)
    if base == 'ensemble' and kind in ('uv', 'mv'):
        X = [np.stack([gen.series(rng, int(t), fam) for _ in range(nft if kind == 'mv' else 1)])
             for t in rng.integers(T, T + 8, size=n)]
    min_len = min(gen.true_lengths(X))
    Ls = sorted(set(int(v) for v in rng.integers(2, 6, size=2)))
    common = dict(shapelet_lengths=Ls, phase_invariance=bool(rng.integers(0, 2)), n_samples=sub,
                  prime_dilations=bool(rng.integers(0, 2)), normalize_output=bool(rng.integers(0, 2)))
    alpha = float(rng.choice([0.0, 0.5, 0.8]))
    nshp = int(rng.choice([6, 20, 30]))
    Xt = X if kind in ('uv', 'mv') else np.array(X)
    given = dict(common, alpha=alpha, n=nshp)
    mon.describe(estimator=est, kind=kind, seed=seed, n=n, T=T, params=given)

    form = ['int', 'int', 'int64', 'RandomState'][int(rng.integers(0, 4))]

    def run(seed, jobs):
        g = np.random.get_state(), random.getstate()
        r = run_(dict(int=int, int64=np.int64, RandomState=np.random.RandomState)[form](seed), jobs)
        h = np.random.get_state(), random.getstate()
        mon.check(g[1] == h[1] and all(np.array_equal(a, b) for a, b in zip(g[0], h[0])), base + '-global-generator',
                  'fitting with a random state (%s) changed a global random generator' % form, params=given)
        mon.count('generators_compared')
        return r

    def run_(seed, jobs):
        p = dict(common, random_state=seed, n_jobs=jobs, shapelet_lengths=list(Ls))
        if base == 'rdst':
            m = work.new_model(dict(p, alpha=alpha, n_shapelets=nshp)).fit(gen.copy_data(X), y.copy())
            return [ref.snapshot(m)], m.transform(gen.copy_data(Xt)), None
        if base == 'ridge':
            from convst.classifiers import R_DST_Ridge
            m = R_DST_Ridge(alpha=alpha, n_shapelets=nshp, **p).fit(gen.copy_data(X), y.copy())
            return [ref.snapshot(m.transformer)], m.transformer.transform(Xt), np.asarray(m.predict(Xt))
        from convst.classifiers import R_DST_Ensemble
        m = R_DST_Ensemble(shp_alpha=alpha, n_shapelets_per_estimator=nshp, **p)
        got = captured(m, X, y)
        got = [g for g in got if g is not None]
        return got, np.asarray(m.model_weights, float), np.asarray(m.predict(Xt))

    perturb(rng, 'all')
    ref_run = run(seed, int(rng.choice([1, 2])))
    if any(len(s[1]) == 0 for s in ref_run[0]):
        raise Skip
    for what in ('generators', 'schedule', 'threads', 'all', 'all')[:(3 if base == 'ensemble' else 5)]:
        perturb(rng, what)
        jobs = int(rng.choice([1, 2, 3, 8, -1])) if what in ('threads', 'all') else 1
        got = run(seed, jobs)
        same = len(got[0]) == len(ref_run[0]) and all(ref.same_shapelets(a, b) for a, b in zip(got[0], ref_run[0]))
        mon.check(same, base + '-shapelets', 'two fits with random_state=%d differ (%s perturbed, n_jobs=%d, n_samples=%s)'
                  % (seed, what, jobs, sub), first=ref_run[0][0][:4], second=got[0][0][:4])
        mon.check(got[1].shape == ref_run[1].shape and np.array_equal(got[1], ref_run[1]), base + '-features',
                  'features differ between two runs (%s perturbed, n_jobs=%d)' % (what, jobs), params=given)
        if got[2] is not None:
            mon.check(np.array_equal(got[2], ref_run[2]), base + '-predictions', 'predictions differ between two runs '
                      '(%s perturbed, n_jobs=%d)' % (what, jobs), first=ref_run[2], second=got[2])
        mon.ev((base, kind, what, sub is not None, nshp, form))
        mon.count('repeated_fits')
        mon.count('perturbed_' + what)
    if fam in ('normal', 'walk') and alpha == 0.0 or nshp >= 20:
        other = seed + 1
        perturb(rng, 'all')
        got = run(other, 1)
        mon.check(not any(ref.same_shapelets(a, b) for a in got[0] for b in ref_run[0]), base + '-seed-ignored',
                  'random states %d and %d give the same shapelets' % (seed, other), params=given)
        mon.ev((base, kind, 'seed', sub is not None))
        mon.count('seeds_told_apart')
    mon.count('schedules', 1)


def captured(m, X, y):
    """fit an ensemble, collecting the shapelets of its members in member order"""
    from convst.transformers import R_DST
    got = {}
    real = R_DST.fit

    def fit(self, *a, **k):
        r = real(self, *a, **k)
        got[id(self)] = self
        return r
    R_DST.fit = fit
    try:
        m.fit(gen.copy_data(X), y.copy())
    finally:
        R_DST.fit = real
    snaps = [ref.snapshot(v) for v in got.values()]
    # members may be fitted in any order: compare them as a set
    return sorted(snaps, key=lambda s: [float(v) for v in np.ravel(s[0])[:40]] + [float(len(s[1]))])
