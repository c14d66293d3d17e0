"""Configuration monitor: the library re-imported under option combinations, every compiled function inspected."""
import importlib
import pkgutil
import sys
import numpy as np
from vlib import env, gen, ref, work, nbrt
from vlib.runner import Skip

ID = 'C28'
RULE = ('one evaluation = one compiled function whose recorded options are judged under one combination, or one fit and '
        'transform compared with the default configuration; distinct = (combination, function) or (combination, data '
        'kind, parameters) situations')
BUDGET = {'quick': (192, 60), 'thorough': (6400, 600)}
CHUNK = 4
ASSUMPTIONS = ['options are changed as the shipped example does: attributes of the package set right after importing it, '
               'before any submodule',
               'what the compiler does with an option is not observed (not installed); scheduling under parallelism is']
OPT = [('__USE_NUMBA_CACHE__', 'cache'), ('__USE_NUMBA_FASTMATH__', 'fastmath'),
       ('__USE_NUMBA_NOGIL__', 'nogil'), ('__USE_NUMBA_PARALLEL__', 'parallel')]


def prepare(tier):
    env.setup()


def load(flags):
    """a fresh import of the whole library under the given options; the compiled functions it made"""
    for k in [k for k in sys.modules if k == 'convst' or k.startswith('convst.')]:
        del sys.modules[k]
    del nbrt.dispatchers[:]
    import convst
    for (attr, _), v in zip(OPT, flags):
        if v is not None:
            setattr(convst, attr, v)
    names = []
    for m in pkgutil.walk_packages(convst.__path__, 'convst.'):
        if '.tests' in m.name or '.test_' in m.name:
            continue
        importlib.import_module(m.name)
        names.append(m.name)
    return names


def judge_options(mon, flags, stage):
    ds = [d for d in nbrt.dispatchers if str(d.__module__).startswith('convst')]
    for d in ds:
        for (attr, o), v in zip(OPT, flags):
            if v is False:
                mon.check(not d.targetoptions.get(o, False), 'option:' + o,
                          '%s.%s is compiled with %s=%r although %s is off' % (
                              d.__module__, d.__name__, o, d.targetoptions.get(o), attr), stage=stage)
                mon.ev((o, d.__module__, d.__name__))
    return len(ds)


def run(rng_seed, kind, est):
    r = np.random.Generator(np.random.PCG64(rng_seed))
    w = work.build(r, kind, fit=False, n_shp=int(r.integers(4, 20)))
    if est == 'rdst':
        m = work.new_model(w.p).fit(w.X, w.y)
        T = work.test_series(r, w, 4)
        return ref.snapshot(m), [np.array(m.transform(T))], w
    from convst.classifiers import R_DST_Ridge
    c = R_DST_Ridge(n_shapelets=40, shapelet_lengths=[3], alpha=0.0, random_state=int(rng_seed) % 1000)
    X = gen.dataset(r, kind, 12, 2 if kind in ('m', 'mv') else 1, 14, 'normal')
    y = np.arange(12) % 2
    c.fit(X, y)
    return ref.snapshot(c.transformer), [np.array(c.transformer.transform(X))], w


def case(rng, tier, mon):
    combo = mon.idx % 16
    kind = gen.KINDS[(mon.idx // 16) % 4]
    est = 'rdst' if (mon.idx // 64) % 4 < 3 else 'ridge'
    flags = [bool(combo >> b & 1) for b in range(4)]
    seed = int(rng.integers(0, 1 << 30))
    load([None] * 4)
    S0, F0, w = run(seed, kind, est)
    names = load(flags)
    n = judge_options(mon, flags, 'import')
    S1, F1, _ = run(seed, kind, est)
    judge_options(mon, flags, 'run')
    mon.describe(options=dict(zip([a for a, _ in OPT], flags)), kind=kind, estimator=est, params=w.p,
                 compiled_functions=n, modules=names)
    mon.count('compiled_functions_seen', n)
    mon.count('modules_imported', len(names))
    mon.check(n > 10, 'monitor-blind', 'only %d compiled functions were seen' % n)
    mon.check(ref.same_shapelets(S0, S1, exact=False), 'shapelets', 'options %s change the shapelets' % (flags,))
    mon.check(len(F0) == len(F1) and all(a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-9)
              for a, b in zip(F0, F1)), 'features', 'options %s change the features' % (flags,))
    mon.ev((combo, kind, est, w.phase))
