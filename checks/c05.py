"""Race detector on the instrumented kernels, plus bitwise comparison across schedules and thread counts."""
import numpy as np
from vlib import env, gen, ref, work, nbrt, race

ID = 'C05'
MONITOR = race.Monitor()
RULE = ('one evaluation = one fit or transform executed under the access monitor, or one execution compared with the '
        'reference schedule; distinct = different (kind, operation, order, assignment, threads, parallel loops '
        'exercised) combinations')
BUDGET = {'quick': (700, 50), 'thorough': (9000, 750)}
CHUNK = 2
ASSUMPTIONS = ['iterations run one at a time in the emulated runtime; the detector compares the accesses of all pairs '
               'of iterations of a parallel loop, whatever the order they ran in',
               'the emulated runtime has one random generator per worker, as the compiled code has']


def prepare(tier):
    env.setup(race=MONITOR)


def small(rng, kind):
    return dict(n=int(rng.choice([2, 3, 4, 6])), n_ft=int(rng.choice([2, 3])), n_ts=int(rng.choice([5, 8, 12, 16])),
                n_shp=int(rng.choice([3, 8, 15, 30])))


def schedule(rng, i):
    orders, assigns = ['seq', 'rev', 'perm'], ['chunk', 'rr', 'perm']
    return dict(order=orders[int(rng.integers(0, 3))], assign=assigns[int(rng.integers(0, 3))],
                sched_seed=int(rng.integers(0, 1 << 30)), entropy=int(rng.integers(0, 1 << 30)))


def threads(n):
    nbrt.set_num_threads(int(min(n, nbrt.cfg.cpu)))
    return int(min(n, nbrt.cfg.cpu))


def judge_conflicts(mon, what):
    if MONITOR.conflicts:
        c = MONITOR.conflicts[0]
        mon.fail('race:%s' % c.region, '%s: %s' % (what, c), all=[str(x) for x in MONITOR.conflicts[:8]])


def case(rng, tier, mon):
    kind = gen.KINDS[mon.idx % 4]
    nbrt.cfg.cpu = 8
    nbrt.num_threads[0] = 8
    if mon.idx % 10 == 7:
        return other_kernels(rng, mon)
    watch = mon.idx % 3 == 0
    nbrt.instrument = race.make_instrument(MONITOR) if watch else None
    nbrt.monitor = MONITOR if watch else None
    for d in nbrt.dispatchers:
        d._run = None
    MONITOR.reset()
    r0, w0, e0 = MONITOR.reads, MONITOR.writes, MONITOR.elements
    w = work.build(rng, kind, fit=False, sched=False, **small(rng, kind))
    T = work.test_series(rng, w, 4)
    s = schedule(rng, 0)
    c0 = dict(nbrt.counters)
    nbrt.reset(**s)
    nj = int(rng.choice([1, 2, 3, 8]))
    model = work.new_model(w.p, n_jobs=nj).fit(w.X, w.y)
    mon.ev((kind, 'fit', s['order'], s['assign'], nj, w.phase, watch))
    if watch:
        judge_conflicts(mon, 'fit (%s)' % kind)
    F = model.transform(T)
    mon.ev((kind, 'transform', s['order'], s['assign'], nj, w.phase, watch))
    if watch:
        judge_conflicts(mon, 'transform (%s)' % kind)
    mon.count('parallel_regions', nbrt.counters['regions'] - c0['regions'])
    mon.count('iterations', nbrt.counters['iterations'] - c0['iterations'])
    mon.count('monitored_reads', MONITOR.reads - r0)
    mon.count('monitored_writes', MONITOR.writes - w0)
    mon.count('monitored_elements', MONITOR.elements - e0)
    mon.describe(kind=kind, schedule=s, n_jobs=nj, shapelets=len(model.shapelets_[1]), monitored=watch,
                 reads=MONITOR.reads - r0, writes=MONITOR.writes - w0)
    if watch:
        return
    base = ref.snapshot(model)
    for i in range(5 if tier == 'quick' else 9):
        s = schedule(rng, i)
        nj = int(rng.choice([1, 2, 3, 4, 5, 8]))
        nbrt.reset(**s)
        m2 = work.new_model(w.p, n_jobs=nj).fit(w.X, w.y)
        mon.check(ref.same_shapelets(base, ref.snapshot(m2)), 'fit-schedule',
                  'fit gave other shapelets with order=%s assignment=%s threads=%d' % (s['order'], s['assign'], nj),
                  params=w.p, kind=kind)
        mon.ev((kind, 'fit=', s['order'], s['assign'], nj, w.phase))
        F2 = m2.transform(T)
        mon.check(np.array_equal(F, F2), 'transform-schedule',
                  'transform gave other features with order=%s assignment=%s threads=%d' % (
                      s['order'], s['assign'], nj), params=w.p, kind=kind)
        mon.ev((kind, 'transform=', s['order'], s['assign'], nj, w.phase))
        mon.count('schedules_compared')


def other_kernels(rng, mon):
    """every other compiled function of the library with a parallel loop"""
    from convst.transformers import _input_transformers as it
    nbrt.instrument = race.make_instrument(MONITOR)
    nbrt.monitor = MONITOR
    for d in nbrt.dispatchers:
        d._run = None
    MONITOR.reset()
    X = gen.dataset(rng, 'm', int(rng.integers(2, 6)), int(rng.integers(1, 4)), int(rng.integers(4, 12)), 'normal')
    out = []
    for _ in range(3):
        s = schedule(rng, 0)
        nbrt.reset(**s)
        threads(int(rng.choice([1, 2, 8])))
        out.append(it.Z_normalizer().fit(X).transform(X.copy()))
        judge_conflicts(mon, 'Z_normalizer')
        mon.ev(('znorm', s['order'], s['assign']))
    mon.check(all(np.array_equal(out[0], o) for o in out), 'znorm-schedule', 'Z_normalizer depends on the schedule')
    mon.count('other_kernels')
