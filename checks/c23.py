"""Monitor of the argument checks over generated arguments of every sort."""
import os
import decimal
import fractions
import numpy as np
from vlib import env, gen

ID = 'C23'
RULE = ('one evaluation = one argument given to one check and the outcome (returned value or value error) judged; distinct = '
        '(check, sort of argument, shape)')
BUDGET = {'quick': (2500, 45), 'thorough': (30000, 780)}
CHUNK = 10


def prepare(tier):
    env.setup()


NUM = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64']


def scalar(rng):
    """(description, value, is a number, is a boolean); None: not decided"""
    m = int(rng.integers(0, 22))
    v = int(rng.integers(-1000, 1000))
    if m == 0:
        return 'int', v, True, False
    if m == 1:
        return 'bigint', v * 10 ** 25, True, False
    if m == 2:
        return 'float', float(rng.normal()), True, False
    if m == 3:
        return 'special-float', [float('inf'), float('-inf'), float('nan'), 0.0, -0.0, 1e-320][int(rng.integers(0, 6))], True, False
    if m in (4, 5, 6):
        d = NUM[int(rng.integers(0, len(NUM)))]
        return 'np-' + d, np.dtype(d).type(abs(v) % 100), True, False
    if m in (7, 8):
        return 'bool', bool(rng.integers(0, 2)), False, True
    if m == 9:
        return 'np-bool', np.bool_(bool(rng.integers(0, 2))), False, None
    if m == 10:
        return 'str', ['1', '', 'True', '0.5', 'nan'][int(rng.integers(0, 5))], False, False
    if m == 11:
        return 'none', None, False, False
    if m == 12:
        return 'list', [v], False, False
    if m == 13:
        return 'complex', complex(v, 1), False, False
    if m == 14:
        return 'array', np.array(v) if rng.random() < .5 else np.array([v]), False, False
    if m == 15:
        return 'decimal', decimal.Decimal(v), False, False
    if m == 16:
        return 'tuple', (v,), False, False
    if m == 17:
        return 'dict', {v: 1}, False, False
    if m == 18:
        return 'object', object(), False, False
    if m == 19:
        return 'type', [int, bool, float][int(rng.integers(0, 3))], False, False
    if m == 20:
        return 'zero-one', [0, 1, 0.0, 1.0][int(rng.integers(0, 4))], True, False
    return 'bytes', b'1', False, False


def same(a, b):
    if isinstance(b, float) and b != b:
        return a != a
    return type(a) is type(b) and a == b


def outcome(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except ValueError:
        return 'ValueError', None
    except Exception as e:
        return type(e).__name__, None


def expect(mon, what, sort, arg, want, f, *a, **k):
    o, r = outcome(f, *a, **k)
    d = repr(arg)[:120]
    if want:
        mon.check(o == 'ok', what + '-refused', '%s refuses %s %s (%s)' % (what, sort, d, o))
    else:
        mon.check(o != 'ok', what + '-accepted', '%s accepts %s %s' % (what, sort, d), returned=r)
        mon.check(o == 'ValueError', what + '-error', '%s ends with %s for %s %s rather than a ValueError' % (what, o, sort, d))
    mon.count(what + ('-ok' if want else '-refused'))
    return r


def case(rng, tier, mon):
    from convst.utils import checks_utils as cu
    for _ in range(20):
        sort, v, num, boo = scalar(rng)
        r = expect(mon, 'number', sort, v, num, cu.check_is_numeric, v)
        if num:
            mon.check(same(r, v), 'number-value', 'the number check returns %r for %r' % (r, v))
        mon.ev(('number', sort))
        if boo is not None:
            r = expect(mon, 'boolean', sort, v, boo, cu.check_is_boolean, v)
            if boo:
                mon.check(r is v or (isinstance(r, bool) and r == v), 'boolean-value', 'the boolean check returns %r for %r' % (r, v))
            mon.ev(('boolean', sort))
    jobs(rng, mon, cu)
    for _ in range(12):
        arrays(rng, mon, cu)
    if mon.idx % 4 == 0:
        constructor(rng, mon)
    mon.describe(kind='mixed arguments')


def jobs(rng, mon, cu):
    cpu = os.cpu_count()
    for _ in range(6):
        n = int(rng.integers(-2 * cpu - 3, 2 * cpu + 4))
        if rng.random() < .1:
            n = int(rng.choice([-10 ** 6, 10 ** 6]))
        v = n if rng.random() < .6 else np.int64(n) if rng.random() < .5 else np.int16(max(-999, min(n, 999)))
        n = int(v)
        o, r = outcome(cu.check_n_jobs, v)
        if n == 0:
            mon.check(o == 'ValueError' or (o == 'ok' and 1 <= r <= cpu), 'jobs-zero', 'n_jobs=0 resolves to %r' % (r,))
        else:
            want = min(n, cpu) if n > 0 else max(1, cpu + 1 + n)
            mon.check(o == 'ok' and r == want, 'jobs', 'n_jobs=%r resolves to %r, expected %d with %d processors' % (v, r, want, cpu))
        mon.ev(('jobs', n, type(v).__name__))
    mon.check(cu.check_n_jobs(None) == 1, 'jobs', 'n_jobs=None resolves to %r' % (cu.check_n_jobs(None),))
    sort, v, num, boo = scalar(rng)
    if sort in ('float', 'str', 'bool', 'list', 'tuple', 'dict', 'object', 'complex', 'special-float', 'np-float64', 'np-float32'):
        expect(mon, 'jobs', sort, v, False, cu.check_n_jobs, v)


def arrays(rng, mon, cu):
    import pandas as pd
    nd = int(rng.choice([0, 1, 2, 2, 3, 3, 3, 4]))
    shape = tuple(int(v) for v in rng.integers(1, 5, size=nd))
    if rng.random() < .25 and nd:
        shape = tuple(0 if rng.random() < .4 else s for s in shape)
    if nd == 3 and rng.random() < .4:
        shape = (shape[0], 1, int(rng.integers(1, 8)))
    dt = str(rng.choice(NUM))
    A = rng.integers(0, 50, size=shape).astype(dt)
    form = str(rng.choice(['array', 'list', 'array', 'F', 'strided', 'frame', 'tuple', 'series', 'scalar', 'set']))
    data = np.array(A)
    if form == 'F' and not nd:
        form = 'array'
    isframe = False
    if form == 'list':
        if nd == 0:
            return
        arg = A.tolist()
        if A.size == 0:
            data = np.asarray(arg)
    elif form == 'F' and nd:
        arg = np.asfortranarray(A)
    elif form == 'strided':
        arg = np.repeat(A, 2, axis=-1)[..., ::2] if nd else A
    elif form == 'frame':
        if nd != 2:
            return
        arg, isframe = pd.DataFrame(A), True
    elif form == 'tuple':
        arg = tuple(A.tolist()) if nd else (1,)
    elif form == 'series':
        if nd != 1:
            return
        arg = pd.Series(A)
    elif form == 'scalar':
        sort, arg, _, _ = scalar(rng)
        if sort in ('list', 'array'):
            return
    elif form == 'set':
        arg = {1, 2}
    else:
        arg = A
    container = form in ('array', 'list', 'F', 'strided')
    d, full = data.ndim, data.size > 0
    how = '%s of shape %s' % (form, data.shape)

    def judge(what, want, f, *a, **k):
        before = np.array(arg) if container or isframe else None
        r = expect(mon, what, how, arg, want, f, arg, *a, **k)
        if want:
            r2 = np.asarray(r)
            mon.check(r2.shape == data.shape and np.array_equal(r2, data), what + '-value', '%s changes %s' % (what, how))
            if isinstance(arg, np.ndarray):
                mon.check(isinstance(r, np.ndarray) and r.dtype == arg.dtype, what + '-dtype', '%s changes the dtype of %s' % (what, how))
        if before is not None:
            mon.check(np.array_equal(np.array(arg), before), what + '-modified', '%s modifies its argument' % what)
        mon.ev((what, form, data.shape, dt))
    judge('array1', container and d == 1 and full, cu.check_array_1D)
    judge('array2', (container or isframe) and d == 2 and full, cu.check_array_2D)
    mt = int(rng.integers(0, 6))
    three = container and d == 3 and full
    judge('array3', three and data.shape[2] > 2, cu.check_array_3D)
    judge('array3-min', three and data.shape[2] > mt, cu.check_array_3D, min_timestamps=mt)
    judge('array3-uni', three and data.shape[2] > 2 and data.shape[1] == 1, cu.check_array_3D, is_univariate=True)


def constructor(rng, mon):
    from convst.transformers import R_DST
    mk = lambda **k: R_DST(**k)
    for name in ('phase_invariance', 'normalize_output', 'prime_dilations'):
        sort, v, num, boo = scalar(rng)
        if boo is not None:
            expect(mon, name, sort, v, boo, mk, **{name: v})
            mon.ev((name, sort))
    for name in ('alpha', 'proba_norm', 'lengths_bounds_reduction', 'n_samples'):
        sort, v, num, boo = scalar(rng)
        if sort in ('none', 'special-float', 'np-float16') or (name == 'lengths_bounds_reduction' and num):
            continue
        expect(mon, name, sort, v, num, mk, **{name: v})
        mon.ev((name, sort))
    v = float(np.round(rng.uniform(0, 2), 3))
    expect(mon, 'lengths_bounds_reduction', 'float', v, v < 1, mk, lengths_bounds_reduction=v)
    a, b = [float(x) for x in np.round(rng.uniform(0, 100, size=2), 1)]
    if rng.random() < .5:
        a, b = int(a), int(b)
    for pc in ([a, b], np.array([a, b])):
        expect(mon, 'percentiles', 'pair', pc, a <= b, mk, percentiles=pc)
    for q in (a, 50, 5.0, 0, 100):        # a degenerate range is a range
        expect(mon, 'percentiles', 'equal pair', [q, q], True, mk, percentiles=[q, q])
    q = [[5, 5], [3, 8], [0.2, 0.2], [0.1, 0.9], [11, 11]][int(rng.integers(0, 5))]
    expect(mon, 'bounds', 'pair', q, True, mk, shapelet_lengths_bounds=q)
    for pc in ([a], [min(a, b), max(a, b), 100], [5, 5, 10], [5, 10, 10], [7, 7, 7], [], [[1, 2]], 5, 'ab', None, (1, 2)):
        expect(mon, 'percentiles', 'not a pair', pc, False, mk, percentiles=pc)
    for bd in ([3], [3, 4, 5], [], [3, 3, 5], [4, 4, 4], [0.5, 0.5, 0.5]):
        expect(mon, 'bounds', 'not a pair', bd, False, mk, shapelet_lengths_bounds=bd)
    for ln in ([], [[3]], 5, None, (3, 4)):
        expect(mon, 'lengths', 'not an array', ln, False, mk, shapelet_lengths=ln)
    mon.ev(('constructor', a <= b, v < 1))
