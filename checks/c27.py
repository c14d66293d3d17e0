"""Monitor of the compiled unique-rows helper and of the compiled np.all replacement."""
import numpy as np
from vlib import env
from vlib.runner import Skip

ID = 'C27'
RULE = ('one evaluation = one call judged against a definition-level oracle; distinct = (function, type, layout, shape '
        'class, axis, number of distinct rows) situations')
BUDGET = {'quick': (16000, 25), 'thorough': (400000, 300)}
CHUNK = 20
ASSUMPTIONS = ['non-empty arrays without NaN or negative zeros',
               'the overload is resolved by calling it with type descriptors, as the compiler does, and running the '
               'implementation it returns; the compiler itself is not installed']
DT = ['int64', 'int32', 'uint8', 'float64', 'float32', 'bool']


def prepare(tier):
    env.setup()


def array(rng, shape):
    dt = DT[int(rng.integers(0, len(DT)))]
    m = int(rng.integers(0, 4))
    if m == 0:
        A = rng.integers(0, 2, size=shape)
    elif m == 1:
        A = rng.integers(0, 4, size=shape)
    elif m == 2:
        A = rng.integers(-3, 4, size=shape) * (1 if dt == 'uint8' else 0.5)
        if dt == 'uint8':
            A = np.abs(A) * 40
    else:
        A = np.where(rng.random(shape) < 0.95, 1, 0)
    if rng.random() < 0.2 and A.ndim == 2:     # repeated rows
        A = A[rng.integers(0, max(1, len(A) // 3), size=len(A))]
    if rng.random() < 0.1 and dt.startswith('float'):
        A = A * 1e-300 if dt == 'float64' else A * np.float32(1e-38)
    A = np.asarray(A).astype(dt) + np.zeros(1, dt)
    if rng.random() < 0.15 and dt == 'int64':
        A = A + np.int64(2 ** 53)               # distinct as integers, equal as floats
        A = A + (np.arange(A.size).reshape(A.shape) % 2)
    lay = int(rng.integers(0, 4))
    if lay == 1:
        A = np.asfortranarray(A)
    elif lay == 2 and A.ndim == 2:
        B = np.zeros((A.shape[0] * 2, A.shape[1] * 2), A.dtype)
        B[::2, ::2] = A
        A = B[::2, ::2]
    elif lay == 3 and A.ndim == 2:
        A = A[::-1]
    return A, lay


class _NP:
    """numpy as compiled code sees it: np.all is the library's replacement"""
    def __init__(self, f):
        self.all = f

    def __getattr__(self, n):
        return getattr(np, n)


def emulated_all(x, axis=None):
    from numba import types
    from numba.extending import OVERLOADS
    x = np.asarray(x)
    if axis is None:
        return bool(x.all())
    return OVERLOADS['all'](types.typeof(x), types.typeof(axis))(x, axis)


def case(rng, tier, mon):
    import convst.utils.numba_utils as nu
    if mon.idx % 2:
        return np_all(rng, mon)
    if not hasattr(nu, 'nb_unique'):
        raise Skip
    shape = (int(rng.choice([1, 2, 3, 5, 12, 40])) if rng.random() < 0.97 else int(rng.choice([140, 270, 600])), int(rng.choice([1, 1, 2, 3, 7])))
    A, lay = array(rng, shape)
    axis = int(rng.choice([0, 0, 1]))
    before = A.copy()
    from numba.extending import OVERLOADS
    emu = hasattr(nu, 'np') and 'all' in OVERLOADS and bool(rng.integers(0, 4))
    mon.describe(shape=shape, dtype=str(A.dtype), axis=axis, input=A if A.size < 60 else 'large', compiled_all=emu)
    if emu:
        nu.np = _NP(emulated_all)
        mon.count('with_compiled_all')
    try:
        U, first, cnt = nu.nb_unique(A, axis) if axis or rng.random() < 0.5 else nu.nb_unique(A)
    finally:
        if emu:
            nu.np = np
    mon.check(np.array_equal(A, before), 'mutates', 'the input was modified')
    rows = [tuple(r) for r in (before.T if axis else before).tolist()]
    exp = sorted(set(rows))
    U = np.asarray(U)
    got = [tuple(r) for r in U.tolist()]
    if got != exp and axis:
        got = [tuple(r) for r in U.T.tolist()]
    mon.check(got == exp, 'rows', 'distinct rows %s, expected %s' % (got[:6], exp[:6]))
    mon.check(U.dtype == before.dtype, 'dtype', 'type %s, expected %s' % (U.dtype, before.dtype))
    mon.check([int(v) for v in first] == [rows.index(r) for r in exp], 'first-index', 'first indexes %s, expected %s' % (
        list(first)[:8], [rows.index(r) for r in exp][:8]))
    mon.check([int(v) for v in cnt] == [rows.count(r) for r in exp], 'counts', 'multiplicities %s, expected %s' % (
        list(cnt)[:8], [rows.count(r) for r in exp][:8]))
    mon.count('duplicated_rows', len(rows) - len(exp))
    mon.ev(('unique', str(A.dtype), lay, axis, min(shape[0], 3), min(shape[1], 3), min(len(exp), 4), emu))


def np_all(rng, mon):
    from numba import types
    from numba.extending import OVERLOADS
    if 'all' not in OVERLOADS:
        raise Skip
    d1 = rng.random() < 0.25
    shape = (int(rng.choice([1, 2, 5])),) if d1 else (int(rng.choice([1, 2, 3, 6])), int(rng.choice([1, 2, 3, 6])))
    A, lay = array(rng, shape)
    axis = [None, 0, 1][int(rng.integers(0, 3))]
    if d1 and axis == 1:
        axis = 0
    before = A.copy()
    t = types.typeof(axis)
    if axis is not None and rng.random() < 0.3:
        t = types.Optional(t)
    mon.describe(shape=shape, dtype=str(A.dtype), axis=axis, input=A)
    impl = OVERLOADS['all'](types.typeof(A), t)
    mon.check(callable(impl), 'refused', 'np.all of a %d-d array with axis %r is not supported' % (A.ndim, axis))
    got = impl(A, axis)
    exp = np.all(before, axis=axis)
    mon.check(np.shape(got) == np.shape(exp) and np.array_equal(got, exp), 'all', 'all over axis %r: %s, expected %s' % (
        axis, got, exp))
    mon.check(np.asarray(got).dtype == bool, 'all-type', 'result of type %s' % np.asarray(got).dtype)
    mon.check(np.array_equal(A, before), 'mutates', 'the input was modified')
    mon.ev(('all', str(A.dtype), lay, axis, shape, bool(np.all(exp)), bool(np.any(exp))))
