"""Import environment for the checks: stand-ins first, then the working tree."""
import os
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.dirname(HERE)
VERIF = os.path.dirname(LIB)
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = 'PyPy' in sys.version
_done = []
poison = [False]


def setup(poison_empty=False, race=None):
    if _done:
        return
    _done.append(1)
    sys.dont_write_bytecode = True
    import numpy as np
    for name, val in dict(float_=np.float64, NaN=np.nan, Inf=np.inf, infty=np.inf, unicode_=np.str_,
                          string_=np.bytes_, complex_=np.complex128, PINF=np.inf, NINF=-np.inf,
                          cfloat=np.complex128, singlecomplex=np.complex64).items():
        if name not in np.__dict__:
            setattr(np, name, val)
    for name, f in dict(product='prod', cumproduct='cumprod', in1d='isin', trapz='trapezoid',
                        alltrue='all', sometrue='any', row_stack='vstack', round_='round').items():
        if name not in np.__dict__ and hasattr(np, f):
            setattr(np, name, getattr(np, f))
    if not hasattr(np, 'asfarray'):
        np.asfarray = lambda a, dtype=np.float64: np.asarray(a, dtype=dtype)
    if not hasattr(np, 'byte_bounds') and hasattr(np, 'lib') and hasattr(np.lib, 'array_utils'):
        np.byte_bounds = np.lib.array_utils.byte_bounds
    from . import nbrt
    nbrt.install()
    if race is not None:
        nbrt.monitor = race
        from . import race as rmod
        nbrt.instrument = rmod.make_instrument(race)
    if poison_empty:
        _poison(np)
    shims = os.path.join(LIB, 'shims')
    sys.path[:0] = [REPO, shims] + ([os.path.join(shims, 'pypy_only')] if PYPY
                                   else [os.path.join(shims, 'pandas_cp')])
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import convst
    base = os.path.realpath(os.path.dirname(convst.__file__))
    want = os.path.realpath(os.path.join(REPO, 'convst'))
    if base != want:
        raise RuntimeError('library imported from %s, expected %s' % (base, want))


poisoned = [0]


def _poison(np):
    """np.empty and friends hand out recognisable garbage inside the library."""
    def wrap(real):
        def f(*a, **k):
            r = real(*a, **k)
            g = sys._getframe(1).f_globals.get('__name__', '')
            if g.startswith('convst') and r.dtype.kind in 'fiu':
                poisoned[0] += 1
                if r.dtype.kind == 'f':
                    r.fill(np.nan)
                else:
                    r.fill(np.iinfo(r.dtype).max // 3)
            return r
        return f
    np.empty = wrap(np.empty)
    np.empty_like = wrap(np.empty_like)


def reset_library_state():
    """What a fresh process would start from (thread count, generators)."""
    from . import nbrt
    nbrt.tls.num_threads = None
