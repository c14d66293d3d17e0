"""Stand-in for numba: compiled functions run interpreted under vlib.nbrt."""
from vlib import nbrt as _rt
from vlib.nbrt import prange, set_num_threads, get_num_threads
from . import types, extending, core
from .core import errors

__version__ = '0.56.4'
_OPTIONS = {'nopython', 'nogil', 'cache', 'parallel', 'fastmath', 'error_model',
            'boundscheck', 'inline', 'forceobj', 'looplift', 'locals', 'debug',
            'no_cpython_wrapper', 'no_cfunc_wrapper', 'pipeline_class', 'target'}


def jit(signature_or_function=None, locals=None, cache=False, pipeline_class=None,
        boundscheck=None, **options):
    for k in options:
        if k not in _OPTIONS:
            raise KeyError("Unrecognized options: {%r}" % k)
    opts = dict(options, cache=cache)
    if callable(signature_or_function) and not isinstance(signature_or_function, types.Type):
        return _rt.Dispatcher(signature_or_function, opts)

    def wrap(f):
        return _rt.Dispatcher(f, opts)
    return wrap


def njit(*args, **kws):
    kws.pop('nopython', None)
    return jit(*args, nopython=True, **kws)


generated_jit = jit


def vectorize(*a, **k):
    import numpy as np
    if a and callable(a[0]):
        return np.vectorize(a[0])
    return lambda f: np.vectorize(f)


class _Cfg:
    NUMBA_NUM_THREADS = 8
    NUMBA_DEFAULT_NUM_THREADS = 8
    THREADING_LAYER = 'default'
    DISABLE_JIT = 0


config = _Cfg()


def get_thread_id():
    return _rt.tls.worker


def literally(x):
    return x


def literal_unroll(x):
    return x


boolean = bool_ = types.boolean
int8, int16, int32, int64 = types.int8, types.int16, types.int32, types.int64
uint8, uint16, uint32, uint64 = types.uint8, types.uint16, types.uint32, types.uint64
float32, float64, intp, void = types.float32, types.float64, types.intp, types.void
from . import typed  # noqa
