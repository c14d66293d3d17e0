OVERLOADS = {}


def overload(func, **k):
    def wrap(f):
        OVERLOADS[getattr(func, '__name__', str(func))] = f
        return f
    return wrap


def register_jitable(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


def overload_method(*a, **k):
    return lambda f: f


def intrinsic(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


def is_jitted(f):
    from vlib.nbrt import Dispatcher
    return isinstance(f, Dispatcher)
