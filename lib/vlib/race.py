"""Access monitor for parallel regions (race detector) on interpreted kernels.

Compiled functions are rewritten so that every array element access, every
array handed to a library call or used as an operand, and every scalar
variable shared by the iterations of a parallel loop reports to shadow memory.
Two different iterations of one parallel region touching the same element, at
least one of them writing, is a conflict - whatever the order the iterations
happened to run in, so the detector generalises over schedules.
"""
import ast
import inspect
import textwrap
import numpy as np
from . import nbrt

REDUCE_OPS = (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.BitAnd, ast.BitOr, ast.BitXor)


class Conflict:
    def __init__(self, kind, region, it, other, where, what):
        self.kind, self.region, self.it = kind, region, it
        self.other, self.where, self.what = other, where, what

    def __str__(self):
        return ('%s conflict in parallel loop of %s: iteration %s and iteration %s '
                'both access %s (at %s)' % (self.kind, self.region, self.it,
                                            self.other, self.what, self.where))


def _root(a):
    b = a
    while isinstance(b.base, np.ndarray):
        b = b.base
    return b


def _offsets(a):
    """Byte addresses of every element of a, same shape as a."""
    off = np.array(a.__array_interface__['data'][0], dtype=np.int64)
    for n, s in zip(a.shape, a.strides):
        off = off[..., None] + np.arange(n, dtype=np.int64) * s
    return off.reshape(a.shape)


def _sel(a, idx):
    """Addresses of the elements a[idx] selects."""
    t = idx if isinstance(idx, tuple) else (idx,)
    ints = True
    for i in t:
        if isinstance(i, (bool, np.bool_)) or not isinstance(i, (int, np.integer)):
            ints = False
            break
    if ints and len(t) == a.ndim:
        p = a.__array_interface__['data'][0]
        for i, n, st in zip(t, a.shape, a.strides):
            i = int(i)
            p += (i + n if i < 0 else i) * st
        return np.array([p], dtype=np.int64)
    basic = all(isinstance(i, (int, np.integer, slice)) and not isinstance(i, (bool, np.bool_))
                or i is Ellipsis or i is None for i in t)
    if basic:
        v = a[idx]
        return _offsets(v) if isinstance(v, np.ndarray) else _offsets(a)[idx]
    return _offsets(a)[idx]


class Monitor:
    def __init__(self):
        self.conflicts = []
        self.reads = self.writes = self.elements = 0
        self.shared_elements = 0

    def reset(self):
        self.conflicts = []

    # -- shadow ---------------------------------------------------------------
    def _access(self, a, offs, write, where):
        regs = nbrt.tls.regions
        if not regs:
            return
        root = _root(a)
        base = root.__array_interface__['data'][0]
        item = a.itemsize
        if root.size == 0:
            return
        lo, hi = np.lib.array_utils.byte_bounds(root) if hasattr(np.lib, 'array_utils') else np.byte_bounds(root)
        pos = (np.asarray(offs).ravel() - lo) // item
        self.elements += pos.size
        for reg in regs:
            ent = reg.shadow.get(id(root))
            if ent is None:
                n = (hi - lo) // item
                ent = reg.shadow[id(root)] = (
                    np.full(n, -1, np.int64), np.full(n, -1, np.int64), [reg.it, False])
                reg.keep.append(root)
            w, r, meta = ent
            it = reg.it
            if meta[0] != it:
                meta[1] = True
            pw = w[pos]
            bad = (pw != -1) & (pw != it)
            if bad.any():
                k = int(np.argmax(bad))
                self._report('write-write' if write else 'write-read', reg, it, int(pw[k]), where,
                             'element %d of a %s array of shape %s' % (int(pos[k]), a.dtype, root.shape))
            if write:
                pr = r[pos]
                bad = (pr != -1) & (pr != it)
                if bad.any():
                    k = int(np.argmax(bad))
                    self._report('read-write', reg, it, int(pr[k]), where,
                                 'element %d of a %s array of shape %s' % (int(pos[k]), a.dtype, root.shape))
                w[pos] = it
            else:
                pr = r[pos]
                r[pos] = np.where((pr != -1) & (pr != it), -2, it)

    def _report(self, kind, reg, it, other, where, what):
        if len(self.conflicts) < 50:
            self.conflicts.append(Conflict(kind, reg.fn, it, other if other >= 0 else 'several', where, what))

    def read_array(self, a, where):
        if nbrt.tls.regions and isinstance(a, np.ndarray) and a.size:
            self.reads += 1
            self._access(a, _offsets(a), False, where)

    # -- hooks called by rewritten code ------------------------------------------
    def load(self, a, idx, where):
        res = a[idx]
        if not nbrt.tls.regions or not isinstance(a, np.ndarray):
            return res
        if isinstance(res, np.ndarray) and res.size and np.shares_memory(res, a):
            return res                       # a view: nothing read yet
        self.reads += 1
        self._access(a, _sel(a, idx), False, where)
        return res

    def store(self, a, idx, val, where):
        if nbrt.tls.regions:
            if isinstance(val, np.ndarray):
                self.read_array(val, where)
            if isinstance(a, np.ndarray):
                self.writes += 1
                self._access(a, _sel(a, idx), True, where)
        a[idx] = val

    def aug(self, a, idx, op, val, where):
        if nbrt.tls.regions:
            if isinstance(val, np.ndarray):
                self.read_array(val, where)
            if isinstance(a, np.ndarray):
                self.writes += 1
                offs = _sel(a, idx)
                self._access(a, offs, False, where)
                self._access(a, offs, True, where)
        cur = a[idx]
        a[idx] = op(cur, val)

    def augname(self, cur, where):
        """x += ... where x is an array modified in place."""
        if nbrt.tls.regions and isinstance(cur, np.ndarray) and cur.size:
            offs = _offsets(cur)
            self._access(cur, offs, False, where)
            self._access(cur, offs, True, where)
        return cur

    def use(self, v, where):
        """operand of an expression"""
        if nbrt.tls.regions and isinstance(v, np.ndarray):
            self.read_array(v, where)
        return v

    def call(self, f, where, *a, **k):
        if nbrt.tls.regions and not isinstance(f, nbrt.Dispatcher):
            for x in a:
                if isinstance(x, np.ndarray):
                    self.read_array(x, where)
            s = getattr(f, '__self__', None)
            if isinstance(s, np.ndarray):
                self.read_array(s, where)
                if getattr(f, '__name__', '') in ('sort', 'fill', 'put', 'partition', 'resize', 'itemset'):
                    self._access(s, _offsets(s), True, where)
        return f(*a, **k)

    # scalars shared by iterations
    def sstore(self, key, depth):
        regs = nbrt.tls.regions
        if regs:
            reg = regs[-1]
            reg.names[key] = reg.it

    def sload(self, v, key, name, where):
        regs = nbrt.tls.regions
        if regs:
            reg = regs[-1]
            last = reg.names.get(key)
            if last is not None and last != reg.it:
                self._report('loop-carried', reg, reg.it, last, where,
                             'scalar variable %r' % name)
        return v


class _Rewrite(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.carried = []      # stack of sets of names under prange loops

    def w(self, node):
        return ast.Constant('%s:%d' % (self.fname, getattr(node, 'lineno', 0)))

    def vr(self, name, *args, keywords=()):
        return ast.Call(func=ast.Attribute(ast.Name('__vr', ast.Load()), name, ast.Load()),
                        args=list(args), keywords=list(keywords))

    def idx(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(ast.Name('slice', ast.Load()),
                            [self.visit(s.lower) if s.lower else ast.Constant(None),
                             self.visit(s.upper) if s.upper else ast.Constant(None),
                             self.visit(s.step) if s.step else ast.Constant(None)], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self.idx(e) for e in s.elts], ast.Load())
        return self.visit(s)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            return self.vr('load', self.visit(n.value), self.idx(n.slice), self.w(n))
        return n

    def _operand(self, n):
        v = self.visit(n)
        if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)):
            return self.vr('use', v, self.w(n))
        return v

    def visit_BinOp(self, n):
        return ast.BinOp(self._operand(n.left), n.op, self._operand(n.right))

    def visit_Compare(self, n):
        if any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            return self.generic_visit(n)
        return ast.Compare(self._operand(n.left), n.ops, [self._operand(c) for c in n.comparators])

    def visit_UnaryOp(self, n):
        return ast.UnaryOp(n.op, self._operand(n.operand))

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in ('prange', 'range', 'len', 'slice', 'enumerate', 'zip', 'isinstance'):
            return self.generic_visit(n)
        if isinstance(f, ast.Attribute) and f.attr == 'prange':
            return self.generic_visit(n)
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return self.generic_visit(n)
        fv = ast.Attribute(self.visit(f.value), f.attr, ast.Load()) if isinstance(f, ast.Attribute) else self.visit(f)
        return self.vr('call', fv, self.w(n), *[self.visit(a) for a in n.args],
                       keywords=[ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords])

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and self.carried and n.id in self.carried[-1]:
            return self.vr('sload', n, ast.Constant(self.fname + '/' + n.id), ast.Constant(n.id), self.w(n))
        return n

    def _after_store(self, node, targets):
        out = [node]
        if self.carried:
            for name in targets:
                if name in self.carried[-1]:
                    out.append(ast.Expr(self.vr('sstore', ast.Constant(self.fname + '/' + name), ast.Constant(0))))
        return out if len(out) > 1 else node

    def _names(self, t):
        return [x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]

    def visit_Assign(self, n):
        value = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.Expr(self.vr('store', self.visit(t.value), self.idx(t.slice), value, self.w(n)))
        n.value = value
        names = []
        for t in n.targets:
            names += self._names(t)
            for x in ast.walk(t):
                if isinstance(x, ast.Subscript):
                    x.value = self.visit(x.value)
        return self._after_store(n, names)

    def visit_AnnAssign(self, n):
        if n.value:
            n.value = self.visit(n.value)
        return n

    def visit_AugAssign(self, n):
        value = self.visit(n.value)
        opmap = {ast.Add: 'iadd', ast.Sub: 'isub', ast.Mult: 'imul', ast.Div: 'itruediv',
                 ast.FloorDiv: 'ifloordiv', ast.Mod: 'imod', ast.Pow: 'ipow', ast.BitAnd: 'iand',
                 ast.BitOr: 'ior', ast.BitXor: 'ixor', ast.LShift: 'ilshift', ast.RShift: 'irshift',
                 ast.MatMult: 'imatmul'}
        if isinstance(n.target, ast.Subscript):
            t = n.target
            op = ast.Attribute(ast.Name('__vrop', ast.Load()), opmap[type(n.op)], ast.Load())
            return ast.Expr(self.vr('aug', self.visit(t.value), self.idx(t.slice), op, value, self.w(n)))
        if isinstance(n.target, ast.Name):
            n.value = value
            if self.carried and n.target.id not in self.carried[-1]:
                return n        # a reduction over the iterations: supported
            pre = ast.Expr(self.vr('augname', ast.Name(n.target.id, ast.Load()), self.w(n)))
            return [pre, n]
        n.value = value
        return n

    def visit_For(self, n):
        it = self.visit(n.iter)
        is_pr = isinstance(n.iter, ast.Call) and (
            (isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'prange') or
            (isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'prange'))
        outer = not self.carried
        if is_pr and outer and self.parallel:
            assigned = set()
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            assigned |= set(self._names(t))
                    elif isinstance(x, ast.For):
                        assigned |= set(self._names(x.target))
            self.carried.append(assigned)
            body = self._body(n.body)
            self.carried.pop()
        else:
            body = self._body(n.body)
        pre = []
        if self.carried:
            for name in self._names(n.target):
                if name in self.carried[-1]:
                    pre.append(ast.Expr(self.vr('sstore', ast.Constant(self.fname + '/' + name), ast.Constant(0))))
        n.iter, n.body = it, pre + body
        n.orelse = self._body(n.orelse)
        return n

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_FunctionDef(self, n):
        return n            # nested functions: left alone

    visit_Lambda = visit_FunctionDef
    visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_FunctionDef


STATS = {'rewritten': 0, 'skipped': 0}


def make_instrument(mon):
    import operator

    def instrument(py_func, options):
        try:
            src = textwrap.dedent(inspect.getsource(py_func))
            tree = ast.parse(src)
            fd = tree.body[0]
            if not isinstance(fd, ast.FunctionDef) or py_func.__code__.co_freevars:
                STATS['skipped'] += 1
                return None
            fd.decorator_list = []
            rw = _Rewrite(py_func.__name__)
            rw.parallel = bool(options.get('parallel'))
            ast.increment_lineno(fd, py_func.__code__.co_firstlineno - 1)
            fd.body = rw._body(fd.body)
            ast.fix_missing_locations(tree)
            g = py_func.__globals__
            g['__vr'] = mon
            g['__vrop'] = operator
            ns = {}
            exec(compile(tree, py_func.__code__.co_filename, 'exec'), g, ns)
            f = ns[fd.name]
            f.__defaults__ = py_func.__defaults__
            f.__kwdefaults__ = py_func.__kwdefaults__
            STATS['rewritten'] += 1
            return f
        except (OSError, SyntaxError, IndentationError):
            STATS['skipped'] += 1
            return None
    return instrument
