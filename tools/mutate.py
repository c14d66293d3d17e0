"""Mutation campaign: small edits of the library, each run against the checks of its file (development tool).

usage: mutate.py list FILE...          number of mutants
       mutate.py run OUT.jsonl [--workers N] [--every K] FILE...
       mutate.py again IN.jsonl OUT.jsonl [--workers N]     survivors of IN, with the whole quick checks
Runs from a copy of /verif (evidence is overwritten): VERIF_COPY; scratch under /tmp/mut.
"""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
FULL = False
COPY = os.environ.get('VERIF_COPY', '/tmp/mv')
T = 'convst/transformers/'
KERN = [('C10', 100), ('C11', 24), ('C08', 80), ('C01', 60), ('C07', 60), ('C09', 100), ('C06', 40), ('C04', 24), ('C05', 12), ('C12', 20)]
MAP = {
    T + '_commons.py': [('C29', 500), ('C11', 36), ('C01', 60), ('C02', 60), ('C07', 60), ('C09', 60)],
    T + '_univariate_same_length.py': KERN,
    T + '_univariate_variable_length.py': [('C03', 100)] + KERN,
    T + '_multivariate_same_length.py': [('C02', 60)] + KERN,
    T + '_multivariate_variable_length.py': [('C02', 60), ('C03', 100)] + KERN,
    T + 'rdst.py': [('C14', 60), ('C15', 200), ('C16', 60), ('C09', 60), ('C30', 150), ('C32', 30), ('C31', 60), ('C13', 60), ('C12', 40), ('C08', 80), ('C23', 60), ('C04', 30), ('C03', 40), ('C01', 40), ('C02', 40)],
    T + '_input_transformers.py': [('C22', 600), ('C31', 100), ('C18', 20), ('C35', 40)],
    'convst/classifiers/rdst_ensemble.py': [('C32', 40), ('C31', 60), ('C18', 30), ('C16', 60), ('C12', 60), ('C30', 150), ('C17', 60), ('C34', 60)],
    'convst/classifiers/rdst_ridge.py': [('C31', 60), ('C17', 60), ('C16', 60), ('C12', 40), ('C30', 100), ('C34', 60)],
    'convst/interpreters/rdst_interpreter.py': [('C24', 120), ('C33', 12)],
    'convst/utils/checks_utils.py': [('C23', 150), ('C30', 100)],
    'convst/utils/dataset_utils.py': [('C21', 300), ('C19', 60), ('C20', 60)],
    'convst/utils/experiments_utils.py': [('C19', 60), ('C20', 60)],
    'convst/utils/numba_utils.py': [('C27', 800)],
    'convst/utils/plot_utils.py': [('C25', 200), ('C26', 100)],
    'convst/__init__.py': [('C28', 20)],
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.Pow: '*'}
NAMES = {'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'mean': 'median', 'floor': 'ceil', 'any': 'all', 'all': 'any', 'True': 'False',
         'cumsum': 'abs', 'zeros': 'ones', 'ones': 'zeros', 'sort': 'array', 'argsort': 'argmax', 'unique': 'asarray', 'sum': 'max', 'rankdata': 'argsort'}


class V(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.lines, self.m = src, src.split('\n'), []
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def rep(self, n, new, what):
        a, b = self.span(n)
        self.m.append((a, b, new, what, n.lineno))

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.rep(n, 'pass', 'delete')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if not isinstance(n.targets[0], ast.Name) or n.col_offset > 4:
            if isinstance(n.targets[0], (ast.Subscript,)) or n.col_offset > 4:
                self.rep(n, 'pass', 'delete')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.rep(n, 'pass', 'delete')
        self.rep(n, self.text(n.target) + ' = ' + self.text(n.value), 'assign')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            self.rep(n, '%s %s %s' % (l, CMP[type(n.ops[0])], r), 'compare')
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                o = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}
                k = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(n.ops[0])]
                self.rep(n, '%s %s %s' % (l, o[k], r), 'negate')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not isinstance(n.left, (ast.Constant,)) or isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
            if type(n.op) in BIN:
                self.rep(n, '(%s %s %s)' % (self.text(n.left), BIN[type(n.op)], self.text(n.right)), 'binop')
                self.rep(n, '(%s)' % self.text(n.left), 'left')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        t = [self.text(v) for v in n.values]
        self.rep(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(t) + ')', 'boolop')
        for i in range(len(t)):
            self.rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(t[:i] + t[i + 1:]) + ')', 'drop-cond')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.rep(n, '(%s)' % self.text(n.operand), 'unary')
        self.generic_visit(n)

    def visit_If(self, n):
        self.rep(n.test, 'True', 'if-true')
        self.rep(n.test, 'False', 'if-false')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.rep(n, str(not v), 'bool')
        elif isinstance(v, int):
            self.rep(n, str(v + 1), 'const+1')
            if v > 0:
                self.rep(n, str(v - 1), 'const-1')
        elif isinstance(v, float):
            self.rep(n, repr(v * 2 + 0.25), 'const')

    def visit_Name(self, n):
        if n.id in NAMES and isinstance(n.ctx, ast.Load):
            self.rep(n, NAMES[n.id], 'name')

    def visit_Attribute(self, n):
        if n.attr in NAMES:
            self.rep(n, self.text(n.value) + '.' + NAMES[n.attr], 'name')
        self.generic_visit(n)

    def visit_Call(self, n):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for i in range(min(3, len(n.args) - 1)):
                x, y = n.args[i], n.args[i + 1]
                a, b = self.span(x)[0], self.span(y)[1]
                self.m.append((a, b, self.text(y) + self.b[self.span(x)[1]:self.span(y)[0]].decode() + self.text(x), 'swap', n.lineno))
        for k in n.keywords:
            if k.arg and isinstance(k.value, (ast.Name, ast.Attribute)):
                pass
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        for st in n.body:
            self.visit(st)
        for d in n.args.defaults:
            self.visit(d)

    def visit_Raise(self, n):
        self.rep(n, 'pass', 'no-raise')

    def visit_Import(self, n):
        pass
    visit_ImportFrom = visit_Import

    def visit_JoinedStr(self, n):
        pass


def mutants(f):
    src = open(os.path.join(REPO, f)).read()
    v = V(src)
    v.visit(ast.parse(src))
    out, seen = [], set()
    for a, b, new, what, line in v.m:
        t = (v.b[:a] + new.encode() + v.b[b:]).decode()
        try:
            same = ast.dump(ast.parse(t)) == ast.dump(ast.parse(src))
        except SyntaxError:
            continue
        if same or t in seen:
            continue
        seen.add(t)
        out.append(dict(file=f, line=line, what=what, old=' '.join(v.b[a:b].decode().split())[:200], new=' '.join(new.split())[:200], text=t))
    return out


def work(args):
    i, m = args
    d = '/tmp/mut/w%d' % i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__', '*.pyc', 'docs', 'examples', 'archives', 'results', '*.ipynb'))
    open(os.path.join(d, m['file']), 'w').write(m['text'])
    r = dict((k, m[k]) for k in ('file', 'line', 'what', 'old', 'new'))
    r['killed'], r['odd'] = None, []
    for prop, n in MAP[m['file']]:
        if FULL:
            n = 100000
        try:
            p = subprocess.run([COPY + '/check', prop, 'quick'] + ([] if FULL else ['--jobs', '1', '--cases', str(n), '--budget', '60']), env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=400)
            if p.returncode == 1 and 'VIOLATION' in p.stdout:
                r['killed'] = prop
                break
            if p.returncode != 0:
                r['odd'].append([prop, p.returncode, p.stdout[-300:]])
        except subprocess.TimeoutExpired:
            r['odd'].append([prop, 'timeout', ''])
    shutil.rmtree(d, ignore_errors=True)
    return r


def main():
    a = sys.argv[1:]
    if a[0] == 'list':
        for f in a[1:] or MAP:
            print(f, len(mutants(f)))
        return
    global FULL
    FULL = a[0] == 'again'
    src = None
    if FULL:
        src = set()
        for l in open(a.pop(1)):
            d = json.loads(l)
            if not d['killed']:
                src.add((d['file'], d['line'], d['what'], d['old'], d['new']))
    out = a[1]
    nw, every, files = 8, 1, []
    it = iter(a[2:])
    for x in it:
        if x == '--workers':
            nw = int(next(it))
        elif x == '--every':
            every = int(next(it))
        else:
            files.append(x)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['what'], d['old'], d['new']))
    ms = [m for f in files or MAP for m in mutants(f)]
    if FULL:
        ms = [m for m in ms if (m['file'], m['line'], m['what'], m['old'], m['new']) in src]
    random.Random(0).shuffle(ms)
    ms = [m for m in ms[::every] if (m['file'], m['line'], m['what'], m['old'], m['new']) not in done]
    print(len(ms), flush=True)
    with ThreadPoolExecutor(nw) as ex, open(out, 'a') as o:
        for r in ex.map(work, enumerate(ms)):
            o.write(json.dumps(r) + '\n')
            o.flush()


main()
