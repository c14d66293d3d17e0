"""Runs the cases of one check on all cores, judges, writes evidence."""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import env

VERIF = env.VERIF


class Violation(Exception):
    """The property does not hold for this case."""
    def __init__(self, key, msg, **detail):
        super().__init__(msg)
        self.key, self.msg, self.detail = key, msg, detail


class Skip(Exception):
    """Case outside of the admissible domain."""


class Mon:
    """What the monitors of one case saw."""
    def __init__(self, idx=0):
        self.idx = idx
        self.n = collections.Counter()
        self.distinct = set()
        self.sample = None
        self.evals = 0
        self.soft = []

    def count(self, name, k=1):
        self.n[name] += int(k)

    def ev(self, sig=None, nontrivial=True):
        """one oracle evaluation; sig identifies the situation judged"""
        self.evals += 1
        if nontrivial and sig is not None:
            self.distinct.add(hashlib.md5(repr(sig).encode()).hexdigest()[:12])

    def describe(self, **k):
        self.sample = k

    def fail(self, key, msg, **detail):
        raise Violation(key, msg, **detail)

    def check(self, cond, key, msg, **detail):
        if not cond:
            raise Violation(key, msg, **detail)

    def note(self, key, msg, **detail):
        """a violation that must not stop the case"""
        self.soft.append((key, msg, detail))


def _short(x, lim=1500):
    import numpy as np
    if isinstance(x, np.ndarray):
        x = x.tolist()
    s = repr(x)
    return s if len(s) <= lim else s[:lim] + '...'


_MODULE = None
_ARGS = None


def shim_limit(tb, exc):
    """True when a stand-in, rather than the library, gave up."""
    if isinstance(exc, ImportError):
        return True
    frames = traceback.extract_tb(tb)
    if frames and '/lib/shims/' in frames[-1].filename and isinstance(
            exc, (NotImplementedError, AttributeError, KeyError)):
        return True
    if isinstance(exc, AttributeError):
        m = str(exc)
        if any(("module '" + s) in m for s in ('numba', 'sklearn', 'joblib', 'aeon', 'matplotlib',
                                               'seaborn', 'pandas', 'networkx', 'scipy', 'numpy')):
            return True
    return False


def run_one(idx):
    import numpy as np
    seed, tier = _ARGS
    mon = Mon(idx)
    t0 = time.time()
    rng = np.random.default_rng([seed, int(_MODULE.ID[1:]), idx])
    out = dict(idx=idx, status='ok', key=None, msg=None)
    viol = []
    try:
        _MODULE.case(rng, tier, mon)
    except Violation as v:
        viol.append((v.key, v.msg, v.detail))
    except Skip:
        out['status'] = 'skip'
    except KeyboardInterrupt:
        raise
    except MemoryError:
        out['status'] = 'inconclusive'
        out['msg'] = 'out of memory'
    except Exception as e:
        tb = e.__traceback__
        text = ''.join(traceback.format_exception(type(e), e, tb))
        files = [f.filename for f in traceback.extract_tb(tb)]
        inlib = any(os.path.realpath(f).startswith(os.path.realpath(os.path.join(env.REPO, 'convst')))
                    for f in files)
        if shim_limit(tb, e):
            out['status'] = 'inconclusive'
            out['msg'] = text
        elif inlib:
            loc = [f for f in traceback.extract_tb(tb)
                   if os.path.realpath(f.filename).startswith(os.path.realpath(env.REPO))][-1]
            viol.append(('exception:%s' % type(e).__name__,
                         'the library raised %s: %s in %s' % (type(e).__name__, str(e)[:300], loc.name),
                         dict(traceback=text)))
        else:
            out['status'] = 'error'
            out['msg'] = text
    out['viol'] = [(k, m, {a: _short(b, 4000) for a, b in d.items()}) for k, m, d in viol + mon.soft]
    if out['viol']:
        out['status'] = 'violation'
    out['n'] = dict(mon.n)
    out['evals'] = mon.evals
    out['distinct'] = list(mon.distinct)
    out['sample'] = {k: _short(v, 400) for k, v in (mon.sample or {}).items()}
    out['t'] = time.time() - t0
    return out


def run_many(idx):
    return [run_one(i) for i in idx]


def load_known():
    """known: property=<id> key=<key> ...   /   fixed: property=<id> ..."""
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                f = dict(x.split('=', 1) for x in line[6:].split() if '=' in x and x.split('=', 1)[0] in ('property', 'key'))
                known[(f['property'], f['key'])] = line[6:].strip()
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', type=int)
    ap.add_argument('--cases', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay:
        d = json.load(open(a.replay))
        seed, a.tier, a.case = d['seed'], d['tier'], d['idx']
    t0 = time.time()
    global _MODULE, _ARGS
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    try:
        _MODULE = importlib.import_module(a.prop.lower())
        if hasattr(_MODULE, 'prepare'):
            _MODULE.prepare(a.tier)
    except Exception:
        traceback.print_exc()
        print('ERROR: the check could not be set up')
        sys.exit(3)
    _ARGS = (seed, a.tier)
    if a.case is not None:
        r = run_one(a.case)
        print(json.dumps({k: v for k, v in r.items() if k not in ('viol', 'distinct')}, indent=1, default=str))
        if r['status'] in ('error', 'inconclusive'):
            print(r['msg'])
        for k, m, d in r['viol']:
            print('VIOLATION property=%s replay=%s' % (_MODULE.ID, a.replay or 'case:%d' % a.case))
            print(k, m)
            for q, v in d.items():
                print('  ', q, '=', v)
        sys.exit(1 if r['viol'] else 0)
    ncases, budget = _MODULE.BUDGET[a.tier]
    if a.cases:
        ncases = a.cases
    if a.budget:
        budget = a.budget
    results = []
    ctx = mp.get_context('fork')
    with ctx.Pool(a.jobs, maxtasksperchild=getattr(_MODULE, 'TASKS', None)) as pool:
        ch = getattr(_MODULE, 'CHUNK', 1)
        it = pool.imap_unordered(run_many, [range(i, min(ncases, i + ch)) for i in range(0, ncases, ch)])
        stopped = False
        while True:
            try:
                left = budget - (time.time() - t0)
                r = it.next(timeout=max(0.05, left))
            except StopIteration:
                break
            except mp.TimeoutError:
                stopped = True
                pool.terminate()
                break
            results += r
            if sum(1 for x in results if x['status'] == 'violation') >= 24:
                pool.terminate()
                break
    results.sort(key=lambda r: r['idx'])
    tot = collections.Counter()
    distinct = set()
    status = collections.Counter()
    for r in results:
        tot.update(r['n'])
        distinct.update(r['distinct'])
        status[r['status']] += 1
    evals = sum(r['evals'] for r in results)
    known = load_known()
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    new, seen_known, printed = 0, {}, 0
    for r in results:
        for k, m, d in r['viol']:
            if (_MODULE.ID, k) in known:
                seen_known.setdefault(k, m)
                continue
            new += 1
            if printed < 8:
                path = os.path.join('evidence', 'replay', '%s-%s-%d.json' % (_MODULE.ID, a.tier, r['idx']))
                with open(os.path.join(VERIF, path), 'w') as f:
                    json.dump(dict(property=_MODULE.ID, tier=a.tier, seed=seed, idx=r['idx'], key=k, message=m,
                                   detail=d, replay='./check %s --replay %s' % (_MODULE.ID, path)), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (_MODULE.ID, path))
                print('   [%s] %s' % (k, m[:600]))
                printed += 1
    for (p, k), line in sorted(known.items()):
        if p == _MODULE.ID:
            print('KNOWN-FINDING: %s%s' % (line, ' (seen: %s)' % seen_known[k][:200] if k in seen_known else ''))
    samples = [dict(case=r['idx'], **r['sample']) for r in results if r['sample']][:6]
    wall = time.time() - t0
    cov = dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=_MODULE.RULE, samples=samples,
               cases=len(results), case_status=dict(status), monitors=dict(sorted(tot.items())),
               cases_planned=ncases, stopped_by_time=stopped)
    ev = dict(property=_MODULE.ID, tier=a.tier, seed=seed, level='exploration', coverage=cov,
              assumptions=getattr(_MODULE, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS, wall_s=round(wall, 2),
              violations=new)
    with open(os.path.join(VERIF, 'evidence', _MODULE.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases %s, %d oracle evaluations, %d distinct situations, %.1fs' % (
        _MODULE.ID, a.tier, seed, len(results), dict(status), evals, len(distinct), wall))
    if a.verbose:
        print(json.dumps(cov['monitors'], indent=1))
        ts = sorted(results, key=lambda r: -r['t'])[:5]
        print('slowest', [(r['idx'], round(r['t'], 2)) for r in ts])
    if new:
        sys.exit(1)
    bad = [r for r in results if r['status'] in ('error', 'inconclusive')]
    if bad:
        print('INCONCLUSIVE: %d cases could not be judged; first:\n%s' % (len(bad), bad[0]['msg']))
        # harness errors always matter; a stand-in that is too poor only when nothing else was judged
        if any(r['status'] == 'error' for r in bad) or status['ok'] == 0:
            sys.exit(3)
    if not any(r['status'] == 'ok' for r in results):
        print('nothing was judged')
        sys.exit(3)
    sys.exit(0)


COMMON_ASSUMPTIONS = [
    'compiled kernels are executed by the Python interpreter (the JIT compiler is not installed): floating '
    'point re-association by fast math, and typing errors of the compiler, are not observed',
    'scikit-learn, joblib, aeon, matplotlib and seaborn are stand-ins with the same contracts',
]

if __name__ == '__main__':
    main()
