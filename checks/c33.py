"""Monitor of the documented workflows: the shipped examples and scripts are run as written on stand-in archives."""
import contextlib
import io
import os
import re
import shutil
import sys
import tempfile
import time
import numpy as np
from vlib import env, gen
from vlib.runner import Skip, Violation

ID = 'C33'
RULE = ('one evaluation = one documented program run to its end, one printed accuracy, one row of the results table, or one '
        'resumed row judged; distinct = (program, data kind, classes, models, crash point) situations')
BUDGET = {'quick': (160, 80), 'thorough': (6000, 600)}
CHUNK = 1
ASSUMPTIONS = ['the archive is a stand-in with generated datasets; numbers of shapelets, splits and datasets written in the '
               'programs are lowered before running them',
               'scripts marked as not yet updated to the present interface in PaperScripts/README.md are no documented workflow']


def prepare(tier):
    env.setup()


def text(rel):
    p = os.path.join(env.REPO, rel)
    return open(p, encoding='utf-8').read() if os.path.exists(p) else None


def readme_blocks():
    return re.findall(r'^```python\s*$(.*?)^```', text('README.md') or '', re.S | re.M)


def index_block():
    t = text('docs/index.rst') or ''
    out = []
    for b in re.findall(r'^\.\. code-block:: python\s*$\n(.*?)(?=^\S)', t, re.S | re.M):
        lines = b.split('\n')
        out.append('\n'.join(l[4:] if l.startswith('    ') else l for l in lines))
    return out


def smaller(code, n):
    return re.sub(r'\b10_?000\b', str(n), code)


def archive(rng, kind, names, small=False):
    """datasets of the archive's form: string labels, any class in both parts"""
    from aeon import datasets
    datasets.DATA.clear()
    out = {}
    for nm in names:
        k = int(rng.integers(2, 4))
        t = int(rng.integers(14, 26))
        ft = int(rng.integers(2, 4)) if kind in ('m', 'mv') else 1
        lab = np.array([['1', '2', '3'], ['a', 'b', 'c'], ['10', '9', '11'], ['-1', '1', '0']][int(rng.integers(0, 4))])[:k]

        def part():
            n = int(rng.integers(k + 1, 7 if small else 12)) if not small else int(rng.integers(k + 2, k + 5))
            y = rng.permutation(np.concatenate([np.arange(k), rng.integers(0, k, size=n - k)]))
            X = gen.dataset(rng, kind, n, ft, t, 'normal')
            for x, c in zip(X, y):
                p = int(rng.integers(0, x.shape[1] - 6))
                x[0, p:p + 6] += [0, 4, -4][c] * np.array([0, 1, 2, 2, 1, 0.])
            return X, lab[y]
        tr, te = part(), part()
        if kind in ('uv', 'mv'):
            m = min(x.shape[1] for x in list(tr[0]) + list(te[0]))
            tr[0][0] = tr[0][0][:, :m]
        out[nm] = datasets.DATA[nm] = dict(train=tr, test=te)
    return out


def case(rng, tier, mon):
    mode = ['readme', 'scores', 'ucr', 'scores', 'index', 'scores', 'options', 'scores'][mon.idx % 8]
    if mode == 'readme':
        return readme(rng, mon, readme_blocks(), 'README')
    if mode == 'index':
        return readme(rng, mon, index_block(), 'docs/index')
    if mode == 'ucr':
        return ucr(rng, mon)
    if mode == 'options':
        return options(rng, mon)
    return scores(rng, mon)


def run(code, ns, mon, what):
    """executes a documented program as written; what it prints"""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            exec(compile(code, what, 'exec'), ns)
    except ImportError as e:
        # a name the library does not have; a missing third party is the stand-ins' limit
        if 'convst' in str(e) or 'convst' in str(getattr(e, 'name', '')):
            mon.fail('import', '%s: %s' % (what, e), program=code)
        raise
    except Violation:
        raise
    except Crash:
        raise
    except Exception as e:
        import traceback
        from vlib.runner import shim_limit
        if shim_limit(e.__traceback__, e):
            raise
        mon.fail('exception', '%s raised %s: %s' % (what, type(e).__name__, str(e)[:300]), program=code,
                 traceback=traceback.format_exc())
    mon.count('programs_run')
    return out.getvalue()


class Crash(Exception):
    pass


def accuracy_lines(s):
    return [float(v) for v in re.findall(r'Accuracy Score for RDST : ([0-9.eE+-]+)', s)]


def readme(rng, mon, blocks, what):
    if not blocks:
        mon.count('no_blocks')
        raise Skip
    kind = str(rng.choice(gen.KINDS))
    data = archive(rng, kind, ['GunPoint'])
    (Xa, ya), (Xb, yb) = data['GunPoint']['train'], data['GunPoint']['test']
    enc = {c: i for i, c in enumerate(np.unique(ya))}
    ns = {'__name__': '__main__'}
    mon.describe(program=what, kind=kind, train=len(ya), test=len(yb), classes=len(enc))
    for i, b in enumerate(blocks):
        seen = accuracy_lines(run(smaller(b, int(rng.integers(10, 40))), ns, mon, '%s[%d]' % (what, i)))
        models = re.findall(r'^(\w+)\s*=\s*R_DST_\w+\(', b, re.M)
        for nm, acc in zip(models, seen):
            T = Xb
            if 'normalize=True' in b:
                T = [(np.asarray(x) - np.mean(x, axis=1, keepdims=True)) / (np.std(x, axis=1, keepdims=True) + 1e-8) for x in Xb]
                T = T if isinstance(Xb, list) else np.stack(T)
            mon.check(all(np.allclose(p, q) for p, q in zip(T, ns['X_test'])) and len(T) == len(ns['X_test']), 'test-set',
                      '%s loads another test set' % what)
            p = np.asarray(ns[nm].predict(ns['X_test']))
            mon.check(set(p.tolist()) <= set(enc.values()), 'labels', '%s predicts labels %s' % (what, sorted(set(p.tolist()))))
            want = float(np.mean([int(a) == enc[c] for a, c in zip(p, yb)]))
            mon.check(abs(acc - want) < 1e-9, 'accuracy', '%s prints the accuracy %r of predictions that are right %r of the '
                      'time' % (what, acc, want))
            mon.count('accuracies')
            mon.ev((what, i, kind, len(enc), len(models)))
        mon.check(len(seen) == b.count('print('), 'printed', '%s[%d] printed %d accuracies' % (what, i, len(seen)), program=b)


def ucr(rng, mon):
    code = text('examples/UCR_example.py')
    if code is None:
        raise Skip
    from matplotlib import pyplot as plt
    data = archive(rng, 'u', ['GunPoint'])
    (Xa, ya), (Xb, yb) = data['GunPoint']['train'], data['GunPoint']['test']
    enc = {c: i for i, c in enumerate(np.unique(ya))}
    plt.reset()
    ns = {'__name__': '__main__'}
    mon.describe(program='UCR_example', train=len(ya), test=len(yb))
    seen = accuracy_lines(run(smaller(code, int(rng.integers(15, 40))), ns, mon, 'examples/UCR_example.py'))
    p = np.asarray(ns['rdst'].predict(Xb))
    want = float(np.mean([int(a) == enc[c] for a, c in zip(p, yb)]))
    mon.check(len(seen) == 1 and abs(seen[0] - want) < 1e-9, 'accuracy', 'the example prints %s, the accuracy is %r' % (seen, want))
    mon.check(len(plt.FIGS) >= 2, 'figures', 'the example draws %d figures, for the training and for the test set' % len(plt.FIGS))
    drawn = sum(1 for f in plt.FIGS for a in f.axes if a.calls or a.drawn)
    mon.count('axes_drawn', drawn)
    mon.check(drawn > 0, 'figures', 'nothing is drawn')
    full = [[a.of('sns.boxplot')[0][2] for a in f.axes if a.of('sns.boxplot')] for f in plt.FIGS]
    full = [b for b in full if len(b) == 3]
    mon.check(len(full) == 2, 'figures', '%d figures with the three features' % len(full))
    for b, (X, y), part in zip(full, ((Xa, ya), (Xb, yb)), ('training', 'test')):
        F = np.asarray(ns['rdst'].transformer.transform(X))
        cols = [np.asarray(c['y'], dtype=float) for c in b]
        mon.check(any(all(np.array_equal(cols[j], F[:, 3 * i + j]) for j in range(3)) for i in range(F.shape[1] // 3)), 'drawn',
                  'the figure of the %s part shows what is not the features of a shapelet on it' % part)
        grp = (np.array([enc[c] for c in y]) == 1).astype(int)
        mon.check(all(np.array_equal(np.asarray(c['x']).astype(int), grp) for c in b), 'drawn',
                  'the groups drawn for the %s part are not the members of the target class' % part)
        mon.ev(('drawn', part, len(enc)))
    mon.ev(('ucr', len(enc), len(plt.FIGS)))


def options(rng, mon):
    code = text('examples/Changing_numba_options.py')
    if code is None:
        raise Skip
    from vlib import nbrt
    old = {k: v for k, v in sys.modules.items() if k == 'convst' or k.startswith('convst.')}
    for k in old:
        del sys.modules[k]
    del nbrt.dispatchers[:]
    try:
        out = run(code, {'__name__': '__main__'}, mon, 'examples/Changing_numba_options.py')
        mon.describe(program='Changing_numba_options', printed=out[:300])
        shown = dict(re.findall(r"'(\w+)': (True|False)", out))
        mon.check(shown.get('parallel', 'False') == 'False', 'options', 'parallelism is still on: %s' % out)
        mon.check(shown.get('cache', 'False') == 'False', 'options', 'caching is still on: %s' % out)
        for d in nbrt.dispatchers:
            for o in ('parallel', 'cache'):
                mon.check(not d.targetoptions.get(o, False), 'options', '%s is compiled with %s' % (d.__name__, o))
            mon.ev(('options', d.__name__))
    finally:
        for k in [k for k in sys.modules if k == 'convst' or k.startswith('convst.')]:
            del sys.modules[k]
        sys.modules.update(old)


def key(x):
    x = np.ascontiguousarray(np.asarray(x, dtype=np.float64))
    return (x.shape, x.tobytes())


def scores(rng, mon):
    """the script behind the published tables: every dataset and model, also after a crash"""
    code = text('PaperScripts/test_models.py')
    if code is None:
        raise Skip
    import pandas as pd
    import convst.utils.dataset_utils as D
    import convst.classifiers as C
    kind = str(rng.choice(['u', 'u', 'uv', 'm', 'mv']))
    lister = 'return_all_univariate_dataset_names'
    n_d = int(rng.integers(1, 4))
    names = np.array(['Data%c' % c for c in rng.permutation(list('ABCDEFG'))[:n_d]])
    data = archive(rng, kind, list(names), small=True)
    n_cv = int(rng.integers(1, 4))
    code = re.sub(r'^n_cv\s*=\s*\d+', 'n_cv = %d' % n_cv, code, flags=re.M)
    models = re.findall(r'^\s*"(\w+)"\s*:\s*R_DST_\w+', code, re.M)
    rows = [(d, m) for d in names for m in models]
    total = len(rows) * n_cv
    crash = int(rng.integers(1, total + 1)) if rng.random() < 0.6 else None
    mon.describe(program='test_models', kind=kind, datasets=list(names), models=models, splits=n_cv, crash_at=crash)
    truth = {}
    for nm in names:
        for X, y in data[nm].values():
            enc = {c: i for i, c in enumerate(np.unique(data[nm]['train'][1]))}
            for x, c in zip(X, y):
                truth.setdefault(key(x), set()).add(enc[c])
    log, depth, state = [], [0], dict(fits=0, crash=crash, main=False)
    # resampled parts of variable-length data may be shorter than the training part: not for the real models
    quick = rng.random() < 0.85 or kind in ('uv', 'mv') and n_cv > 1
    pause = 0.03 if rng.random() < 0.4 else 0
    orig = {}

    def patch(cls, tag):
        f, p = cls.fit, cls.predict
        orig[cls] = (f, p)

        def fit(self, X, y, *a, **k):
            if depth[0]:
                return f(self, X, y, *a, **k)
            real = len(X) != 5 or np.asarray(X[0]).shape != (3, 50)
            if real:
                state['fits'] += 1
                if state['crash'] == state['fits']:
                    raise Crash()
                log.append(dict(t0=time.perf_counter(), tag=tag, n=len(X), X=[key(x) for x in X], y=np.array(y), pred=None, test=None, jobs=self.n_jobs))
                for par in ('n_shapelets', 'n_shapelets_per_estimator'):
                    if hasattr(self, par):
                        setattr(self, par, 6)
            if real and pause:
                time.sleep(pause)
            if quick and real:
                self._labels = np.unique(y)
                return self
            depth[0] += 1
            try:
                return f(self, X, y, *a, **k)
            finally:
                depth[0] -= 1

        def predict(self, X, *a, **k):
            if depth[0]:
                return p(self, X, *a, **k)
            real = len(X) != 5 or np.asarray(X[0]).shape != (3, 50)
            if quick and real:
                r = self._labels[rng.integers(0, len(self._labels), size=len(X))]
            else:
                depth[0] += 1
                try:
                    r = p(self, X, *a, **k)
                finally:
                    depth[0] -= 1
            if real:
                log[-1]['pred'], log[-1]['test'] = np.array(r), [key(x) for x in X]
                log[-1]['t1'] = time.perf_counter()
            return r
        cls.fit, cls.predict = fit, predict
    d = tempfile.mkdtemp(prefix='c33-')
    cwd = os.getcwd()
    listed = getattr(D, lister)
    try:
        os.chdir(d)
        setattr(D, lister, lambda: names.copy())
        for nm in ('R_DST_Ridge', 'R_DST_Ensemble'):
            patch(getattr(C, nm), nm)
        begin = time.perf_counter()
        if crash is not None:
            try:
                run(code, {'__name__': '__main__'}, mon, 'PaperScripts/test_models.py')
                mon.fail('splits', 'fewer than %d models were fitted for %d rows of %d splits' % (crash, len(rows), n_cv))
            except Crash:
                mon.count('crashes_injected')
            state['crash'] = None
            done = judge(mon, d, rows, log, n_cv, truth, (crash - 1) // n_cv, kind, begin)
            del log[:]
            begin = time.perf_counter()
            again = re.sub(r'^resume\s*=\s*False', 'resume=True', code, flags=re.M)
            run(again, {'__name__': '__main__'}, mon, 'PaperScripts/test_models.py (resumed)')
            judge(mon, d, rows, log, n_cv, truth, len(rows), kind, begin, done)
        else:
            run(code, {'__name__': '__main__'}, mon, 'PaperScripts/test_models.py')
            judge(mon, d, rows, log, n_cv, truth, len(rows), kind, begin)
    finally:
        for cls, (f, p) in orig.items():
            cls.fit, cls.predict = f, p
        setattr(D, lister, listed)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def judge(mon, d, rows, log, n_cv, truth, finished, kind, start, before=None):
    """the table on disk against the recorded fits; rows already finished must not be evaluated again"""
    import pandas as pd
    files = [f for f in os.listdir(d) if f.endswith('.csv')]
    mon.check(len(files) == 1, 'table', 'files written: %s' % files)
    t = pd.read_csv(os.path.join(d, files[0]), index_col=0)
    mon.check(len(t) == len(rows), 'rows', '%d rows for %d datasets and models' % (len(t), len(rows)))
    log, out = list(log), {}
    for i, r in enumerate(log):
        r['prev'] = log[i - 1].get('t1', start) if i else start
        r['next'] = log[i + 1]['t0'] if i + 1 < len(log) else time.perf_counter()
    for i, (nm, model) in enumerate(rows[:finished]):
        got = t.iloc[i]
        if before is not None and i in before and before[i][0] != 0:
            mon.check(abs(got['acc_mean'] - before[i][0]) < 1e-9 and abs(got['time_mean'] - before[i][1]) < 1e-9 * (1 + before[i][1]),
                      'resume', 'row %d was finished before the crash but changed' % i)
            mon.count('rows_kept')
            mon.ev(('kept', i, len(rows), n_cv))
        else:
            mine, log = log[:n_cv], log[n_cv:]
            mon.check(len(mine) == n_cv and all(r['pred'] is not None for r in mine), 'splits',
                      'row %d: %d of %d splits evaluated' % (i, len(mine), n_cv))
            mon.check(all(r['tag'].startswith(model) or model.startswith('R_DST') for r in mine), 'model', 'row %d' % i)
            acc = []
            for r in mine:
                if any(len(truth[k]) != 1 for k in r['test']):
                    raise Skip
                acc.append(np.mean([int(p) == next(iter(truth[k])) for p, k in zip(r['pred'], r['test'])]))
            mon.check(abs(got['acc_mean'] - np.mean(acc)) < 1e-9, 'accuracy', 'row %d reports mean accuracy %r, predictions are '
                      'right %r' % (i, got['acc_mean'], np.mean(acc)), accuracies=acc)
            sd = [np.std(acc)] + ([np.std(acc, ddof=1)] if n_cv > 1 else [])
            mon.check(any(abs(got['acc_std'] - v) < 1e-9 for v in sd) or n_cv == 1 and np.isnan(got['acc_std']), 'accuracy', 'row %d reports deviation %r of %s' % (i, got['acc_std'], acc))
            mon.check(got['time_mean'] > 0 and not got['time_std'] < 0, 'time', 'row %d reports times %r, %r' % (
                i, got['time_mean'], got['time_std']))
            # a split takes at least from its fit to its predictions, and at most from the split before to the one after
            lo = np.mean([r['t1'] - r['t0'] for r in mine])
            hi = np.mean([r['next'] - r['prev'] for r in mine])
            mon.check(lo * (1 - 1e-6) <= got['time_mean'] <= hi * (1 + 1e-6), 'time', 'row %d reports the mean time %r, splits took between '
                      '%r and %r' % (i, got['time_mean'], lo, hi))
            mon.count('rows_judged')
            mon.ev((kind, i, len(rows), n_cv, model, before is not None))
        mon.check(got['dataset'] == nm and got['model'] == model, 'row-name', 'row %d is named %s, %s instead of %s, %s' % (
            i, got['dataset'], got['model'], nm, model))
        out[i] = (float(got['acc_mean']), float(got['time_mean']))
    if before is not None or finished == len(rows):
        mon.check(not log, 'splits', '%d surplus evaluations' % len(log))
    return out
