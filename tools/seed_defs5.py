"""Planted bugs, fifth batch."""
from seed_defs4 import *  # noqa
from seed_defs import s, FIT, T
from seed_defs2 import JUDGE, USL, UVL, MSL, MVL, COM, RDST, INP, ENS, RID, EXP, DAT, PLT, CHK, NUM, INT
from seed_defs4 import CL

ARCH = '''
import aeon.datasets as ad
r = np.random.default_rng(0)
'''
s('c33-time-total', 'C33', EXP,
  [("            t0 = timer()\n            pipeline =", "            t0 = timer() if i == 0 else t0\n            pipeline =")],
  'two or more splits', 'the time of a split includes all splits before it, so mean and deviation of time are wrong', ARCH + '''
import time
X = r.normal(size=(12, 1, 9)); y = np.array(['a', 'b'] * 6)
ad.DATA['d'] = dict(train=(X[:6].copy(), y[:6]), test=(X[6:].copy(), y[6:]))
from convst.utils.experiments_utils import cross_validate_UCR_UEA


class P:
    def fit(self, X, y):
        time.sleep(0.3)
        return self

    def predict(self, X):
        return np.zeros(len(X), int)


t = np.asarray(cross_validate_UCR_UEA(3, 'd').score(P())['time'])
assert t[2] < 0.55, t
''', 'pypy')

s('c33-test-unnormalised', 'C33', DAT,
  [("        X_train = z_norm_3D_list(X_train)\n        X_test = z_norm_3D_list(X_test)\n", "        X_train = z_norm_3D_list(X_train)\n        X_train = z_norm_3D_list(X_train)\n")],
  'variable-length data loaded with normalisation, as a documented program may', 'the test part is left unnormalised', ARCH + '''
tr = [r.normal(5, 3, size=(1, t)) for t in (8, 9, 10, 11)]
te = [r.normal(5, 3, size=(1, t)) for t in (8, 9, 10, 11)]
y = np.array(['a', 'b'] * 2)
ad.DATA['d'] = dict(train=(tr, y), test=(te, y))
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
a, b, _, _, _ = load_UCR_UEA_dataset_split('d', normalize=True)
assert all(abs(np.mean(x)) < 1e-9 for x in list(a) + list(b)), [np.mean(x) for x in b]
''', 'pypy')

s('c33-score-transposed-weights', 'C33', RID,
  [("        return accuracy_score(y, preds)", "        return accuracy_score(y[: len(set(preds)) * (len(y) // len(set(preds)))], preds[: len(set(preds)) * (len(y) // len(set(preds)))])")],
  'a test part whose size is no multiple of the number of predicted classes', 'the last predictions are left out of the printed accuracy', CL + '''
rng = np.random.default_rng(0)
X = rng.normal(size=(12, 1, 20)); y = np.arange(12) % 2
X[y == 1, :, 5:10] += 8
c = R_DST_Ridge(n_shapelets=20, shapelet_lengths=[5], random_state=0).fit(X, y)
t = y[:7].copy(); t[6] = 1 - t[6]
p = c.predict(X[:7])
assert abs(c.score(X[:7], t) - (p == t).mean()) < 1e-12, (c.score(X[:7], t), (p == t).mean())
''')

s('c34-transformer-of-ridge', 'C34', RID,
  [("            n_jobs=False,\n", "            n_jobs=1,\n")],
  'a ridge classifier with more than one job', 'its transformer silently goes back to a single thread', CL + '''
seen = set()
nbrt.on_region = lambda fn, w, n: seen.add(w) or (lambda: None)
X = np.random.default_rng(0).normal(size=(8, 1, 20)); y = np.arange(8) % 2
R_DST_Ridge(n_shapelets=10, shapelet_lengths=[5], random_state=0, n_jobs=3).fit(X, y).predict(X)
assert seen == {3}, seen
''')

s('c34-oversubscription', 'C34', ENS,
  [("                        n_jobs=False,\n", "                        n_jobs=self.n_jobs,\n")],
  'an ensemble with more than one job', 'each member uses all jobs, so the ensemble uses jobs times members threads', CL + '''
import threading
import joblib
import time
joblib.MODE[0] = 'threads'
lock, active, peak = threading.Lock(), {}, [0]


def on(fn, w, n):
    t = threading.get_ident()
    with lock:
        active[t] = w
        peak[0] = max(peak[0], sum(active.values()))
    time.sleep(0.02)
    return lambda: active.pop(t, None)


nbrt.on_region = on
X = np.random.default_rng(0).normal(size=(8, 1, 24)); y = np.arange(8) % 2
R_DST_Ensemble(n_shapelets_per_estimator=5, shapelet_lengths=[5], random_state=0, n_jobs=4).fit(X, y)
assert 0 < peak[0] <= 4, peak
''')

s('c34-negative-all', 'C34', CHK,
  [("    elif n_jobs < 0:\n", "    elif n_jobs < 0 and (n_jobs := -1):\n")],
  'a negative number of jobs other than -1', 'all processors are used instead of leaving some free', CL + '''
import os
if (os.cpu_count() or 1) > 2:
    seen = set()
    nbrt.on_region = lambda fn, w, n: seen.add(w) or (lambda: None)
    X = np.random.default_rng(0).normal(size=(8, 1, 20)); y = np.arange(8) % 2
    R_DST_Ridge(n_shapelets=10, shapelet_lengths=[5], random_state=0, n_jobs=-2).fit(X, y).predict(X)
    assert max(seen) == os.cpu_count() - 1, seen
''')

s('c34-jobs-kept', 'C34', ENS,
  [("        total_jobs = check_n_jobs(self.n_jobs)\n", "        total_jobs = self.__dict__.setdefault('total_jobs', check_n_jobs(self.n_jobs))\n")],
  'an ensemble whose job count is changed after a first fit', 'the changed job count is ignored', CL + '''
seen = set()
nbrt.on_region = lambda fn, w, n: seen.add(w) or (lambda: None)
X = np.random.default_rng(0).normal(size=(8, 1, 24)); y = np.arange(8) % 2
c = R_DST_Ensemble(n_shapelets_per_estimator=5, shapelet_lengths=[5], random_state=0, n_jobs=6).fit(X, y)
seen.clear()
c.set_params(n_jobs=1).fit(X, y)
assert seen == {1}, seen
''')

s('c31-default-lengths', 'C31', RID,
  [("        shapelet_lengths=[11],", "        shapelet_lengths=[12],")],
  'a ridge classifier built with the documented defaults', 'the default length is not the documented one', CL + '''
assert list(R_DST_Ridge().shapelet_lengths) == [11]
''')

s('c31-default-weight', 'C31', ENS,
  [(".8, 0.8, 0.8],", ".8, 0.8, 0.9],")],
  'an ensemble built with the documented defaults', 'one member normalises more of its shapelets than documented', CL + '''
assert list(R_DST_Ensemble().proba_norm) == [0.8] * 3
''')

s('c33-first-features', 'C33', INT,
  [("        X_new = self.RDST_Ridge.transformer.transform(X)\n", "        X_new = self.__dict__.setdefault('_X_new', self.RDST_Ridge.transformer.transform(X))\n")],
  'drawing two datasets with the same interpreter, as the example does', 'the second figure shows the features of the first dataset', CL + """
from convst.interpreters import RDST_Ridge_interpreter
from matplotlib import pyplot as plt
rng = np.random.default_rng(0)
X = rng.normal(size=(12, 1, 20)); y = np.arange(12) % 2
c = R_DST_Ridge(n_shapelets=20, shapelet_lengths=[5], random_state=0).fit(X, y)
it = RDST_Ridge_interpreter(c)
del plt.FIGS[:]
it.visualize_best_shapelets_one_class(X[:6], y[:6], 1)
it.visualize_best_shapelets_one_class(X[6:], y[6:], 1)
cols = [[a.of('sns.boxplot')[0][2]['y'] for a in f.axes if a.of('sns.boxplot')] for f in plt.FIGS]
assert not np.array_equal(cols[0][0], cols[1][0])
F = c.transformer.transform(X[6:])
assert all(any(np.array_equal(v, F[:, j]) for j in range(F.shape[1])) for v in cols[1])
""")

s('c12-global-reseeded', 'C12', RDST,
  [("        seed = rng.randint(np.iinfo(np.uint32).max, dtype='u8')\n", "        np.random.seed(rng.randint(2 ** 31 - 1))\n        seed = np.random.randint(np.iinfo(np.uint32).max, dtype='u8')\n")],
  'a program that also draws from the global generator', 'every fit restarts the global generator, so other draws of the program repeat', CL + """
X = np.random.default_rng(0).normal(size=(8, 1, 20)); y = np.arange(8) % 2
v = []
np.random.seed(5)
for _ in range(2):
    R_DST(n_shapelets=5, shapelet_lengths=[5], random_state=0).fit(X, y)
    v.append(np.random.random())
assert v[0] != v[1], v
""")

BESIDE = CL + """
import sys
import threading


def beside(f, g, expected, every=1):
    \"\"\"f interrupted by g, in another thread, at each line of its host code\"\"\"
    k = 0
    while True:
        count, done = [0], [False]

        def line(frame, event, arg):
            if event == 'line':
                count[0] += 1
                if count[0] == k + 1 and not done[0]:
                    done[0] = True
                    t = threading.Thread(target=g)
                    t.start()
                    t.join()
            return line

        def call(frame, event, arg):
            n = frame.f_code.co_filename
            return line if '/convst/' in n and not nbrt.tls.stack else None
        out = []

        def run():
            sys.settrace(call)
            out.append(f())
        t = threading.Thread(target=run)
        t.start()
        t.join()
        assert out and expected(out[0]), 'interrupted at line event %d' % k
        if not done[0]:
            break
        k += every
    assert k > 0, k


X = np.random.default_rng(0).normal(size=(10, 1, 24)); y = np.arange(10) % 2
X[y == 1, :, 5:10] += 3
"""

s('c35-padding-buffer', 'C35', RDST,
  [("            X_new = np.zeros((len(X), n_ft[0], lengths.max()))\n", "            shape = (len(X), n_ft[0], lengths.max())\n            if getattr(self, '_padded', np.empty(0)).shape != shape:\n                self._padded = np.zeros(shape)\n            X_new = self._padded\n            X_new[:] = 0\n")],
  'one transformer used by two threads on variable-length batches of equal shape', 'the padded batch of one thread is overwritten by the other', BESIDE + """
m = R_DST(transform_type='univariate_variable', n_shapelets=5, shapelet_lengths=[5], random_state=0).fit(X, y)
A, B = X[:4], X[4:8]
want = m.transform(A)
beside(lambda: m.transform(A), lambda: m.transform(B), lambda o: np.array_equal(o, want))
""")

s('c35-votes-on-self', 'C35', ENS,
  [("        preds_proba = Parallel(\n", "        self.preds_proba_ = Parallel(\n"),
   ("        preds_proba = np.asarray(preds_proba).sum(axis=0)\n", "        preds_proba = np.asarray(self.preds_proba_).sum(axis=0)\n")],
  'one ensemble used for predictions by two threads', 'a thread gets the predictions for the series of the other', BESIDE + """
e = R_DST_Ensemble(n_shapelets_per_estimator=5, shapelet_lengths=[5], random_state=0).fit(X, y)
want = e.predict(X[:6])
beside(lambda: e.predict(X[:6]), lambda: e.predict(X[6:]), lambda o: np.array_equal(o, want))
""")

s('c35-borrowed-generator', 'C35', RDST,
  [("        rng = check_random_state(self.random_state)\n        seed = rng.randint(np.iinfo(np.uint32).max, dtype='u8')\n",
    "        rng = check_random_state(self.random_state)\n        if rng is not self.random_state:\n            state = np.random.get_state()\n            np.random.set_state(rng.get_state())\n            seed = np.random.randint(np.iinfo(np.uint32).max, dtype='u8')\n            np.random.set_state(state)\n        else:\n            seed = rng.randint(np.iinfo(np.uint32).max, dtype='u8')\n")],
  'two fits in two threads at the same time', 'a fit draws its seed from the other fit\'s random state', CL + """
import sys
import threading
X = np.random.default_rng(0).normal(size=(10, 1, 24)); y = np.arange(10) % 2
fit = lambda s: R_DST(n_shapelets=4, shapelet_lengths=[5], random_state=s).fit(X, y)
want = [fit(3).shapelets_[0], fit(8).shapelets_[0]]


def traced(f, at):
    # at[k] is called before the k-th line of the host code
    n = [0]

    def line(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] in at:
                at.pop(n[0])()
        return line

    def call(frame, event, arg):
        return line if frame.f_code.co_name == '_check_params' and '/convst/' in frame.f_code.co_filename else None
    sys.settrace(call)
    try:
        return f()
    finally:
        sys.settrace(None)
        while at:
            at.popitem()[1]()


def overlapped(k, j):
    out, mid, end = {}, threading.Event(), threading.Event()

    def second():
        out[1] = traced(lambda: fit(8), {j: lambda: (mid.set(), end.wait(20))}).shapelets_[0]

    def start():
        t = threading.Thread(target=second)
        t.start()
        mid.wait(20)
        out['t'] = t
    out[0] = traced(lambda: fit(3), {k: start}).shapelets_[0]
    end.set()
    out['t'].join()
    assert all(np.array_equal(out[i], want[i]) for i in (0, 1)), (k, j)


for k in range(1, 14):
    for j in range(1, 14):
        overlapped(k, j)
""")

s('c35-window-length', 'C35', INP,
  [("        n_ts = periodogram(X[0, 0, :]", "        self.n_ts = periodogram(X[0, 0, :]"),
   ("        X_new = np.empty((X.shape[0], X.shape[1], n_ts))\n", "        X_new = np.empty((X.shape[0], X.shape[1], self.n_ts))\n")],
  'one periodogram transformation used by two threads on series of different length', 'the result gets the size of the other thread\'s', BESIDE + """
from convst.transformers._input_transformers import Periodigram
p = Periodigram()
want = p.transform(X)
beside(lambda: p.transform(X), lambda: p.transform(X[:, :, :10]), lambda o: o.shape == want.shape)
""")

s('c35-ridge-features', 'C35', RID,
  [("        return self.classifier.predict(self.transformer.transform(X))", "        self.X_new_ = self.transformer.transform(X)\n        return self.classifier.predict(self.X_new_)")],
  'one ridge classifier used for predictions by two threads', 'a thread gets the predictions for the series of the other', BESIDE + '''
e = R_DST_Ridge(n_shapelets=5, shapelet_lengths=[5], random_state=0).fit(X, y)
want = e.predict(X[:6])
beside(lambda: e.predict(X[:6]), lambda: e.predict(X[6:]), lambda o: np.array_equal(o, want))
''')

s('c35-class-kernels', 'C35', RDST,
  [("            self.transformer = U_SL_apply_all_shapelets", "            type(self).transformer = staticmethod(U_SL_apply_all_shapelets)"),
   ("            self.transformer = M_SL_apply_all_shapelets", "            type(self).transformer = staticmethod(M_SL_apply_all_shapelets)")],
  'transformers of different kinds of data in one program', 'fitting one changes the kernel the other transforms with', CL + '''
X = np.random.default_rng(0).normal(size=(8, 1, 20)); y = np.arange(8) % 2
a = R_DST(n_shapelets=5, shapelet_lengths=[5], random_state=0).fit(X, y)
want = a.transform(X)
R_DST(n_shapelets=5, shapelet_lengths=[5], random_state=0).fit(np.concatenate([X, X], axis=1), y)
assert np.array_equal(a.transform(X), want)
''')

s('c35-scaled-in-place', 'C35', INP,
  [("        return super().transform(X[:, self.usefull_atts])", "        self.X_ = X[:, self.usefull_atts]\n        return super().transform(self.X_)")],
  'one scaler used by two threads', 'a thread gets the scaled features of the other', BESIDE + '''
from convst.transformers._input_transformers import c_StandardScaler
F = np.random.default_rng(0).normal(size=(9, 4))
m = c_StandardScaler().fit(F)
want = m.transform(F[:5])
beside(lambda: m.transform(F[:5]), lambda: m.transform(F[5:]), lambda o: np.array_equal(o, want))
''')

s('c24-any-object', 'C24', INT,
  [("        if isinstance(RDST, R_DST):", "        if hasattr(RDST, 'transform'):")],
  'an object with shapelets that is no transformer of the library', 'the interpreter accepts it and draws whatever its attributes hold', CL + '''
from convst.interpreters import RDST_interpreter


class Other:
    shapelets_ = (1, 2, 3)
    transform = fit = lambda *a: None


try:
    RDST_interpreter(Other())
except Exception:
    pass
else:
    raise AssertionError('accepted')
''')
