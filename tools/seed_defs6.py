"""Planted bugs, sixth batch."""
from seed_defs5 import *  # noqa
from seed_defs import s
from seed_defs2 import COM, RDST, INP, ENS, RID, INT
from seed_defs4 import CL

MEM = CL + '''
import io
import pickle


class _P(pickle.Pickler):
    def persistent_id(self, o):
        if isinstance(o, nbrt.Dispatcher):
            return 1


def size(o):
    b = io.BytesIO()
    _P(b).dump(o)
    return b.tell()


r = np.random.default_rng(0)
X = r.normal(size=(40, 1, 24)); y = np.arange(40) % 2
X[y == 1, :, 4:9] += 4
V = [x[:, :20 + i % 5] for i, x in enumerate(X)]
'''
s('c36-padded-kept', 'C36', RDST,
  [("            X_new = np.zeros((len(X), n_ft[0], lengths.max()))\n", "            X_new = self._padded = np.zeros((len(X), n_ft[0], lengths.max()))\n")],
  'series of uneven length', 'the fitted transformer keeps a padded copy of the last batch, so stored models contain the data', MEM + '''
m = R_DST(n_shapelets=6, shapelet_lengths=[5], random_state=0).fit(V[:6], y[:6])
a = size(m)
m.transform(V)
assert size(m) < a + 300, (a, size(m))
''')

s('c36-scaled-training', 'C36', ENS,
  [("        return super().fit(self.scaler.transform(X), y)", "        self.X_train_ = self.scaler.transform(X)\n        return super().fit(self.X_train_, y)")],
  'an ensemble fitted on many series', 'every member keeps the features of all training series', MEM + '''
z = []
for n in (8, 40):
    m = R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[5], shp_alpha=0.0, random_state=0, alphas_ridge=np.array([1.0])).fit(X[:n], y[:n])
    z.append(size(m))
assert z[1] - z[0] < 32 * 3 * 60, z
''')

s('c36-votes-history', 'C36', ENS,
  [("        preds_proba = np.asarray(preds_proba).sum(axis=0)\n", "        self.__dict__.setdefault('votes_', []).append(np.asarray(preds_proba).sum(axis=0))\n        preds_proba = self.votes_[-1]\n")],
  'an ensemble used for many batches', 'the votes of every batch ever predicted are kept', MEM + '''
m = R_DST_Ensemble(n_shapelets_per_estimator=10, shapelet_lengths=[5], shp_alpha=0.0, random_state=0).fit(X[:8], y[:8])
m.predict(X[:5])
a = size(m)
for _ in range(6):
    m.predict(X)
assert size(m) < a + 300, (a, size(m))
''')

s('c36-kernel-memo', 'C36', RDST,
  [("        return X_new\n    \n    def", "        return _keep(X.shape, X_new)\n    \n    def"),
   ("class R_DST(", "_LAST = {}\n\n\ndef _keep(shape, X_new):\n    _LAST[shape] = X_new\n    return X_new.copy()\n\n\nclass R_DST(")],
  'batches of many different shapes', 'features of earlier batches stay in a table of the module', MEM + '''
import tracemalloc
m = R_DST(n_shapelets=20, shapelet_lengths=[5], random_state=0).fit(X[:6], y[:6])
m.transform(X[:3])
tracemalloc.start(1)


def held():
    return sum(t.size for t in tracemalloc.take_snapshot().traces if t.domain == 389047)


m.transform(X[:1])
a = held()
for n in range(20, 41):
    m.transform(X[:n])
b = held()
assert b - a < 60000, (a, b)
''')

s('c36-windows-of-training', 'C36', INP,
  [("        return super().fit(X[:, self.usefull_atts], y=y)\n\n    def transform(self, X):\n        return super().transform(X[:, self.usefull_atts])", "        self.X_ = X[:, self.usefull_atts]\n        return super().fit(self.X_, y=y)\n\n    def transform(self, X):\n        return super().transform(X[:, self.usefull_atts])")],
  'the scaler inside a fitted classifier', 'it keeps the training features', MEM + '''
z = []
for n in (8, 40):
    m = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[5], alpha=0.0, random_state=0).fit(X[:n], y[:n])
    z.append(size(m))
assert z[1] - z[0] < 32 * 60, z
''')

STEPS = CL + '''
import sys


def steps(f, *a):
    n = [0]
    root = os.getcwd()

    def local(fr, ev, arg):
        n[0] += 1
        return local

    def glob(fr, ev, arg):
        return local if fr.f_code.co_filename.startswith(root) else None
    sys.settrace(glob)
    try:
        f(*a)
    finally:
        sys.settrace(None)
    return n[0]


r = np.random.default_rng(0)
X = r.normal(size=(40, 1, 30)); y = np.arange(40) % 2
'''
from seed_defs2 import USL  # noqa
s('c37-groups-repeated', 'C37', USL,
  [("    params_shp = _combinations_1d(lengths, dilations)\n    n_shp_params = zeros(params_shp.shape[0]+1, dtype=int64)\n    \n    idx_shp = zeros(n_shapelets, dtype=int64)",
    "    params_shp = zeros((n_shapelets, 2), dtype=int64)\n    params_shp[:, 0] = lengths\n    params_shp[:, 1] = dilations\n    n_shp_params = zeros(params_shp.shape[0]+1, dtype=int64)\n    \n    idx_shp = zeros(n_shapelets*n_shapelets, dtype=int64)")],
  'a transform with many shapelets', 'groups of shapelets with equal length and dilation are computed once per member: quadratic work for the same features', STEPS + '''
c = []
for m in (20, 80):
    t = R_DST(n_shapelets=m, shapelet_lengths=[5], alpha=0.0, proba_norm=0.0, random_state=0).fit(X[:12], y[:12])
    c.append(steps(t.transform, X[:4]))
assert c[1] < 6 * c[0], c
''')

s('c37-prefixes', 'C37', RID,
  [("        return self.classifier.predict(self.transformer.transform(X))", "        return self.classifier.predict(np.asarray([self.transformer.transform(X[: i + 1])[i] for i in range(len(X))]))")],
  'predicting a large batch', 'series are transformed again for every later series of the batch', STEPS + '''
m = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[5], random_state=0).fit(X[:10], y[:10])
a, b = steps(m.predict, X[:5]), steps(m.predict, X[:40])
assert b < 10 * a, (a, b)
''')

s('c37-stepping', 'C37', COM,
  [("            X_new[i,j] = X[i+(j*dilation)]\n    return X_new\n\n@njit(\n  cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__\n)\n\ndef _generate_strides_2D(", "            ix = i\n            for _ in range(j*dilation):\n                ix += 1\n            X_new[i,j] = X[ix]\n    return X_new\n\n@njit(\n  cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__\n)\n\ndef _generate_strides_2D(")],
  'long series, whose dilations are large', 'reading a window takes steps in proportion to its span, so fitting long series takes quadratic work', STEPS + '''
c = []
for T in (30, 270):
    Z = np.random.default_rng(1).normal(size=(8, 1, T))
    c.append(steps(R_DST(n_shapelets=12, shapelet_lengths=[5], random_state=0).fit, Z, y[:8]))
assert c[1] < 16 * c[0], c
''')
