"""Planted bugs, fourth batch."""
from seed_defs3 import *  # noqa
from seed_defs import s, FIT, T
from seed_defs2 import JUDGE, USL, UVL, MSL, MVL, COM, RDST, INP, ENS, RID, EXP, DAT, PLT, CHK, NUM, INT

CL = '''
import copy
from sklearn.base import clone
from convst.transformers import R_DST
from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
'''

s('c31-bounds-copied', 'C31', RDST,
  [("            self.shapelet_lengths_bounds = shapelet_lengths_bounds\n", "            self.shapelet_lengths_bounds = list(shapelet_lengths_bounds)\n")],
  'cloning an R_DST given bounds of the shapelet lengths', 'the constructor replaces its argument, so scikit-learn refuses to clone it', CL + '''
for b in (None, (4, 8), [0.2, 0.5]):
    assert list(clone(R_DST(shapelet_lengths_bounds=b)).shapelet_lengths_bounds or []) == list(b or [])
''')

s('c31-ridge-built-once', 'C31', RID,
  [("        self._init_components()\n        self.transformer = self", "        if not hasattr(self, 'transformer'):\n            self._init_components()\n        self.transformer = self")],
  'a fitted ridge classifier whose parameters are changed with set_params', 'the refit uses the parameters of the first fit', CL + '''
import numpy as np
X = np.random.default_rng(0).normal(size=(8, 1, 20)); y = np.arange(8) % 2
c = R_DST_Ridge(n_shapelets=10, shapelet_lengths=[5], random_state=0).fit(X, y)
c.set_params(shapelet_lengths=[7]).fit(X, y)
assert set(c.transformer.shapelets_[1]) == {7}, c.transformer.shapelets_[1]
''')

s('c31-window-lambda', 'C31', RDST,
  [("            self.transformer = M_VL_apply_all_shapelets\n", "            self.transformer = lambda X, s, phase, X_len: M_VL_apply_all_shapelets(X, s, phase, X_len)\n")],
  'pickling a transformer fitted on multivariate series of unequal length', 'such estimators can no longer be saved', CL + FIT + '''
import pickle
rng = np.random.default_rng(0)
X = [rng.normal(size=(2, 15 + i % 3)) for i in range(8)]
m = fit(X, np.arange(8) % 2, n_shapelets=6, shapelet_lengths=[5])
# compiled functions are saved by name
import io
KEEP = {}
class P(pickle.Pickler):
    def persistent_id(self, o):
        if callable(o) and hasattr(o, '__qualname__') and '.' not in o.__qualname__ and not isinstance(o, type):
            KEEP[o.__qualname__] = o
            return o.__qualname__
class U(pickle.Unpickler):
    def persistent_load(self, i):
        return KEEP[i]
b = io.BytesIO()
P(b).dump(m)
b.seek(0)
assert np.array_equal(U(b).load().transform(X), m.transform(X))
''')

s('c31-default-sorted', 'C31', ENS,
  [("        self.alphas_ridge = alphas_ridge\n", "        self.alphas_ridge = np.sort(alphas_ridge)\n")],
  'cloning an ensemble classifier', 'the constructor replaces its argument by a new array', CL + '''
e = R_DST_Ensemble(alphas_ridge=[10., 1.])
assert list(clone(clone(e)).alphas_ridge) == [10., 1.]
''')

s('c31-kept-scaler', 'C31', INP,
  [("        self.window_type = window_type\n        self.random = random\n", "        self.window_type = window_type\n        self._window = window_type\n        self.random = random\n"),
   ("        n_ts = periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[\n", "        n_ts = periodogram(X[0, 0, :], detrend=False, window=self._window)[1].shape[\n"),
   ("                    X[i, j], detrend=False, window=self.window_type\n", "                    X[i, j], detrend=False, window=self._window\n"),
   ('        self.set_params(**{"window_type": str(np.random.choice(self._get_windows()))})\n', '        self.set_params(**{"window_type": str(np.random.choice(self._get_windows()))})\n        self._window = self.window_type\n')],
  'a periodogram whose window is changed with set_params', 'the window given to the constructor is used', CL + '''
import numpy as np
from convst.transformers._input_transformers import Periodigram
X = np.random.default_rng(0).normal(size=(3, 1, 20))
a = Periodigram(window_type='hann').fit_transform(X)
b = Periodigram().set_params(window_type='hann').fit_transform(X)
assert np.array_equal(a, b)
''')

s('c31-truncated-weight', 'C31', ENS,
  [("        self.n_shapelets_per_estimator = check_is_numeric(n_shapelets_per_estimator)\n", "        self.n_shapelets_per_estimator = check_is_numeric(n_shapelets_per_estimator)\n        self._n_shapelets = int(self.n_shapelets_per_estimator)\n"),
   ("                        n_shapelets=self.n_shapelets_per_estimator,\n", "                        n_shapelets=self._n_shapelets,\n")],
  'an ensemble whose number of shapelets is changed with set_params, as the grid search does', 'the number given to the constructor is used', CL + '''
import numpy as np
X = np.random.default_rng(0).normal(size=(8, 1, 24)); y = np.arange(8) % 2
e = R_DST_Ensemble(n_shapelets_per_estimator=5, shapelet_lengths=[5])
e.set_params(n_shapelets_per_estimator=9).fit(X, y)
assert [len(m[1].shapelets_[1]) for m in e.models] == [9, 9, 9]
''')

s('c31-shared-models', 'C31', ENS,
  [("        self.models = models\n", "        self.models = self._shared\n        self.models[:] = models\n"),
   ("class R_DST_Ensemble(BaseEstimator, ClassifierMixin):\n", "class R_DST_Ensemble(BaseEstimator, ClassifierMixin):\n    _shared = []\n\n")],
  'two fitted ensembles in one program, one being a copy or a clone of the other', 'all ensembles share the models fitted last', CL + '''
import numpy as np
rng = np.random.default_rng(0)
X = rng.normal(size=(8, 1, 24)); y = np.arange(8) % 2
e = R_DST_Ensemble(n_shapelets_per_estimator=5, shapelet_lengths=[5], random_state=0).fit(X, y)
n = [len(m[1].shapelets_[1]) for m in e.models]
clone(e).set_params(n_shapelets_per_estimator=9).fit(X, y)
assert [len(m[1].shapelets_[1]) for m in e.models] == n
''')

s('c31-alpha-default', 'C31', RDST,
  [("        self.prime_dilations = check_is_boolean(prime_dilations)\n", "        self.prime_dilations = check_is_boolean(prime_dilations)\n        self._pct = None\n"),
   ("                self.percentiles[0], self.percentiles[1], self.alpha,\n                self.phase_invariance, max_channels, min_len, X_len,\n", "                *self._percentiles(), self.alpha,\n                self.phase_invariance, max_channels, min_len, X_len,\n"),
   ("    def _validate_percentiles(self, percentiles):\n", "    def _percentiles(self):\n        if self._pct is None:\n            self._pct = float(self.percentiles[0]), float(self.percentiles[1])\n        return self._pct\n\n    def _validate_percentiles(self, percentiles):\n")],
  'new percentiles set on a transformer fitted before, on multivariate series of unequal length', 'the thresholds keep following the percentiles of the first fit', CL + FIT + '''
rng = np.random.default_rng(0)
X = [rng.normal(size=(2, 15 + i % 3)) for i in range(8)]
y = np.arange(8) % 2
m = fit(X, y, n_shapelets=12, shapelet_lengths=[5], percentiles=[0, 10], random_state=0, proba_norm=0.0)
a = m.shapelets_[3].copy()
m.set_params(percentiles=[90, 100]).fit(X, y)
assert m.shapelets_[3].mean() > a.mean() * 1.2, (a, m.shapelets_[3])
''')

PAR = '''
import numpy as np
from convst.transformers import R_DST
from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
rng = np.random.default_rng(0)
X = rng.normal(size=(8, 1, 24)); y = np.arange(8) % 2


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False
'''

s('c32-percentile-order', 'C32', RDST,
  [("            if percentiles[0] <= percentiles[1]:\n                return percentiles\n", "            return percentiles\n")],
  'percentiles given in decreasing order', 'thresholds are drawn from an inverted range instead of an error', PAR + '''
assert refused(lambda: R_DST(percentiles=[10, 5], n_shapelets=5).fit(X, y))
R_DST(percentiles=[5, 5], n_shapelets=5).fit(X, y)
''')

s('c32-equal-percentiles', 'C32', RDST,
  [("            if percentiles[0] <= percentiles[1]:\n", "            if percentiles[0] < percentiles[1]:\n")],
  'two equal percentiles', 'a fixed percentile is refused', PAR + '''
R_DST(percentiles=[5, 5], n_shapelets=5).fit(X, y)
''')

s('c32-shapelet-of-one', 'C32', RDST,
  [("        if not np.all(1 < shapelet_lengths):\n", "        if not np.any(1 < shapelet_lengths):\n")],
  'a list of shapelet lengths of which only some are invalid', 'shapelets of length 0 or 1 are accepted', PAR + '''
m = R_DST(shapelet_lengths=[5, 1], n_shapelets=5, random_state=0)
try:
    m._check_params(np.array([5, 1]), 24)
except ValueError:
    pass
else:
    raise AssertionError('a length of 1 was accepted')
''')

s('c32-narrow-numbers', 'C32', CHK,
  [("    if (isinstance(x, (int, np.integer)) or isinstance(x, (float, np.floating))) and not isinstance(x, bool):\n", "    if isinstance(x, (int, float, np.int64)) and not isinstance(x, bool):\n")],
  'a float32 or int32 parameter, for instance computed with numpy', 'valid numbers are refused', PAR + '''
R_DST(alpha=np.float32(0.5), n_shapelets=np.int32(5)).fit(X, y)
''')

s('c32-bool-number', 'C32', CHK,
  [("    if (isinstance(x, (int, np.integer)) or isinstance(x, (float, np.floating))) and not isinstance(x, bool):\n", "    if isinstance(x, (int, np.integer, float, np.floating)):\n")],
  'a boolean given for a numerical parameter', 'True is taken as 1, for instance one shapelet', PAR + '''
for k in ('n_shapelets', 'alpha', 'proba_norm', 'n_samples'):
    assert refused(lambda: R_DST(**dict(dict(n_shapelets=5), **{k: True})).fit(X, y)), k
''')

s('c32-broadcast-probability', 'C32', ENS,
  [("        if len(self.input_transformers) != len(self.proba_norm):\n", "        if len(self.input_transformers) > len(self.proba_norm):\n")],
  'more normalisation probabilities than transformers in the ensemble', 'the surplus is ignored silently', PAR + '''
assert refused(lambda: R_DST_Ensemble(proba_norm=[0.8] * 4, n_shapelets_per_estimator=5).fit(X, y))
R_DST_Ensemble(proba_norm=[0.8] * 3, n_shapelets_per_estimator=5).fit(X, y)
''')

s('c32-full-reduction', 'C32', RDST,
  [("        if self.lengths_bounds_reduction>=1:\n", "        if self.lengths_bounds_reduction>1:\n")],
  'a bound reduction of exactly 1', 'the only documented limit is accepted', PAR + '''
assert refused(lambda: R_DST(lengths_bounds_reduction=1.0, shapelet_lengths_bounds=[4, 9], n_shapelets=5).fit(X, y))
R_DST(lengths_bounds_reduction=0, shapelet_lengths_bounds=[4, 9], n_shapelets=5).fit(X, y)
''')

s('c10-phase-tail', 'C10', UVL,
  [("                    i_mask[i_x] = _any(mask_dil[i_x, :X_len[i_x]])\n", "                    i_mask[i_x] = _any(mask_dil[i_x, :X_len[i_x]-_length//2])\n"),
   ("                    t_mask = where(mask_dil[id_sample, :X_len[id_sample]])\n", "                    t_mask = where(mask_dil[id_sample, :X_len[id_sample]-_length//2])\n")],
  'phase invariance on series of unequal length', 'no shapelet ever starts in the last part of a series', FIT + '''
rng = np.random.default_rng(0)
X = [rng.normal(size=(1, 12)) for _ in range(3)]
m = fit(X, np.array([0, 1, 0]), n_shapelets=200, shapelet_lengths=[8], alpha=0.5, phase_invariance=True, proba_norm=0.0)
starts = {tuple(np.round(v[:2], 9)) for v in m.shapelets_[0]}
tail = {tuple(np.round(np.take(x[0], [k, k + 1], mode='wrap'), 9)) for x in X for k in range(8, 12)}
assert starts & tail
''')

s('c11-uniform-primes', 'C11', COM,
  [("        P = array([1/2**log(i) for i in range(1,n_choice+1)])\n", "        P = array([1/(1.+i/n_choice) for i in range(1,n_choice+1)])\n")],
  'prime dilations', 'large dilations are drawn far more often', FIT + '''
X = np.random.default_rng(0).normal(size=(20, 1, 60))
m = fit(X, np.arange(20) % 2, n_shapelets=1500, shapelet_lengths=[3], prime_dilations=True)
d = m.shapelets_[2]
w = 2.0 ** -np.log(np.arange(1, 12))
e = 1500 * w[0] / w.sum()
assert abs((d == 1).sum() - e) < 6 * np.sqrt(e), ((d == 1).sum(), e)
''')
