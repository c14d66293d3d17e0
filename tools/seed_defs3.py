"""Planted bugs, third batch."""
from seed_defs2 import *  # noqa
from seed_defs import s, FIT, T
from seed_defs2 import JUDGE, USL, UVL, MSL, MVL, COM, RDST, INP, ENS, RID, EXP, DAT, PLT, CHK, NUM, INT

s('c01-narrow-threshold', 'C01', USL,
  [("    threshold = zeros(n_shapelets)\n", "    threshold = zeros(n_shapelets).astype('float32').astype('float64')\n"),
   ("    _idx_shp = idx_shp[n_shp_params[i_shp_param]:n_shp_params[i_shp_param+1]]\n            \n            _idx_no_norm",
    "    _idx_shp = idx_shp[n_shp_params[i_shp_param]:n_shp_params[i_shp_param+1]].astype('int16')\n            \n            _idx_no_norm")],
  'more than 32767 shapelets', 'indexes of shapelets wrap around, so some features are never written', FIT + '''
X = np.random.default_rng(0).normal(size=(2, 1, 4))
m = fit(X, np.arange(2), n_shapelets=32800, proba_norm=0.0, shapelet_lengths=[4])
F = m.transform(X)
for i in (0, 5, 32766, 32768, len(m.shapelets_[1]) - 1):
    D = np.abs(X[:, 0] - m.shapelets_[0][i][:4]).sum(axis=1)
    assert np.allclose(F[:, 3 * i], D), i
''')

s('c02-partial-channels', 'C02', COM,
  [("        for ft in prange(n_ft):\n            _dist += manhattan(x[ft, i], values[ft])\n    \n        if",
    "        for ft in prange(n_ft):\n            _dist += manhattan(x[ft, i], values[ft])\n            if _min != -1. and _dist >= _min:\n                break\n\n        if")],
  'a window whose distance over the first channels exceeds the minimum found but not the threshold, while all channels exceed it',
  'windows abandoned early are counted as occurrences', JUDGE + '''
X = np.random.default_rng(0).normal(size=(8, 4, 24))
judge(fit(X, np.arange(8) % 2, percentiles=[40, 60]), X)
''')

s('c02-many-channels', 'C02', MVL,
  [("    channel_ids = zeros(n_channels.sum(), dtype=int64)\n\n    # Init values", "    channel_ids = zeros(n_channels.sum(), dtype='int8')\n\n    # Init values")],
  'variable-length data of more than 127 channels', 'channel numbers wrap around', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(140, t)) for t in (6, 7, 8, 6)]
m = fit(X, np.arange(4) % 2, n_shapelets=60, max_channels=2)
for q in ref.shapelets(m):
    assert all(0 <= c < 140 for c in q.channels), q.channels
''')

s('c03-length-of-first', 'C03', RDST,
  [("            for i in range(len(X)):\n                X_new[i, :, :lengths[i]] = X[i]\n",
    "            shortest = lengths.min()\n            for i in range(len(X)):\n                x = np.asarray(X[i])\n                # padded at the source\n                while x.shape[1] > shortest and not x[:, -1].any():\n                    x = x[:, :-1]\n                lengths[i] = x.shape[1]\n                X_new[i, :, :lengths[i]] = x\n")],
  'a series that ends with zeros, longer than the shortest one of its batch', 'trailing zeros of a series are taken for padding', JUDGE + '''
r = np.random.default_rng(0)
X = [r.normal(size=(1, t)) for t in (12, 14, 16, 18, 20, 22)]
m = fit(X, np.arange(6) % 2, percentiles=[60, 90])
X[3][:, -4:] = 0
judge(m, X)
''')

s('c03-float-noise', 'C03', UVL,
  [("X[i_sample, 0, :X_len[i_sample]]", "X[i_sample, 0, :max(X_len[i_sample], X_len[0])]")],
  'a batch whose first series is longer than a later one', 'windows of the padding are compared', JUDGE + '''
r = np.random.default_rng(0)
X = [r.normal(size=(1, t)) + 5 for t in (22, 12, 16, 18, 20, 14)]
m = fit(X, np.arange(6) % 2, percentiles=[60, 90])
judge(m, X)
''')

s('c04-sum-key', 'C04', RDST,
  [("            X_new = self.transformer(\n                X, self.shapelets_, self.phase_invariance\n            )\n            X_len",
    "            # repeated series are transformed once\n            _, first, back = np.unique(X.sum(axis=(1, 2)), return_index=True, return_inverse=True)\n            X_new = self.transformer(\n                X[first], self.shapelets_, self.phase_invariance\n            )[back.ravel()]\n            X_len")],
  'two different series with the same sum (a shifted or reversed copy) in one batch', 'one series gets the features of the other', JUDGE + '''
X = np.random.default_rng(0).integers(0, 9, size=(6, 1, 20)).astype(float)
m = fit(X, np.arange(6) % 2)
judge(m, np.concatenate([X, X[:, :, ::-1]]))
''')

s('c04-inplace-length', 'C04', MSL,
  [("    (values, lengths, dilations, threshold, \n     normalize, n_channels, channel_ids) = shapelets\n    n_shapelets = len(lengths)\n    n_samples, n_ft, n_timestamps = X.shape\n",
    "    (values, lengths, dilations, threshold, \n     normalize, n_channels, channel_ids) = shapelets\n    n_samples, n_ft, n_timestamps = X.shape\n    n_shapelets = len(lengths)\n    if n_samples == 1:\n        values[:] = values.astype('float32')\n")],
  'transforming a single multivariate series', 'the fitted values are rounded in place, so later results differ', FIT + '''
X = np.random.default_rng(0).normal(size=(6, 3, 16))
m = fit(X, np.arange(6) % 2)
a = m.transform(X)
m.transform(X[:1])
assert np.array_equal(a, m.transform(X))
''')

s('c05-shared-means', 'C05', INP,
  [("    X_new = np.empty((n_samples, n_features, n_timestamps))\n    for i in prange(n_samples):\n        X_new[i] = z_norm_one_sample(X[i])",
    "    X_new = np.empty((n_samples, n_features, n_timestamps))\n    centred = np.empty((n_features, n_timestamps))\n    for i in prange(n_samples):\n        for j in range(n_features):\n            centred[j] = X[i, j] - X[i, j].mean()\n        for j in range(n_features):\n            X_new[i, j] = centred[j] / (centred[j].std() + 1e-8)")],
  'two series normalised by different threads at the same time', 'threads share one buffer of centred values', '''
from vlib import race
mon = race.Monitor()
nbrt.monitor = mon
nbrt.instrument = race.make_instrument(mon)
from convst.transformers._input_transformers import Z_normalizer
Z_normalizer().transform(np.random.default_rng(0).normal(size=(5, 3, 30)))
assert not mon.conflicts, mon.conflicts[0]
''')

s('c06-half-open', 'C06', MVL,
  [("                    x_dist = zeros(X_len[id_test]-(_length-1)*_dilation)",
    "                    x_dist = zeros(max(1, X_len[id_test]-_length*_dilation+1))")],
  'variable-length multivariate data and a dilation above one', 'the distance vector has the wrong size: broadcasting fails or pollutes', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(2, t)) for t in (18, 20, 22, 24)]
fit(X, np.arange(4) % 2, n_shapelets=60).transform(X)
''')

s('c07-index-of-test', 'C07', MVL,
  [("X[id_sample, _channel_ids[k], :X_len[id_sample]], index, _length,", "X[id_sample, _channel_ids[k], :X_len[id_test]], index, _length,")],
  'phase invariance and a longer series of the same class', 'windows wrap around at the length of another series and contain padding', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(2, t)) + 5 for t in (8, 12, 16, 20)]
m = fit(X, np.zeros(4, dtype=int), phase_invariance=True, proba_norm=0.0, n_shapelets=100)
for q in ref.shapelets(m):
    assert (np.asarray(q.values) != 0).all(), q.values
''')

s('c08-norm-share', 'C08', MVL,
  [("        normalize[mask_return],\n        n_channels,", "        normalize[:lengths.shape[0]],\n        n_channels,")],
  'a sampling space exhausted for some shapelets', 'normalisation flags belong to other shapelets', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(2, t)) + 7 for t in (7, 8, 9)]
m = fit(X, np.array([0, 1, 0]), alpha=1.0, n_shapelets=300, proba_norm=0.5)
sh = ref.shapelets(m)
assert len(sh) < 300
for q in sh:
    assert bool(q.norm) == bool((np.abs(np.asarray(q.values).mean(axis=1)) < 1e-6).all()), q.i
''')

s('c09-narrow-labels', 'C09', USL,
  [("                loc_others = where(y == y[id_sample])[0]", "                loc_others = where(y.astype('uint8') == y.astype('uint8')[id_sample])[0]")],
  'class labels that are equal modulo 256', 'thresholds are drawn from series of other classes', FIT + '''
r = np.random.default_rng(0)
X = r.normal(size=(12, 1, 20))
y = np.array([0, 256] * 6)
X[y == 256] += 1000
m = fit(X, y, proba_norm=0.0, percentiles=[10, 20])
for q in ref.shapelets(m):
    assert q.thr < 500, q.thr
''')

s('c09-middle-value', 'C09', USL,
  [("                threshold[i_shp] = uniform(\n                    ps[0], ps[1]\n                )",
    "                if p_max - p_min < 2:\n                    threshold[i_shp] = ps[0]\n                else:\n                    threshold[i_shp] = uniform(\n                        ps[0], ps[1]\n                    )")],
  'percentiles less than two apart', 'the threshold is always the lower percentile', FIT + '''
X = np.random.default_rng(0).normal(size=(2, 1, 60))
m = fit(X, np.zeros(2, dtype=int), proba_norm=0.0, percentiles=[50, 51.5], n_shapelets=100)
n = 0
for q in ref.shapelets(m):
    lo = [np.percentile(ref.dist_vector(x, q, False)[0], 50) for x in X]
    n += min(abs(q.thr - v) for v in lo) < 1e-12
assert n < 20, n
''')

s('c10-rounded-share', 'C10', UVL,
  [("alpha_size = _length - int64(max(1,(1-alpha)*min_l))", "alpha_size = _length - int64(max(1,round((1-alpha)*min_l)))")],
  'a similarity and length whose product has a fractional part of one half or more', 'neighbouring starts are one timestamp too close', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(1, 40)) for t in range(4)]
bad = 0
for seed in range(20):
    m = fit(X, np.arange(4) % 2, alpha=0.45, n_shapelets=60, shapelet_lengths=[5], proba_norm=0.0, random_state=seed)
    at = {}
    for q in ref.shapelets(m):
        if q.d != 1:
            continue
        for i, x in enumerate(X):
            D, _ = ref.dist_vector(x, q, False)
            for t in np.where(D < 1e-12)[0]:
                at.setdefault(i, []).append(int(t))
    # forbidden: closer than 5 - int(0.55 * 5) = 3
    bad += any(abs(a - b) < 3 for v in at.values() for k, a in enumerate(v) for b in v[:k])
assert bad == 0, bad
''')

s('c11-rounded-probability', 'C11', MSL,
  [("    normalize = (normalize < p_norm)", "    normalize = (normalize < round(p_norm, 1))")],
  'a normalisation probability with two decimals', 'the share of normalised shapelets is rounded to tenths', FIT + '''
X = np.random.default_rng(0).normal(size=(6, 2, 30))
m = fit(X, np.arange(6) % 2, proba_norm=0.05, n_shapelets=4000)
k = np.mean([q.norm for q in ref.shapelets(m)])
assert 0.03 < k < 0.07, k
''')

s('c11-missing-last-length', 'C11', MVL,
  [("    lengths = choice(shapelet_sizes, size=n_shapelets).astype(int64)",
    "    lengths = choice(shapelet_sizes[:8], size=n_shapelets).astype(int64)")],
  'more than eight shapelet lengths', 'the further lengths are never drawn', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(2, 30)) for t in range(6)]
m = fit(X, np.arange(6) % 2, shapelet_lengths=list(range(3, 14)), n_shapelets=600)
assert {q.L for q in ref.shapelets(m)} == set(range(3, 14))
''')

s('c13-thinned-again', 'C13', RDST,
  [("            lengths = np.asarray(list(range(min_l, max_l)))\n", "            self.shapelet_lengths_bounds = [min_l, max_l-1]\n            lengths = np.arange(min_l, max_l)\n")],
  'relative bounds and a second fit on series of another length', 'the bounds resolved for the first data are kept', FIT + '''
r = np.random.default_rng(0)
A, B = r.normal(size=(6, 1, 40)), r.normal(size=(6, 1, 20))
y = np.arange(6) % 2
m = fit(A, y, shapelet_lengths_bounds=[0.5, 0.8])
m.fit(B, y)
assert max(q.L for q in ref.shapelets(m)) <= 16
''')

s('c14-big-endian', 'C14', RDST,
  [("            X = check_array_3D(X, is_univariate=False).astype(np.float64)\n            min_len = X.shape[2]",
    "            X = check_array_3D(X, is_univariate=False)\n            X = X.view(np.float64) if X.dtype.kind == 'f' and X.dtype.itemsize == 8 else X.astype(np.float64)\n            min_len = X.shape[2]")],
  'float data in the other byte order (files read with numpy)', 'the bytes are interpreted in the wrong order', FIT + '''
X = np.random.default_rng(0).normal(size=(6, 1, 20))
y = np.arange(6) % 2
a = fit(X, y)
b = fit(X.astype('>f8'), y)
assert ref.same_shapelets(ref.snapshot(a), ref.snapshot(b))
''')

s('c15-rounded-reduction', 'C15', RDST,
  [("                n_remove = int(lengths.shape[0]*self.lengths_bounds_reduction)", "                n_remove = int(np.ceil(lengths.shape[0]*self.lengths_bounds_reduction))")],
  'a reduction whose product with the number of lengths is not whole', 'more lengths are removed than asked', FIT + '''
X = np.random.default_rng(0).normal(size=(6, 1, 40))
m = fit(X, np.arange(6) % 2, shapelet_lengths_bounds=[4, 10], lengths_bounds_reduction=0.3, n_shapelets=300)
assert {q.L for q in ref.shapelets(m)} == {4, 7, 10}, {q.L for q in ref.shapelets(m)}
''')

s('c16-falsy-alpha', 'C16', RID,
  [("            alpha=self.alpha,", "            alpha=self.alpha or 0.5,")],
  'a ridge classifier with similarity parameter zero', 'the default of 0.5 is used for zero', '''
from convst.classifiers import R_DST_Ridge
X = np.random.default_rng(0).normal(size=(4, 1, 8))
m = R_DST_Ridge(n_shapelets=400, shapelet_lengths=[5], alpha=0.0, random_state=0).fit(X, np.arange(4) % 2)
assert len(m.transformer.shapelets_[1]) == 400
''')

s('c17-clipped', 'C17', INP,
  [("        return super().transform(X[:, self.usefull_atts])\n\n\nclass c_MinMax", "        return np.clip(super().transform(X[:, self.usefull_atts]), -10, 10)\n\n\nclass c_MinMax")],
  'series to predict that are far from the training series', 'features far from the training values are clipped', '''
from convst.transformers._input_transformers import c_StandardScaler
X = np.random.default_rng(0).normal(size=(9, 4))
c = c_StandardScaler().fit(X)
assert np.allclose(c.transform(X * 100), (X * 100 - X.mean(axis=0)) / X.std(axis=0))
''')

s('c18-integer-power', 'C18', ENS,
  [('            model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w', '            model["_internalridgecv"].get_loocv_train_acc(y) ** int(self.a_w)')],
  'a fractional weight exponent', 'the exponent is truncated', '''
from convst.classifiers import R_DST_Ensemble
r = np.random.default_rng(0)
X, y = r.normal(size=(12, 1, 30)), np.arange(12) % 2
e = R_DST_Ensemble(n_shapelets_per_estimator=20, shapelet_lengths=[4], shp_alpha=0.0, random_state=1, a_w=0.5).fit(X, y)
for m, w in zip(e.models, e.model_weights):
    assert abs(w - m['_internalridgecv'].get_loocv_train_acc(y) ** 0.5) < 1e-12
''')

s('c18-last-members', 'C18', ENS,
  [("        preds_proba = np.asarray(preds_proba).sum(axis=0)", "        preds_proba = np.asarray(preds_proba)[-3:].sum(axis=0)")],
  'an ensemble of more than three input transformations', 'only the last three members vote', '''
from convst.classifiers import R_DST_Ensemble
from convst.transformers._input_transformers import Raw, Derivate, Periodigram
r = np.random.default_rng(0)
for k in range(10):
    X, y = r.normal(size=(12, 1, 30)), np.arange(12) % 3
    e = R_DST_Ensemble(n_shapelets_per_estimator=20, shapelet_lengths=[4], shp_alpha=0.0, random_state=k, proba_norm=[.5] * 5,
                       input_transformers=[Raw(), Derivate(), Derivate(2), Periodigram(), Raw()]).fit(X, y)
    Z = r.normal(size=(40, 1, 30))
    V = sum(m.predict_proba(Z) * w for m, w in zip(e.models, e.model_weights))
    srt = np.sort(V, axis=1)
    ok = srt[:, -1] - srt[:, -2] > 1e-9
    assert (e.predict(Z)[ok] == e.classes_[V.argmax(axis=1)][ok]).all()
''')

RES = '''
import aeon.datasets as ad
r = np.random.default_rng(0)
X = r.normal(size=(40, 2, 9))
y = np.array(['a', 'b'] * 20)
ad.DATA['d'] = dict(train=(X[:20].copy(), y[:20]), test=(X[20:].copy(), y[20:]))
import convst.utils.experiments_utils as E
'''
s('c19-seed-mod', 'C19', EXP,
  [("                X_train, y_train, X_test, y_test = _resample(\n                    X_train_0, y_train_0, X_test_0, y_test_0, i\n                )\n            t0",
    "                X_train, y_train, X_test, y_test = _resample(\n                    X_train_0, y_train_0, X_test_0, y_test_0, i % 16\n                )\n            t0")],
  'more than sixteen splits', 'later splits repeat earlier ones', RES + '''
seen = []


class P:
    def fit(self, X, y):
        seen.append(X.copy())
        return self

    def predict(self, X):
        return np.zeros(len(X))


E.cross_validate_UCR_UEA(22, 'd').score(P())
assert len({x.tobytes() for x in seen}) == 22
''', 'pypy')

s('c19-fitted-copy', 'C19', EXP,
  [("                    X_train = np.copy(X_train_0)\n                    X_test = np.copy(X_test_0)\n                    \n",
    "                    X_train = X_train_0\n                    X_test = X_test_0\n                    \n")],
  'a pipeline that works in place on its input (a z-normalisation for instance)', 'the resamples are drawn from data changed by the first split', RES + '''
class P:
    def fit(self, X, y):
        X *= 2
        self.n = getattr(self, 'n', 0) + 1
        if self.n == 2:
            assert (np.abs(X).max() <= np.abs(X0).max() * 2)
            assert np.isin(X / 2, X0).all()
        return self

    def predict(self, X):
        return np.zeros(len(X))


X0 = X.copy()
E.cross_validate_UCR_UEA(2, 'd').score(P())
''', 'pypy')

s('c20-seed-mod', 'C20', EXP,
  [("                    X_train_0, y_train_0, X_test_0, y_test_0, i\n                )\n            idx_Train",
    "                    X_train_0, y_train_0, X_test_0, y_test_0, i % 16\n                )\n            idx_Train")],
  'more than sixteen splits', 'later splits repeat earlier ones', RES + '''
sp = [tuple(sorted(a)) for a, b in E._sklearn_cv(22, 'd').split(X)]
assert len(set(sp)) == 22
''', 'pypy')

s('c21-train-min', 'C21', DAT,
  [("        min([len(X_test[i][0]) for i in range(len(X_test))]),", "        min([len(X_test[i][-1]) for i in range(len(X_test))][:len(X_train)]),")],
  'a test part larger than the training part, whose shortest series comes late', 'the minimum length is too large', '''
import aeon.datasets as ad
r = np.random.default_rng(0)
y = np.array(['a', 'b'] * 4)
ad.DATA['d'] = dict(train=([r.normal(size=(1, t)) for t in (9, 9, 9)], y[:3]), test=([r.normal(size=(1, t)) for t in (9, 9, 9, 9, 5)], y[:5]))
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
assert load_UCR_UEA_dataset_split('d')[4] == 5
''')

s('c21-names-twice', 'C21', DAT,
  [("            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][i_ft].mean()) / (", "            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][0].mean()) / (")],
  'multivariate series of uneven length, normalised', 'channels after the first are centred with the (already normalised) first channel', '''
import aeon.datasets as ad
r = np.random.default_rng(0)
y = np.array(['a', 'b', 'a'])
ad.DATA['d'] = dict(train=([r.normal(size=(2, t)) + 5 for t in (9, 8, 7)], y), test=([r.normal(size=(2, t)) + 5 for t in (9, 8, 7)], y))
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
for x in load_UCR_UEA_dataset_split('d', normalize=True)[0]:
    assert np.allclose(x.mean(axis=1), 0, atol=1e-6)
''')

s('c22-cached-size', 'C22', INP,
  [("        n_ts = periodogram(X[0, 0, :], detrend=False, window=self.window_type)[1].shape[\n            0\n        ]\n",
    "        if not hasattr(self, '_win') or len(self._win) != X.shape[2]:\n            from scipy.signal import get_window\n            self._win = get_window(self.window_type, X.shape[2])\n        n_ts = X.shape[2] // 2 + 1\n"),
   ("                X_new[i, j] = periodogram(\n                    X[i, j], detrend=False, window=self.window_type\n                )[1]",
    "                X_new[i, j] = periodogram(\n                    X[i, j], detrend=False, window=self._win\n                )[1]")],
  'the same object used again after changing the window type', 'the window of the first use is kept', '''
from scipy.signal import periodogram
from convst.transformers._input_transformers import Periodigram
X = np.random.default_rng(0).normal(size=(3, 1, 20))
p = Periodigram()
p.transform(X)
p.set_params(window_type='hann')
assert np.allclose(p.transform(X)[0, 0], periodogram(X[0, 0], detrend=False, window='hann')[1])
''')

s('c22-high-order', 'C22', INP,
  [("        for i in range(self.order):\n            X = np.diff(X)", "        for i in range(min(self.order, 4)):\n            X = np.diff(X)")],
  'an order above four', 'the order of differences is limited', '''
from convst.transformers._input_transformers import Derivate
X = np.random.default_rng(0).normal(size=(3, 1, 20))
assert np.allclose(Derivate(6).transform(X), np.diff(X, n=6))
''')

s('c23-strict-pair', 'C23', RDST,
  [("        elif len(shapelet_lengths_bounds)==2:", "        elif len(np.unique(shapelet_lengths_bounds))==2:")],
  'equal bounds, or three bounds with a repeated one', 'a pair of equal bounds is refused, a triple accepted', FIT + '''
from convst.transformers import R_DST
R_DST(shapelet_lengths_bounds=[5, 5])
''')

s('c23-many-jobs', 'C23', CHK,
  [("        return min(n_jobs,cpu_count())", "        return min(int(np.asarray(n_jobs).astype(np.int8)),cpu_count())")],
  'a number of jobs above 127', 'the number of jobs wraps around and becomes negative', '''
from convst.utils.checks_utils import check_n_jobs
for k in (1, 3, 127, 128, 200, 300, 1000):
    assert check_n_jobs(np.int64(k)) >= 1, k
''')

s('c24-tied-match', 'C24', INT,
  [("            [(c.argmin() + i*self.dilation) % X.shape[0] for i in range(self.length)]",
    "            [(np.flatnonzero(np.isclose(c, c.min()))[-1] + i*self.dilation) % X.shape[0] for i in range(self.length)]")],
  'a series that contains the same best window twice', 'the shapelet is drawn at the last of the best windows', FIT + '''
from convst.interpreters import RDST_interpreter
from matplotlib import pyplot as plt
X = np.tile(np.random.default_rng(0).integers(0, 9, size=(6, 1, 10)).astype(float), 3)
m = fit(X, np.arange(6) % 2, proba_norm=0.0)


class Ax:
    def plot(self, *a, **k):
        pass

    def scatter(self, x, y, **k):
        self.x = np.asarray(x)


F = m.transform(X)
for q in ref.shapelets(m):
    a = Ax()
    RDST_interpreter(m).plot_on_X(q.i, X[0, 0], ax=a)
    assert a.x[0] == F[0, 3 * q.i + 1], (a.x, F[0, 3 * q.i + 1])
''')

s('c24-wrapped-scale', 'C24', INT,
  [("            _values = (_values * X[idx_match].std()) + X[idx_match].mean()",
    "            _m = X[idx_match.min():idx_match.max()+1:self.dilation]\n            _values = (_values * _m.std()) + _m.mean()")],
  'phase invariance and a best match that wraps around the end', 'the drawn values are rescaled with other points', FIT + '''
from convst.interpreters import RDST_interpreter
X = np.random.default_rng(0).normal(size=(6, 1, 17))
m = fit(X, np.arange(6) % 2, proba_norm=1.0, phase_invariance=True, n_shapelets=80)


class Ax:
    def plot(self, *a, **k):
        pass

    def scatter(self, x, y, **k):
        self.x, self.y = np.asarray(x), np.asarray(y)


for q in ref.shapelets(m):
    for i in range(6):
        a = Ax()
        RDST_interpreter(m).plot_on_X(q.i, X[i, 0], ax=a)
        w = X[i, 0][a.x]
        assert np.allclose(a.y, q.values[0] * w.std() + w.mean()), q.i
''')

CD = '''
import pandas as pd
from convst.utils import plot_utils as P
'''
s('c25-case-order', 'C25', PLT,
  [("    df_ranks = pd.DataFrame(data=rank_data, index=np.sort(\n        classifiers), columns=",
    "    df_ranks = pd.DataFrame(data=rank_data, index=sorted(\n        classifiers, key=str.lower), columns=")],
  'classifier names of mixed case', 'average ranks belong to other classifiers', CD + '''
rows = []
for n, off in (('RDST', .3), ('arsenal', .2), ('Weasel', .1), ('hydra', 0.)):
    for k in range(8):
        rows.append((n, 'd%d' % k, 0.5 + off))
df = pd.DataFrame(rows, columns=['classifier_name', 'dataset_name', 'accuracy'])
a = P._wilcoxon_holm(df_perf=df)[1]
assert a['RDST'] == 1 and a['arsenal'] == 2 and a['Weasel'] == 3 and a['hydra'] == 4, a
''', 'pypy')

s('c25-few-ties', 'C25', PLT,
  [("            p_value = wilcoxon(perf_1, perf_2, zero_method='pratt')[1]",
    "            p_value = wilcoxon(perf_1, perf_2, zero_method='pratt' if len(perf_1) > 10 else 'wilcox')[1]")],
  'ten datasets or fewer, with ties', 'ties are dropped from the test instead of being ranked', CD + '''
from scipy.stats import wilcoxon
a = np.array([.5, .6, .7, .8, .9, .55, .65, .75])
b = a + np.array([0, 0, .01, .02, -.01, .03, .04, .05])
c = a + .1
rows = [(n, 'd%d' % k, v[k]) for n, v in (('a', a), ('b', b), ('c', c)) for k in range(8)]
df = pd.DataFrame(rows, columns=['classifier_name', 'dataset_name', 'accuracy'])
p = [q for q in P._wilcoxon_holm(df_perf=df)[0] if {q[0], q[1]} == {'a', 'b'}][0]
assert abs(p[2] - wilcoxon(a, b, zero_method='pratt')[1]) < 1e-12
''', 'pypy')

s('c26-row-label', 'C26', PLT,
  [("            ax[i // ncols, i % ncols].set_xlabel(comp)", "            ax[i // ncols, i % ncols].set_xlabel(competitors[(i // ncols) * max_ncols + i % ncols] if i < 2*ncols else competitors[i % ncols])")],
  'a figure of three rows of panels or more', 'the panels of the third row carry the names of the first', CD + '''
from matplotlib import pyplot as plt
df = pd.DataFrame(np.random.default_rng(0).random((6, 8)), columns=list('abcdefgh'), index=['d%d' % k for k in range(6)])
for base in 'ah':
    fig = P.pairwise_plot(df, base, max_ncols=2)
    got = [ax.of('set_xlabel')[0][1][0] for ax in fig.axes if ax.of('set_xlabel')]
    assert got == [c for c in 'abcdefgh' if c != base], got
''', 'pypy')

s('c27-narrow-index', 'C27', NUM,
  [("    orig_idx = np.array([i for i in range(data.shape[0])])", "    orig_idx = np.array([i for i in range(data.shape[0])]).astype('uint8')")],
  'more than 256 rows', 'first indexes wrap around', '''
from convst.utils.numba_utils import nb_unique
X = np.arange(600.).reshape(300, 2)
u, i, c = nb_unique(X)
assert np.array_equal(np.asarray(i), np.arange(300))
''')

s('c30-broadcast', 'C30', RDST,
  [("        if np.all(n_ft == n_ft[0]):      ", "        if n_ft.max() == n_ft[0]:      ")],
  'a list whose first series has all channels and a later one a single channel', 'the single channel is copied into all channels', '''
from convst.transformers import R_DST
r = np.random.default_rng(0)
X = [r.normal(size=(3, 12)), r.normal(size=(1, 14)), r.normal(size=(3, 13)), r.normal(size=(3, 13))]
try:
    R_DST(n_shapelets=5, shapelet_lengths=[3]).fit(X, np.arange(4) % 2)
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')
