"""Planted bugs: (id, property, file, [(old, new)], needs, what it breaks, demonstration body)."""
T = 'convst/transformers/'
S = []


def s(id, prop, file, subs, needs, breaks, demo, py='cp'):
    S.append(dict(id=id, property=prop, file=file, subs=subs, needs=needs, breaks=breaks, demo=demo, py=py))


FIT = '''
from convst.transformers import R_DST


def fit(X, y, **k):
    p = dict(n_shapelets=40, shapelet_lengths=[3], alpha=0.0, random_state=1, n_jobs=1)
    p.update(k)
    return R_DST(**p).fit(X, y)
'''

s('c01-threshold-strict', 'C01', T + '_commons.py',
  [("""        _dist = manhattan(x[i], values)

        if _dist < _min or _min==-1.:
            _min = _dist
            _argmin = i

        if _dist <= threshold:
            _n_match += 1
            
    return _min, float_(_argmin), float_(_n_match)""",
    """        _dist = manhattan(x[i], values)
        if _dist < threshold:
            _n_match += 1

        if _dist < _min or _min==-1.:
            _min = _dist
            _argmin = i
    return _min, float_(_argmin), float_(_n_match)""")],
  'a distance exactly equal to the threshold', 'occurrence count misses windows at exactly the threshold', FIT + '''
X = np.array([[[0, 0, 1, 0, 0, 1, 0, 0, 1, 0.]], [[0, 1, 0, 0, 1, 0, 0, 1, 0, 0.]]] * 3)
m = fit(X, np.array([0, 0, 0, 1, 1, 1]), percentiles=[50, 50], proba_norm=0.0)
F = m.transform(X)
for sh in ref.shapelets(m):
    for i in range(len(X)):
        D, _ = ref.dist_vector(X[i], sh, False)
        assert F[i, 3 * sh.i + 2] == (D <= sh.thr).sum(), (sh.i, i)
''')

s('c01-early-abandon', 'C01', T + '_commons.py',
  [("""        _dist = manhattan(x[i], values)

        if _dist < _min or _min==-1.:
            _min = _dist""",
    """        _dist = 0.
        for j in range(length):
            _dist += abs(x[i, j] - values[j])
            if _dist >= _min and _min != -1.:
                break
        if _dist < _min or _min==-1.:
            _min = _dist""")],
  'a window farther than the threshold whose first differences reach the minimum but not the threshold',
  'early abandoning stops at the minimum, so windows beyond the threshold are counted as occurrences', FIT + '''
X = np.random.default_rng(0).normal(size=(6, 1, 20))
m = fit(X, np.arange(6) % 2, proba_norm=0.0, percentiles=[20, 60])
F = m.transform(X)
for sh in ref.shapelets(m):
    for i in range(len(X)):
        D, _ = ref.dist_vector(X[i], sh, False)
        assert F[i, 3 * sh.i + 2] == (D <= sh.thr).sum(), (sh.i, i)
''')

s('c02-sorted-channels', 'C02', T + '_multivariate_same_length.py',
  [("                channel_ids[a2[i_shp]:a2[i_shp+1]] = _channel_ids",
    "                channel_ids[a2[i_shp]:a2[i_shp+1]] = unique(_channel_ids)")],
  'a shapelet on several channels drawn in an order that is not increasing',
  'values of one channel are compared with another channel', FIT + '''
r = np.random.default_rng(0)
X = r.normal(size=(6, 4, 14)) + 10 * np.arange(4)[None, :, None]
m = fit(X, np.arange(6) % 2, proba_norm=0.0)
for sh in ref.shapelets(m):
    for v, c in zip(sh.values, sh.channels):
        assert any((np.abs(ref.windows(x[c], sh.L, sh.d, False) - v) < 1e-9).all(axis=1).any() for x in X), sh.i
''')

s('c02-norm-first-channels', 'C02', T + '_multivariate_variable_length.py',
  [("                    apply_one_shapelet_one_sample_multivariate(\n                        strides[_channels], _values, threshold[i_shp]",
    "                    apply_one_shapelet_one_sample_multivariate(\n                        strides[:n_channels[i_shp]], _values, threshold[i_shp]")],
  'a normalised multivariate shapelet of a variable-length model that does not use the first channels in order',
  'normalised shapelets read the first channels instead of their own', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(4, t)) for t in (12, 14, 15, 13, 16, 12)]
m = fit(X, np.arange(6) % 2, proba_norm=1.0)
F = m.transform(X)
for sh in ref.shapelets(m):
    for i in range(len(X)):
        D, tol = ref.dist_vector(X[i], sh, False)
        assert abs(F[i, 3 * sh.i] - D.min()) <= tol.max() + 1e-6, (sh.i, i)
''')

s('c03-padded-wrap', 'C03', T + '_univariate_variable_length.py',
  [("                X[i_sample, 0, :X_len[i_sample]], _length, _dilation, use_phase\n",
    "                X[i_sample, 0, :max(X_len[i_sample], (_length-1)*_dilation+2)], _length, _dilation, use_phase\n")],
  'a variable-length batch with a series hardly longer than a shapelet span, beside a longer one',
  'windows of a short series read the padding', FIT + '''
r = np.random.default_rng(3)
X = [r.normal(size=(1, t)) + 5 for t in (9, 14, 9, 13, 9, 12)]
m = fit(X, np.arange(6) % 2, shapelet_lengths=[5, 9], proba_norm=0.0)
F = m.transform(X)
for i in range(6):
    G = m.transform([X[i]])
    assert np.allclose(F[i], G[0]), i
''')

s('c05-hoisted-buffer', 'C05', T + '_multivariate_same_length.py',
  [("    #For each dilation, we can do in parallel\n",
    "    _buffer = zeros(n_features * max(shapelet_sizes))\n    #For each dilation, we can do in parallel\n"),
   ("            _values = zeros(_n_channels * _length)\n",
    "            _values = _buffer[:_n_channels * _length]\n")],
  'two threads sampling shapelets of different dilations at the same time',
  'the values of a shapelet can be overwritten by another thread', '''
from vlib import race
mon = race.Monitor()
nbrt.monitor = mon
nbrt.instrument = race.make_instrument(mon)
from convst.transformers import R_DST
r = np.random.default_rng(0)
X = r.normal(size=(5, 3, 30))
R_DST(n_shapelets=30, shapelet_lengths=[3], alpha=0.0, random_state=1).fit(X, np.arange(5) % 2)
assert not mon.conflicts, mon.conflicts[0]
''')

s('c06-empty-choice', 'C06', T + '_univariate_variable_length.py',
  [("        mask_sampling[:,:,i,X_len[i]:] = False", "        mask_sampling[:,:,i,X_len[i]+1:] = False"),
   ("                        mask_dil[i_x, :X_len[i_x]-(_length-1)*_dilation]\n                    )\n            \n            i_mask = where(i_mask)",
    "                        mask_dil[i_x, :X_len[i_x]+1-(_length-1)*_dilation]\n                    )\n            \n            i_mask = where(i_mask)")],
  'a variable-length set whose sampling space is exhausted in a series apart from the position after its last window',
  'a series without any free window is selected and the position is drawn from an empty choice', FIT + '''
r = np.random.default_rng(0)
for seed in range(12):
    X = [r.normal(size=(1, t)) for t in (5, 6, 7, 5)]
    m = fit(X, np.arange(4) % 2, n_shapelets=120, shapelet_lengths=[3], alpha=0.9, random_state=seed)
    assert np.isfinite(m.transform(X)).all()
''')

s('c07-view-normalised', 'C07', T + '_commons.py',
  [("""    v = zeros(length)
    _idx = i_start
    
    for j in prange(length):
        v[j] = X[_idx]
        _idx = _idx + d
    
    if normalize:
        v = (v - v.mean())/(v.std()+1e-8)
    return v""",
    """    v = X[i_start:i_start + (length-1)*d + 1:d]
    if normalize:
        _mean = v.mean()
        _std = v.std() + 1e-8
        for j in prange(length):
            v[j] = (v[j] - _mean)/_std
    return v""")],
  'normalised and overlapping raw shapelets sampled from the same series in the same fit',
  'extracting a normalised shapelet overwrites the training series, later shapelets are not windows of the data', FIT + '''
r = np.random.default_rng(0)
X = r.normal(size=(4, 1, 12)) * 5
m = fit(X, np.arange(4) % 2, proba_norm=0.5)
for sh in ref.shapelets(m):
    if not sh.norm:
        assert any((ref.windows(x[0], sh.L, sh.d, False) == sh.values[0]).all(axis=1).any() for x in X), sh.i
''')

s('c07-wrap-in-padding', 'C07', T + '_multivariate_variable_length.py',
  [("                        X[id_sample, _channel_ids[k], :X_len[id_sample]], index, _length,",
    "                        X[id_sample, _channel_ids[k]], index, _length,")],
  'phase invariance, variable-length multivariate series, and a start near the end of a series that is not the longest',
  'shapelets contain padding instead of the wrapped start of the series', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(2, t)) + 9 for t in (9, 15, 10, 16, 9, 12)]
m = fit(X, np.arange(6) % 2, proba_norm=0.0, phase_invariance=True)
for sh in ref.shapelets(m):
    for v in sh.values:
        assert (v > 1).all(), v
''')

s('c08-misaligned-threshold', 'C08', T + '_multivariate_same_length.py',
  [("        threshold[mask_return],\n", "        threshold[:mask_return.sum()],\n")],
  'a sampling space exhausted for one dilation before the last shapelet',
  'thresholds belong to other shapelets (or are never sampled) once some shapelets are dropped', FIT + '''
r = np.random.default_rng(0)
X = r.normal(size=(2, 2, 8)) + 50
X[1] -= 200
m = fit(X, np.array([0, 0]), proba_norm=0.0, alpha=0.9, n_shapelets=400, percentiles=[0, 100])
shp = ref.shapelets(m)
assert len(shp) < 400
F = m.transform(X)
for sh in shp:
    lo = min(ref.dist_vector(x, sh, False)[0].min() for x in X)
    hi = max(ref.dist_vector(x, sh, False)[0].max() for x in X)
    assert sh.thr > 0 and lo <= sh.thr <= hi, (sh.i, sh.thr, lo, hi)
    D = [ref.dist_vector(x, sh, False)[0] for x in X]
    i = 0 if D[1].min() > D[0].min() else 1
    assert D[1 - i].min() - 1e-9 <= sh.thr <= D[1 - i].max() + 1e-9, sh.i
''')

s('c09-pair-class', 'C09', T + '_univariate_same_length.py',
  [("                if loc_others.shape[0] > 1:\n", "                if loc_others.shape[0] > 2:\n")],
  'a class with exactly two training series', 'thresholds come from the series the shapelet was extracted from', FIT + '''
r = np.random.default_rng(0)
X = r.normal(size=(4, 1, 12))
y = np.array([0, 0, 1, 1])
m = fit(X, y, proba_norm=0.0, percentiles=[0, 0])
assert all(sh.thr > 0 for sh in ref.shapelets(m))
''')

s('c09-truncated-other', 'C09', T + '_univariate_variable_length.py',
  [("                    X[id_test, 0, :X_len[id_test]], v, _length,",
    "                    X[id_test, 0, :min(X_len[id_test], X_len[id_sample])], v, _length,")],
  'variable-length series of one class with the nearest window in the extra part of the longer one',
  'thresholds ignore the end of a longer series of the class', FIT + '''
a = np.zeros((1, 8)) + np.arange(8) * 3.0
b = np.concatenate([np.full((1, 8), 500.0), a], axis=1)
X = [a, b]
m = fit(X, np.array([0, 0]), proba_norm=0.0, percentiles=[0, 0], n_shapelets=30)
for sh in ref.shapelets(m):
    if sh.values[0].max() < 100:
        assert sh.thr < 1e-9, (sh.values, sh.thr)
''')

s('c10-forward-mask', 'C10', T + '_univariate_same_length.py',
  [("""                    mask_sampling[
                        norm, i_d, id_sample,
                        (index+(j*_dilation))%n_timestamps
                    ] = False""",
    """                    mask_sampling[
                        norm, i_d, id_sample,
                        min(index+(j*_dilation), n_timestamps-1)
                    ] = False""")],
  'phase invariance and a shapelet sampled so close to the end that the positions after it wrap around',
  'similar shapelets are sampled across the end of the series', FIT + '''
bad = 0
r = np.random.default_rng(0)
for seed in range(40):
    X = r.normal(size=(1, 1, 12))
    m = fit(X, np.array([0]), proba_norm=0.0, alpha=1.0, shapelet_lengths=[4], phase_invariance=True,
            random_state=seed, n_shapelets=60)
    P = {}
    for sh in ref.shapelets(m):
        W = ref.windows(X[0, 0], 4, sh.d, True)
        P.setdefault(sh.d, []).append(int(np.where((W == sh.values[0]).all(axis=1))[0][0]))
    for d, ps in P.items():
        for i in range(len(ps)):
            for j in range(i):
                for k in range(-2, 3):
                    if (ps[i] - ps[j] - k * d) % 12 == 0:
                        assert False, (seed, d, ps)
''')

s('c10-first-channel', 'C10', T + '_multivariate_variable_length.py',
  [("""                        mask_sampling[
                            norm, i_d, id_sample, _channel_ids[k],
                            (index+(j*_dilation))%X_len[id_sample]
                        ] = False""",
    """                        mask_sampling[
                            norm, i_d, id_sample, _channel_ids[0],
                            (index+(j*_dilation))%X_len[id_sample]
                        ] = False""")],
  'multivariate variable-length shapelets on several channels, and a second one sampled after them',
  'channels other than the first are not protected from similar shapelets starting later', FIT + '''
r = np.random.default_rng(0)
for seed in range(30):
    X = [r.normal(size=(2, 14))]
    m = fit(X, np.array([0]), proba_norm=0.0, alpha=1.0, shapelet_lengths=[4], random_state=seed, n_shapelets=60)
    P = []
    for sh in ref.shapelets(m):
        W = ref.windows(X[0][sh.channels[0]], 4, sh.d, False)
        p = int(np.where((W == sh.values[0]).all(axis=1))[0][0])
        for q, d, ch in P:
            if d == sh.d and set(ch) & set(sh.channels) and (p - q) % d == 0:
                assert abs(p - q) // d >= 3, (seed, d, p, q)
        P.append((p, sh.d, list(sh.channels)))
''')

s('c11-last-prime', 'C11', T + '_commons.py',
  [("        P = array([1/2**log(i) for i in range(1,n_choice+1)])",
    "        P = array([1/2**log(i) for i in range(1,max(2,n_choice-1)+1)])")],
  'many shapelets with prime dilations: the largest fitting prime never occurs',
  'the largest fitting prime dilation is never sampled', FIT + '''
X = np.random.default_rng(0).normal(size=(3, 1, 30))
m = fit(X, np.array([0, 0, 0]), prime_dilations=True, n_shapelets=800)
got = {sh.d for sh in ref.shapelets(m)}
assert got == {1, 2, 3, 5, 7, 11, 13}, got
''')

s('c12-zero-state', 'C12', T + 'rdst.py',
  [("        rng = check_random_state(self.random_state)\n",
    "        rng = check_random_state(self.random_state or None)\n")],
  'random_state=0', 'fits with random state 0 are not reproducible', FIT + '''
X = np.random.default_rng(0).normal(size=(5, 1, 20))
y = np.arange(5) % 2
np.random.seed(1)
a = fit(X, y, random_state=0)
np.random.seed(2)
b = fit(X, y, random_state=0)
assert ref.same_shapelets(ref.snapshot(a), ref.snapshot(b))
''')

s('c13-components-kept', 'C13', 'convst/classifiers/rdst_ridge.py',
  [("        self._init_components()\n        self.transformer = self.transformer.fit(X, y)",
    "        if not hasattr(self, 'classifier'):\n            self._init_components()\n        self.transformer = self.transformer.fit(X, y)")],
  'fit, then set_params, then fit again', 'parameters changed between two fits are ignored', '''
from convst.classifiers import R_DST_Ridge
r = np.random.default_rng(0)
X, y = r.normal(size=(10, 1, 20)), np.arange(10) % 2
p = dict(shapelet_lengths=[3], alpha=0.0, random_state=3, n_jobs=1)
a = R_DST_Ridge(n_shapelets=30, **p).fit(X, y)
a.set_params(n_shapelets=12)
a.fit(X, y)
assert len(ref.shapelets(a.transformer)) == 12, len(ref.shapelets(a.transformer))
''')

s('c14-first-dtype', 'C14', T + 'rdst.py',
  [("            X_new = np.zeros((len(X), n_ft[0], lengths.max()))\n",
    "            X_new = np.zeros((len(X), n_ft[0], lengths.max()), dtype=X[0].dtype)\n")],
  'a list of series whose first one is stored as integers and another as floats',
  'fractional values of the other series are truncated', FIT + '''
r = np.random.default_rng(0)
X = [np.array([[1., 2, 3, 4, 5, 6, 7, 8]])] + [r.normal(size=(1, t)) for t in (9, 10, 8, 12)]
Y = [X[0].astype(np.int64)] + X[1:]
y = np.arange(5) % 2
a, b = fit(X, y), fit(Y, y)
assert ref.same_shapelets(ref.snapshot(a), ref.snapshot(b))
assert np.allclose(a.transform(X), a.transform(Y))
''')

s('c15-step-offset', 'C15', T + 'rdst.py',
  [("                    lengths = lengths[::step]", "                    lengths = lengths[lengths.shape[0] % step::step]")],
  'bounds whose number of lengths is not a multiple of the thinning step', 'the lower bound is dropped from the lengths', FIT + '''
X = np.random.default_rng(0).normal(size=(4, 1, 40))
m = fit(X, np.arange(4) % 2, shapelet_lengths_bounds=[4, 14], lengths_bounds_reduction=0.5, n_shapelets=600)
got = sorted({sh.L for sh in ref.shapelets(m)})
assert got == list(range(4, 15, 2)), got
''')

s('c16-ensemble-reduction', 'C16', 'convst/classifiers/rdst_ensemble.py',
  [("                        lengths_bounds_reduction=self.lengths_bounds_reduction,\n",
    "                        lengths_bounds_reduction=self.lengths_bounds_reduction * self.a_w / max(self.a_w, 1),\n")],
  'an ensemble with a weighting exponent below 1 and shapelet length bounds',
  'the thinning of the lengths depends on the vote exponent', '''
from convst.classifiers import R_DST_Ensemble
from convst.transformers import R_DST
seen = []
f = R_DST.fit
R_DST.fit = lambda self, X, y: (seen.append(self), f(self, X, y))[1]
X, y = np.random.default_rng(0).normal(size=(10, 1, 40)), np.arange(10) % 2
R_DST_Ensemble(n_shapelets_per_estimator=300, shapelet_lengths_bounds=[4, 14], lengths_bounds_reduction=0.5, a_w=0.1,
               shp_alpha=0.0, random_state=1, n_jobs=1).fit(X, y)
got = sorted({sh.L for sh in ref.shapelets(seen[0])})
assert got == list(range(4, 15, 2)), got
''')

s('c17-scaler-recomputed', 'C17', T + '_input_transformers.py',
  [("""    def transform(self, X):
        return super().transform(X[:, self.usefull_atts])


class c_MinMaxScaler""",
    """    def transform(self, X):
        X = X[:, self.usefull_atts]
        if X.shape[0] > self.n_samples_seen_:
            self.partial_fit(X)
        return super().transform(X)


class c_MinMaxScaler""")],
  'predicting a test set larger than the training set', 'test data changes the standardisation', '''
from convst.classifiers import R_DST_Ridge
import sklearn.preprocessing as sp
if not hasattr(sp.StandardScaler, 'partial_fit'):
    sp.StandardScaler.partial_fit = sp.StandardScaler.fit
r = np.random.default_rng(0)
X, y = r.normal(size=(8, 1, 20)), np.arange(8) % 2
c = R_DST_Ridge(n_shapelets=30, shapelet_lengths=[3], alpha=0.0, random_state=3, n_jobs=1).fit(X, y)
Z = r.normal(size=(30, 1, 20)) * np.linspace(0.2, 9, 30)[:, None, None]
sc = c.classifier[0]
F = c.transformer.transform(Z)
a = sc.transform(F[:5])
sc.transform(F)
assert np.allclose(a, sc.transform(F[:5]))
''')

s('c18-first-alpha', 'C18', 'convst/classifiers/rdst_ensemble.py',
  [("            cv_vals = self.cv_values_[:, :, alpha_idx]",
    "            cv_vals = self.cv_values_[:, :, alpha_idx % (self.cv_values_.shape[2] - 1)]")],
  'a member whose selected regularisation is the last one offered',
  'the weight of that member is computed with another regularisation', '''
from convst.classifiers.rdst_ensemble import _internalRidgeCV
r = np.random.default_rng(0)
worst = 0
for k in range(200):
    X = r.normal(size=(14, 6))
    y = np.arange(14) % 3
    if k % 2:
        X[np.arange(14), y] += 3
    m = _internalRidgeCV(alphas=np.array([300.0, 30.0, 1.0, 1e-2])).fit(X, y)
    j = int(np.where(m.alphas == m.alpha_)[0][0])
    want = (m.cv_values_[:, :, j].argmax(axis=1) == y).mean()
    assert abs(m.get_loocv_train_acc(y) - want) < 1e-12, (k, j)
''')

s('c18-all-softmax', 'C18', 'convst/classifiers/rdst_ensemble.py',
  [("    return model.predict_proba(X) * w",
    "    p = model.predict_proba(X)\n    return (p == p.max(axis=1, keepdims=True)) * w")],
  'members that disagree with different confidence', 'each member casts a hard vote instead of its probabilities', '''
from convst.classifiers import R_DST_Ensemble
r = np.random.default_rng(0)
n = 0
for k in range(6):
    X, y = r.normal(size=(12, 1, 30)), np.arange(12) % 3
    e = R_DST_Ensemble(n_shapelets_per_estimator=20, shapelet_lengths=[4], shp_alpha=0.0, random_state=k, n_jobs=1).fit(X, y)
    Z = r.normal(size=(40, 1, 30))
    V = sum(m.predict_proba(Z) * w for m, w in zip(e.models, e.model_weights))
    srt = np.sort(V, axis=1)
    ok = srt[:, -1] - srt[:, -2] > 1e-9
    assert (e.predict(Z)[ok] == e.classes_[V.argmax(axis=1)][ok]).all()
''')

s('c19-stale-labels', 'C19', 'convst/utils/experiments_utils.py',
  [("            t0 = timer()\n            pipeline =", "            y_train_0, y_test_0 = y_train, y_test\n            t0 = timer()\n            pipeline ="),
   ("                X_train, y_train, X_test, y_test = _resample(\n                    X_train_0, y_train_0, X_test_0, y_test_0, i\n                )\n            y_train_0",
    "                X_train, y_train, X_test, y_test = _resample(\n                    X_train_0, y_train_0, X_test_0, y_test_0, i)\n            y_train_0")],
  'three or more splits of a dataset whose series are not sorted by class',
  'from the third split on, labels of the previous resample are attached to the original series', '''
import aeon.datasets as ad
r = np.random.default_rng(0)
tr, te = r.normal(size=(8, 1, 9)), r.normal(size=(6, 1, 9))
y0, y1 = np.array(['a', 'b'] * 4), np.array(['a', 'b'] * 3)
tr[y0 == 'b'] += 100
te[y1 == 'b'] += 100
ad.DATA['d'] = dict(train=(tr, y0), test=(te, y1))
from convst.utils.experiments_utils import cross_validate_UCR_UEA


class P:
    def fit(self, X, y):
        assert np.array_equal(np.asarray(X)[:, 0, 0] > 50, np.asarray(y) == 1), y
        return self

    def predict(self, X):
        return (np.asarray(X)[:, 0, 0] > 50).astype(int)


s = cross_validate_UCR_UEA(4, 'd').score(P())
assert (s['accuracy'] == 1).all()
''', 'pypy')

s('c19-swapped-metric', 'C19', 'convst/utils/experiments_utils.py',
  [("                _score.loc[i, scorer_name] = scorer(y_test, y_pred)",
    "                _score.loc[i, scorer_name] = scorer(y_pred, y_test)")],
  'a metric that is not symmetric in truth and prediction', 'such metrics are computed with the roles exchanged', '''
import aeon.datasets as ad
r = np.random.default_rng(0)
X = r.normal(size=(12, 1, 9))
y = np.array(['a', 'b', 'b'] * 4)
ad.DATA['d'] = dict(train=(X[:6].copy(), y[:6]), test=(X[6:].copy(), y[6:]))
from convst.utils.experiments_utils import cross_validate_UCR_UEA


class P:
    def fit(self, X, y):
        return self

    def predict(self, X):
        return np.zeros(len(X), int)


recall_b = lambda t, p: ((t == 1) & (p == 1)).sum() / max(1, (t == 1).sum()) + (t == 1).sum()
s = cross_validate_UCR_UEA(2, 'd', {'m': recall_b}).score(P())
assert s['m'].tolist() == [4, 4], s
''', 'pypy')

s('c20-resample-seed', 'C20', 'convst/utils/experiments_utils.py',
  [("                X_train, y_train, X_test, y_test = _resample(\n                    X_train_0, y_train_0, X_test_0, y_test_0, i\n                )\n            idx_Train",
    "                X_train, y_train, X_test, y_test = _resample(\n                    X_train_0, y_train_0, X_test_0, y_test_0, min(i, self.n_splits - i)\n                )\n            idx_Train")],
  'more splits than three: resamples are repeated in reverse', 'the splits are not those of the resamples they stand for', '''
import aeon.datasets as ad
r = np.random.default_rng(0)
X = r.normal(size=(12, 2, 9))
y = np.array(['a', 'b'] * 6)
ad.DATA['d'] = dict(train=(X[:6].copy(), y[:6]), test=(X[6:].copy(), y[6:]))
from convst.utils.experiments_utils import _sklearn_cv, _resample
for i, (a, b) in enumerate(_sklearn_cv(5, 'd').split(X)):
    if i:
        A, _, B, _ = _resample(X[:6], y[:6] == 'b', X[6:], y[6:] == 'b', i)
        assert np.array_equal(X[a], A) and np.array_equal(X[b], B), i
''', 'pypy')

s('c21-min-len-train', 'C21', 'convst/utils/dataset_utils.py',
  [("        min([len(X_test[i][0]) for i in range(len(X_test))]),", "        min([len(X_test[i][0]) for i in range(min(len(X_train), len(X_test)))]),")],
  'a ragged dataset with more test than training series and the shortest one among the last',
  'the length of the shortest series is not the minimum', '''
import aeon.datasets as ad
r = np.random.default_rng(0)
tr = [r.normal(size=(1, t)) for t in (9, 10, 11)]
te = [r.normal(size=(1, t)) for t in (9, 10, 11, 12, 6)]
ad.DATA['d'] = dict(train=(tr, np.array(['a', 'b', 'a'])), test=(te, np.array(['a', 'b', 'a', 'b', 'a'])))
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
assert load_UCR_UEA_dataset_split('d')[4] == 6
''')

s('c21-norm-cast', 'C21', 'convst/utils/dataset_utils.py',
  [("            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][i_ft].mean()) / (\n                X[i_x][i_ft].std() + 1e-8\n            )\n    return X\n\n\ndef load",
    "            X[i_x][i_ft] = (X[i_x][i_ft] - X[i_x][i_ft].mean()) / (\n                X[i_x][0].std() + 1e-8\n            )\n    return X\n\n\ndef load")],
  'a multivariate variable-length dataset loaded with normalisation',
  'channels after the first are divided by the deviation of the normalised first channel', '''
import aeon.datasets as ad
r = np.random.default_rng(0)
tr = [r.normal(size=(2, t)) * 7 for t in (9, 10, 11)]
te = [r.normal(size=(2, t)) * 7 for t in (9, 10, 11)]
ad.DATA['d'] = dict(train=(tr, np.array(['a', 'b', 'a'])), test=(te, np.array(['a', 'b', 'a'])))
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
for x in load_UCR_UEA_dataset_split('d', normalize=True)[0]:
    assert np.allclose(x.std(axis=1), 1, atol=1e-4), x.std(axis=1)
''')

s('c22-derivate-order', 'C22', T + '_input_transformers.py',
  [("        for i in range(self.order):\n            X = np.diff(X)\n        return X",
    "        for i in range(self.order):\n            X = np.diff(X, axis=-1 if i < 2 else -2) if X.shape[1] > 1 else np.diff(X)\n        return X")],
  'a third-order difference of multivariate series', 'the third difference is taken across channels', '''
from convst.transformers._input_transformers import Derivate
X = np.random.default_rng(0).normal(size=(3, 3, 10))
D = Derivate(order=3).fit(X).transform(X)
assert D.shape == (3, 3, 7) and np.allclose(D, np.diff(X, n=3))
''')

s('c22-periodogram-detrend', 'C22', T + '_input_transformers.py',
  [("                X_new[i, j] = periodogram(\n                    X[i, j], detrend=False, window=self.window_type\n                )[1]",
    "                X_new[i, j] = periodogram(\n                    X[i, j], detrend=False, window=self.window_type if j == 0 else 'boxcar'\n                )[1]")],
  'multivariate series and a window other than the default', 'channels after the first are not windowed', '''
from convst.transformers._input_transformers import Periodigram
X = np.random.default_rng(0).normal(size=(2, 2, 16))
X[:, 1] = X[:, 0]
P = Periodigram(window_type='hann').fit(X).transform(X)
assert np.allclose(P[:, 0], P[:, 1])
''')

s('c23-four-dims', 'C23', 'convst/utils/checks_utils.py',
  [("    X = check_is_numpy_or_pd(X)\n    if X.ndim != 3:", "    X = check_is_numpy_or_pd(X)\n    if X.ndim < 3:")],
  'input with more than three dimensions', 'input of the wrong dimension is accepted', '''
from convst.utils.checks_utils import check_array_3D
import sys
try:
    check_array_3D(np.zeros((4, 1, 9, 2)))
except ValueError:
    sys.exit(0)
sys.exit(1)
''', 'pypy')

s('c24-dropped-features', 'C24', 'convst/interpreters/rdst_interpreter.py',
  [("        c_[self.RDST_Ridge.classifier['c_standardscaler'].usefull_atts] = coefs[class_id]",
    "        c_[:coefs.shape[1]] = coefs[class_id]")],
  'a fitted classifier in which some feature is constant on the training data',
  'coefficients are attributed to other shapelets', '''
from convst.classifiers import R_DST_Ridge
from convst.interpreters import RDST_Ridge_interpreter
from matplotlib import pyplot as plt
r = np.random.default_rng(0)
X, y = r.normal(size=(12, 1, 5)), np.arange(12) % 2
c = R_DST_Ridge(n_shapelets=12, shapelet_lengths=[5, 3], alpha=0.0, random_state=3, n_jobs=1, percentiles=[0, 0]).fit(X, y)
F = c.transformer.transform(X)
keep = np.where(np.ptp(F, axis=0) != 0)[0]
assert len(keep) < F.shape[1]
full = np.zeros(F.shape[1])
full[keep] = c.classifier['ridgeclassifiercv'].coef_[0]
best = int(full.argmax()) // 3
RDST_Ridge_interpreter(c).visualize_best_shapelets_one_class(X, y, 1)
col = [a.of('sns.boxplot')[0][2]['y'] for a in plt.FIGS[0].axes if a.of('sns.boxplot')][0]
assert np.array_equal(col, F[:, 3 * best])
''')

s('c24-window-scale', 'C24', 'convst/interpreters/rdst_interpreter.py',
  [("            _values = (_values * X[idx_match].std()) + X[idx_match].mean()",
    "            _w = X[idx_match.min():idx_match.max()+1:self.dilation]\n            _values = (_values * _w.std()) + _w.mean()")],
  'phase invariance and a best match that wraps around the end', 'the drawn shapelet is scaled to the wrong window', FIT + '''
from convst.interpreters import RDST_interpreter
from matplotlib import pyplot as plt
r = np.random.default_rng(0)
X = r.normal(size=(6, 1, 11)) + np.arange(11)
m = fit(X, np.arange(6) % 2, proba_norm=1.0, phase_invariance=True)
for sh in ref.shapelets(m):
    for x in X:
        ax = plt.Axes()
        RDST_interpreter(m).plot_on_X(sh.i, x[0], ax=ax)
        pos, val = ax.of('scatter')[0][1][:2]
        w = x[0][pos]
        assert np.allclose(val, sh.values[0] * w.std() + w.mean())
''')

s('c25-no-stop', 'C25', 'convst/utils/plot_utils.py',
  [("""            p_values[i] = (p_values[i][0], p_values[i]
                           [1], p_values[i][2], True)
        else:
            # stop
            break""",
    """            p_values[i] = (p_values[i][0], p_values[i]
                           [1], p_values[i][2], True)""")],
  'p-values such that a hypothesis is retained and a later one is below its own level',
  "pairs after the first retained hypothesis are declared different (not Holm's step-down)", '''
import pandas as pd
import contextlib, io
from convst.utils import plot_utils as pu
ps = {frozenset('ab'): 0.001, frozenset('ac'): 0.03, frozenset('bc'): 0.04}
A = dict(a=np.arange(8) / 10, b=np.arange(8) / 20, c=np.arange(8) / 30)
it = iter(sorted(ps))
pu.wilcoxon = lambda x, y, **k: (0, ps[frozenset(n for n in A if np.array_equal(A[n], x) or np.array_equal(A[n], y))])
df = pd.DataFrame([(c, 'd%d' % i, A[c][i]) for c in 'abc' for i in range(8)],
                  columns=['classifier_name', 'dataset_name', 'accuracy'])
with contextlib.redirect_stdout(io.StringIO()):
    pv = pu._wilcoxon_holm(df_perf=df, alpha=0.05)[0]
assert {frozenset(p[:2]): bool(p[3]) for p in pv} == {frozenset('ab'): True, frozenset('ac'): False, frozenset('bc'): False}
''', 'pypy')

s('c25-rank-min', 'C25', 'convst/utils/plot_utils.py',
  [("    average_ranks = df_ranks.rank(ascending=False).mean(", "    average_ranks = df_ranks.rank(ascending=False, method='min').mean(")],
  'two classifiers with the same accuracy on a dataset', 'ties take the better rank instead of the average', '''
import pandas as pd
import contextlib, io
from convst.utils import plot_utils as pu
A = dict(a=np.r_[0.5, np.arange(7) / 10], b=np.r_[0.5, np.arange(7) / 20], c=np.r_[0.1, np.arange(7) / 30])
df = pd.DataFrame([(c, 'd%d' % i, A[c][i]) for c in 'abc' for i in range(8)],
                  columns=['classifier_name', 'dataset_name', 'accuracy'])
with contextlib.redirect_stdout(io.StringIO()):
    av = pu._wilcoxon_holm(df_perf=df, alpha=0.05)[1]
assert abs(sum(av) - 6) < 1e-9, av
''', 'pypy')

s('c26-single-panel', 'C26', 'convst/utils/plot_utils.py',
  [("                if np.any(np.abs(x-y)>=show_names_above):\n                    for j in range(df.shape[0]):\n                        x1 = df.iloc[j][comp]\n                        y1 = df.iloc[j][baseline]\n                        if abs(x1 - y1) > show_names_above:\n                            ax[i % ncols].annotate(",
    "                if np.any(np.abs(x-y)>=show_names_above):\n                    for j in range(df.shape[0]):\n                        x1 = df.iloc[j, i]\n                        y1 = df.iloc[j][baseline]\n                        if abs(x1 - y1) > show_names_above:\n                            ax[i % ncols].annotate(")],
  'a single row of several panels and columns that are not in alphabetical order with the baseline last',
  'names are written at the accuracy of another competitor', '''
import pandas as pd
from convst.utils.plot_utils import pairwise_plot
df = pd.DataFrame([[0.1, 0.2, 0.95], [0.3, 0.6, 0.9], [0.5, 0.5, 0.5]], columns=['base', 'a', 'b'], index=['d0', 'd1', 'd2'])
fig = pairwise_plot(df, 'base', show_names_above=0.25, max_ncols=3)
for ax in fig.axes:
    comp = ax.of('set_xlabel')[0][1][0]
    for c in ax.of('annotate'):
        if c[1][0] in df.index:
            assert tuple(c[1][1]) == (df.loc[c[1][0], comp], df.loc[c[1][0], 'base']), (comp, c[1])
''', 'pypy')

s('c27-unstable-sort', 'C27', 'convst/utils/numba_utils.py',
  [("        sorter = data[:, i].argsort(kind=\"mergesort\")\n", "        sorter = data[:, i].argsort(kind=\"mergesort\" if i else \"quicksort\")\n")],
  'more than sixteen rows (short arrays are sorted stably by any method)',
  'rows that are equal are not adjacent, or are not represented by their first occurrence', '''
from convst.utils.numba_utils import nb_unique
r = np.random.default_rng(0)
for k in range(50):
    A = r.integers(0, 3, size=(60, 3)).astype(float)
    u, f, c = nb_unique(A)
    U, F, C = np.unique(A, axis=0, return_index=True, return_counts=True)
    assert np.array_equal(u, U) and np.array_equal(f, F) and np.array_equal(c, C)
''')

s('c28-parallel-literal', 'C28', T + '_input_transformers.py',
  [("@njit(cache=__USE_NUMBA_CACHE__, parallel=__USE_NUMBA_PARALLEL__)", "@njit(cache=__USE_NUMBA_CACHE__, parallel=True)")],
  'parallelism switched off before importing', 'one compiled function stays parallel', '''
import convst
convst.__USE_NUMBA_PARALLEL__ = False
import convst.transformers._input_transformers
for d in nbrt.dispatchers:
    assert not d.targetoptions.get('parallel'), d
''')

s('c29-prime-squares', 'C29', T + '_commons.py',
  [("    for i in range(3, int64(sqrt(n)) + 1, 2):", "    for i in range(3, int64(sqrt(n - 1)) + 1, 2):")],
  'the square of an odd prime', 'squares of odd primes count as primes', '''
from convst.transformers._commons import is_prime
got = [n for n in range(1, 130) if is_prime(n)]
assert got == [n for n in range(1, 130) if all(n % q for q in range(2, n))], got
''')
