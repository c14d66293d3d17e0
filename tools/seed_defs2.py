"""Planted bugs, second batch."""
from seed_defs import s, FIT, T

JUDGE = FIT + '''

class Mon:
    def fail(self, tag, msg, **k):
        raise AssertionError(tag + ' ' + msg)

    def count(self, *a, **k):
        pass


def judge(m, X, phase=False):
    F = m.transform(X)
    for sh in ref.shapelets(m):
        for i in range(len(X)):
            ref.judge_features(Mon(), X[i], sh, phase, F[i, 3 * sh.i:3 * sh.i + 3], '')
'''
USL, UVL = T + '_univariate_same_length.py', T + '_univariate_variable_length.py'
MSL, MVL = T + '_multivariate_same_length.py', T + '_multivariate_variable_length.py'
COM, RDST, INP = T + '_commons.py', T + 'rdst.py', T + '_input_transformers.py'
ENS, RID = 'convst/classifiers/rdst_ensemble.py', 'convst/classifiers/rdst_ridge.py'
EXP, DAT = 'convst/utils/experiments_utils.py', 'convst/utils/dataset_utils.py'
PLT, CHK, NUM = 'convst/utils/plot_utils.py', 'convst/utils/checks_utils.py', 'convst/utils/numba_utils.py'
INT = 'convst/interpreters/rdst_interpreter.py'

s('c01-flat-window', 'C01', USL,
  [("                    _str = strides[i_stride]\n                    strides[i_stride] = (_str - mean(_str))/(std(_str)+1e-8)",
    "                    _str = strides[i_stride]\n                    _std = std(_str)\n                    if _std > 0:\n                        strides[i_stride] = (_str - mean(_str))/(_std+1e-8)")],
  'a constant window of a series compared with a normalised shapelet', 'constant windows are compared without normalisation', JUDGE + '''
r = np.random.default_rng(0)
X = r.normal(size=(6, 1, 16)) + 3
Z = X.copy()
Z[:, :, 5:12] = 4.0
m = fit(X, np.arange(6) % 2, proba_norm=1.0, percentiles=[90, 95])
judge(m, Z)
''')

s('c01-last-tie', 'C01', COM,
  [("        _dist = manhattan(x[i], values)\n\n        if _dist < _min or _min==-1.:\n            _min = _dist\n            _argmin = i\n\n        if _dist <= threshold:",
    "        _dist = manhattan(x[i], values)\n\n        if not (_dist >= _min) or _min<=0.:\n            _min = _dist\n            _argmin = i\n\n        if _dist <= threshold:")],
  'a series that contains the exact shapelet before its last window', 'a perfect match (distance zero) is overwritten by the following windows', JUDGE + '''
X = np.random.default_rng(0).normal(size=(6, 1, 16))
judge(fit(X, np.arange(6) % 2, proba_norm=0.0), X)
''')

s('c01-phase-dense', 'C01', COM,
  [("def generate_strides_1D(X, window_size, dilation, use_phase):\n    if use_phase:",
    "def generate_strides_1D(X, window_size, dilation, use_phase):\n    if use_phase and dilation > 1:")],
  'phase invariance and a shapelet of dilation one', 'windows wrapping around the end are skipped for dilation one', JUDGE + '''
X = np.random.default_rng(0).normal(size=(6, 1, 16))
judge(fit(X, np.arange(6) % 2, phase_invariance=True), X, True)
''')

s('c02-compacted-channels', 'C02', MVL,
  [("        mask_channel_ids[c2:d2] = channel_ids[a2[i_shp]:a2[i_shp+1]]",
    "        mask_channel_ids[c2:d2] = channel_ids[c2:d2]")],
  'variable-length multivariate data whose sampling space is exhausted for some shapelets',
  'after the dropped shapelets, values are paired with the channels of other shapelets', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(3, t)) + 10 * np.arange(3)[:, None] for t in (7, 8, 9)]
m = fit(X, np.array([0, 1, 0]), alpha=1.0, n_shapelets=200, proba_norm=0.0)
sh = ref.shapelets(m)
assert len(sh) < 200
for q in sh:
    for v, c in zip(q.values, q.channels):
        assert (abs(v - 10 * c) < 5.01).all(), (q.i, c, v)
''')

s('c02-early-channel-stop', 'C02', COM,
  [("        for ft in prange(n_ft):\n            _dist += manhattan(x[ft, i], values[ft])\n",
    "        for ft in range(n_ft):\n            _dist += manhattan(x[ft, i], values[ft])\n            if _dist > threshold and _dist > _min:\n                break\n")],
  'the first window of a series: its distance is truncated after the first channel beyond the threshold',
  'the smallest distance and its position are wrong when the first window is cut short', JUDGE + '''
X = np.random.default_rng(0).normal(size=(8, 3, 9))
judge(fit(X, np.arange(8) % 2, n_shapelets=80), X)
''')

s('c03-balanced-order', 'C03', RDST,
  [("            X_new = self.transformer(\n                X, self.shapelets_, self.phase_invariance, X_len\n            )",
    "            order = np.argsort(-X_len, kind='stable')\n            X_new = self.transformer(\n                X[order], self.shapelets_, self.phase_invariance, X_len[order]\n            )[order]")],
  'at least three series whose ordering by length is not its own inverse', 'rows of the result are attributed to other series', JUDGE + '''
r = np.random.default_rng(0)
X = [r.normal(size=(1, t)) for t in (10, 12, 14, 11, 13)]
judge(fit(X, np.arange(5) % 2), X)
''')

s('c03-long-wrap', 'C03', COM,
  [("            for j in prange(window_size):\n                X_new[ft,i,j] = X[ft,(i+(j*dilation))%n_timestamps]",
    "            for j in prange(window_size):\n                k = i + (j*dilation)\n                X_new[ft,i,j] = X[ft, k if k < n_timestamps else min(k - n_timestamps, dilation - 1)]")],
  'phase invariance and a window with two or more positions beyond the end of the series',
  'only the first position beyond the end wraps correctly', JUDGE + '''
r = np.random.default_rng(0)
X = [r.normal(size=(2, t)) for t in (10, 12, 14, 11, 13)]
judge(fit(X, np.arange(5) % 2, shapelet_lengths=[5], phase_invariance=True), X, True)
''')

s('c04-last-result', 'C04', RDST,
  [("            X_new = self.transformer(\n                X, self.shapelets_, self.phase_invariance\n            )\n",
    "            key = (id(self.shapelets_), X.shape, X[0].tobytes(), X[-1].tobytes())\n            if getattr(self, '_last', (None, None))[0] != key:\n                self._last = (key, self.transformer(X, self.shapelets_, self.phase_invariance))\n            X_new = self._last[1].copy()\n")],
  'two batches of the same shape that agree in their first and last series', 'the features of the earlier batch are returned', FIT + '''
r = np.random.default_rng(0)
X = r.normal(size=(6, 1, 16))
m = fit(X, np.arange(6) % 2)
m.transform(X)
Z = X.copy()
Z[2] = r.normal(size=(1, 16))
assert np.array_equal(m.transform(Z)[2], m.transform(Z[2:3])[0])
''')

s('c04-centred-values', 'C04', USL,
  [("                    _values = values[i_shp, :_length]\n                    \n                    X_new[i_sample, (n_features * i_shp):(n_features * i_shp + n_features)] = \\\n                    apply_one_shapelet_one_sample_univariate(\n                        strides, _values, threshold[i_shp]\n                    )\n                \n    return",
    "                    _v = values[i_shp, :_length]\n                    _v -= mean(_v)\n                    \n                    X_new[i_sample, (n_features * i_shp):(n_features * i_shp + n_features)] = \\\n                    apply_one_shapelet_one_sample_univariate(\n                        strides, _v, threshold[i_shp]\n                    )\n                \n    return")],
  'a normalised shapelet extracted from a window with rounding error in its mean', 'transforming changes the fitted shapelets', FIT + '''
r = np.random.default_rng(0)
X = r.normal(size=(6, 1, 16)) + 1000
m = fit(X, np.arange(6) % 2, proba_norm=1.0)
a = ref.snapshot(m)
m.transform(X)
assert ref.same_shapelets(a, ref.snapshot(m))
''')

s('c05-shared-distances', 'C05', MSL,
  [("    #For each dilation, we can do in parallel\n", "    x_buffer = zeros(n_timestamps)\n    #For each dilation, we can do in parallel\n"),
   ("                x_dist = zeros(d_shape)\n", "                x_dist = x_buffer[:d_shape]\n                x_dist[:] = 0\n")],
  'two dilations sampled by different threads at the same time', 'threads share one distance buffer, so thresholds depend on the schedule', '''
from vlib import race
mon = race.Monitor()
nbrt.monitor = mon
nbrt.instrument = race.make_instrument(mon)
from convst.transformers import R_DST
R_DST(n_shapelets=30, shapelet_lengths=[3], alpha=0.0, random_state=1).fit(
    np.random.default_rng(0).normal(size=(6, 2, 30)), np.arange(6) % 2)
assert not mon.conflicts, mon.conflicts[0]
''')

s('c06-one-too-many', 'C06', UVL,
  [("                    t_mask = where(\n                        mask_dil[id_sample, :X_len[id_sample]-(_length-1)*_dilation]",
    "                    t_mask = where(\n                        mask_dil[id_sample, :X_len[id_sample]-(_length-1)*_dilation+1]")],
  'drawing the last admissible start position plus one in variable-length data', 'the window read ends beyond the series', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(1, t)) for t in (9, 8, 7, 10)]
m = fit(X, np.arange(4) % 2, proba_norm=0.0, n_shapelets=200)
for sh in ref.shapelets(m):
    assert ref.sources(X, sh, False), sh.i
''')

s('c06-empty-values', 'C06', UVL,
  [("    log2, floor_divide, zeros,", "    log2, floor_divide, zeros, empty,"),
   ("    values = zeros((n_shapelets, max(shapelet_sizes)))", "    values = empty((n_shapelets, max(shapelet_sizes)))")],
  'exhausted sampling space in variable-length univariate data', 'unsampled shapelets of arbitrary content are returned', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(1, t)) for t in (7, 8, 9)]
big = np.full((200, 3), 7.25)
_e = np.empty
np.empty = lambda *a, **k: np.full(a[0], 7.25) if len(a) == 1 and not k else _e(*a, **k)
import convst.transformers._univariate_variable_length as U
if hasattr(U, 'empty'):
    U.empty = np.empty
m = fit(X, np.array([0, 1, 0]), alpha=1.0, n_shapelets=200, proba_norm=0.0)
for sh in ref.shapelets(m):
    assert ref.sources(X, sh, False), sh.i
''')

s('c07-channel-starts', 'C07', MVL,
  [("                        X[id_sample, _channel_ids[k], :X_len[id_sample]], index, _length,\n                        _dilation, norm, use_phase\n",
    "                        X[id_sample, _channel_ids[k], :X_len[id_sample]],\n                        index if k < 2 or index == 0 else index - 1, _length,\n                        _dilation, norm, use_phase\n")],
  'variable-length multivariate data and a shapelet on three or more channels', 'channels of one shapelet start at different positions', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(3, t)) for t in (20, 22, 24)]
m = fit(X, np.array([0, 1, 0]), proba_norm=0.0, n_shapelets=100)
for sh in ref.shapelets(m):
    assert ref.sources(X, sh, False), sh.i
''')

s('c08-zero-start', 'C08', USL,
  [("        if _all(values[i] == 0):", "        if _all(values[i, :2] == 0):")],
  'series with runs of zeros', 'genuine shapelets that begin with two zeros are dropped', FIT + '''
r = np.random.default_rng(0)
X = r.normal(size=(6, 1, 20))
X[:, :, 4:6] = 0
m = fit(X, np.arange(6) % 2, proba_norm=0.0, n_shapelets=200)
assert len(ref.shapelets(m)) == 200
''')

s('c08-max-length', 'C08', MVL,
  [("        n_shapelets, shapelet_sizes, min_len, p_norm, max_channels, prime_scheme\n    )\n    #Initialize self",
    "        n_shapelets, shapelet_sizes, (min_len + min(X_len)) // 2, p_norm, max_channels, prime_scheme\n    )\n    #Initialize self")],
  'a minimum length parameter below the shortest training series', 'spans exceed the announced minimum length', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(2, t)) for t in (20, 22, 24)]
m = fit(X, np.array([0, 1, 0]), min_len=10, n_shapelets=300)
assert max((sh.L - 1) * sh.d for sh in ref.shapelets(m)) < 10
''')

s('c09-two-members', 'C09', MSL,
  [("                if loc_others.shape[0] > 1:", "                if loc_others.shape[0] > 2:")],
  'a class with exactly two training series', 'the threshold comes from the series the shapelet was extracted from', FIT + '''
r = np.random.default_rng(0)
X = r.normal(size=(4, 2, 16))
y = np.array([0, 0, 1, 1])
m = fit(X, y, percentiles=[0, 0], n_shapelets=100)
for sh in ref.shapelets(m):
    src = {i for i, k in ref.sources(X, sh, False)}
    assert any(abs(ref.dist_vector(X[1 ^ i if i < 2 else 5 - i], sh, False)[0].min() - sh.thr) < 1e-6 for i in src), sh.i
''')

s('c09-half-range', 'C09', UVL,
  [("                threshold[i_shp] = uniform(\n                    ps[0], ps[1]\n                )",
    "                threshold[i_shp] = uniform(\n                    (ps[0] + ps[1]) / 2, ps[1]\n                )")],
  'many shapelets: the lower half of the percentile range is never used', 'thresholds do not cover the requested range', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(1, t)) for t in (20, 22)]
y = np.array([0, 1])
m = fit(X, y, percentiles=[10, 90], n_shapelets=300)
low = n = 0
for sh in ref.shapelets(m):
    src = {i for i, k in ref.sources(X, sh, False)}
    if len(src) == 1:
        a, b = np.percentile(ref.dist_vector(X[src.pop()], sh, False)[0], [10, 90])
        n += 1
        low += sh.thr < (a + b) / 2
assert n > 100 and low > n / 4, (low, n)
''')

s('c10-longest-length', 'C10', USL,
  [("        min_l = min(lengths[id_shps])", "        min_l = max(lengths[id_shps])")],
  'several shapelet lengths in the same dilation', 'short shapelets may overlap beyond the limit', FIT + '''
r = np.random.default_rng(0)
X = r.normal(size=(3, 1, 24))
m = fit(X, np.arange(3) % 2, shapelet_lengths=[3, 9], alpha=0.7, proba_norm=0.0, n_shapelets=300)
S = [(sh, ref.sources(X, sh, False)) for sh in ref.shapelets(m)]
for i, (a, sa) in enumerate(S):
    for b, sb in S[:i]:
        if a.key() == b.key() and len(sa) == len(sb) == 1 and sa[0][0] == sb[0][0]:
            g = abs(sa[0][1] - sb[0][1])
            if g % a.d == 0:
                assert g // a.d >= a.L - max(1, int((1 - 0.7) * a.L)), (a.L, a.d, g)
''')

s('c10-all-channels', 'C10', MSL,
  [("                mask_dil[:,_channel_ids,:d_shape].sum(axis=1)>=_n_channels*alpha",
    "                mask_dil[:,_channel_ids,:d_shape].sum(axis=1)>=_n_channels*alpha - (_n_channels > 3)")],
  'shapelets on four or more channels', 'one channel more than allowed may conflict', FIT + '''
r = np.random.default_rng(0)
X = r.normal(size=(2, 4, 12))
m = fit(X, np.arange(2), alpha=1.0, proba_norm=0.0, n_shapelets=300)
S = [(sh, ref.sources(X, sh, False)) for sh in ref.shapelets(m)]
for i, (a, sa) in enumerate(S):
    for b, sb in S[:i]:
        if a.key() == b.key() and len(sa) == len(sb) == 1 and sa[0][0] == sb[0][0] and set(a.channels) & set(b.channels):
            g = abs(sa[0][1] - sb[0][1])
            if g % a.d == 0:
                assert g // a.d >= a.L - 1, (a.L, a.d, g)
''')

s('c11-powers-of-two', 'C11', MSL,
  [("        dilations = floor(power(2, powers)).astype(int64)", "        dilations = power(2, floor(powers)).astype(int64)")],
  'series long enough for dilations that are no power of two', 'only powers of two are drawn as dilations', FIT + '''
X = np.random.default_rng(0).normal(size=(4, 2, 60))
m = fit(X, np.arange(4) % 2, n_shapelets=400)
assert 3 in {sh.d for sh in ref.shapelets(m)}
''')

s('c11-contiguous-channels', 'C11', MVL,
  [("            _channel_ids = choice(\n                arange(0, n_features), _n_channels, replace=False\n            )",
    "            _channel_ids = (choice(n_features) + arange(0, _n_channels)) % n_features")],
  'variable-length series with four or more channels', 'only neighbouring channels are ever combined', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(5, t)) for t in (12, 13, 14)]
m = fit(X, np.array([0, 1, 0]), n_shapelets=400)
assert len({frozenset(sh.channels) for sh in ref.shapelets(m) if len(sh.channels) == 2}) == 10
''')

s('c11-common-bound', 'C11', USL,
  [("            powers[i] = uniform(0, upper_bounds[i])", "            powers[i] = uniform(0, upper_bounds.min() if i % 8 else upper_bounds[i])")],
  'several lengths: most short shapelets only get the dilations of the longest one', 'dilations do not follow the documented distribution', FIT + '''
X = np.random.default_rng(0).normal(size=(4, 1, 65))
m = fit(X, np.arange(4) % 2, shapelet_lengths=[3, 33], n_shapelets=600)
big = [sh.d > 4 for sh in ref.shapelets(m) if sh.L == 3]
assert sum(big) > len(big) * 0.4, (sum(big), len(big))
''')

s('c12-jobs-seed', 'C12', RDST,
  [("        seed = rng.randint(np.iinfo(np.uint32).max, dtype='u8')",
    "        seed = rng.randint(np.iinfo(np.uint32).max, size=max(1, int(self.n_jobs)), dtype='u8')[-1]")],
  'the same fit with another number of jobs', 'the shapelets depend on the number of jobs', FIT + '''
r = np.random.default_rng(0)
for k in range(10):
    X = r.normal(size=(5, 1, 16))
    q = [ref.snapshot(fit(X, np.arange(5) % 2, n_jobs=j, random_state=k)) for j in (1, 2, 4)]
    assert ref.same_shapelets(q[0], q[1]) and ref.same_shapelets(q[0], q[2]), k
''')

s('c13-kept-generator', 'C13', RDST,
  [("        rng = check_random_state(self.random_state)\n",
    "        if getattr(self, '_rng_of', None) != self.random_state:\n            self._rng_of, self._rng = self.random_state, check_random_state(self.random_state)\n        rng = self._rng\n")],
  'fitting the same object twice', 'the second fit continues the random stream of the first', FIT + '''
X = np.random.default_rng(0).normal(size=(6, 1, 16))
m = fit(X, np.arange(6) % 2, random_state=5)
a = ref.snapshot(m)
assert ref.same_shapelets(a, ref.snapshot(m.fit(X, np.arange(6) % 2)))
''')

s('c13-kind-imported', 'C13', RDST,
  [("        if _type == STR_UNIVARIATE:\n", "        if hasattr(self, 'fitter') and self._auto_transform_type and 'variable' in _type:\n            return\n        if _type == STR_UNIVARIATE:\n"),
   ("            self.transformer = U_SL_apply_all_shapelets\n            \n", "            self.transformer = U_SL_apply_all_shapelets\n\n")],
  'refitting an automatic estimator on variable-length data after other data', 'the functions of the previous kind of data are kept', FIT + '''
r = np.random.default_rng(0)
X = [r.normal(size=(1, t)) for t in (12, 13, 14)]
Z = [r.normal(size=(2, t)) for t in (12, 13, 14)]
y = np.array([0, 1, 0])
m = fit(X, y)
m.fit(Z, y)
assert ref.same_shapelets(ref.snapshot(m), ref.snapshot(fit(Z, y)))
''')

s('c14-ends-only', 'C14', RDST,
  [("        if np.all(n_ft == n_ft[0]):      ", "        if n_ft[0] == n_ft[-1] and n_ft.max() == n_ft[0]:")],
  'a series in the middle with a single channel among multivariate ones', 'its only channel is silently copied to all channels', FIT + '''
import sys
r = np.random.default_rng(0)
X = [r.normal(size=(c, t)) for c, t in ((2, 12), (1, 13), (2, 14))]
try:
    fit(X, np.array([0, 1, 0]))
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

s('c14-narrow-integers', 'C14', RDST,
  [("            X = check_array_3D(X).astype(np.float64)\n            self._check_n_channels(X)\n            self._check_min_length(X.shape[2])\n            X_new = self.transformer(\n                X, self.shapelets_, self.phase_invariance\n            )",
    "            X = check_array_3D(X)\n            X = X.astype(np.float32 if X.dtype.kind in 'iu' and X.dtype.itemsize <= 4 else np.float64)\n            self._check_n_channels(X)\n            self._check_min_length(X.shape[2])\n            X_new = self.transformer(\n                X, self.shapelets_, self.phase_invariance\n            )")],
  '32 bit integers beyond 2**24 passed to transform', 'they are rounded to single precision', FIT + '''
r = np.random.default_rng(0)
X = r.integers(-100, 100, size=(6, 1, 16)) + 2 ** 26 + 1
m = fit(X, np.arange(6) % 2, proba_norm=0.0)
assert np.array_equal(m.transform(X), m.transform(X.astype(np.int32)))
''')

s('c15-open-bound', 'C15', RDST,
  [("            max_l = max(4,max(b0+1,b1+1))", "            max_l = max(4,max(b0+1,min(b1+1,min_len)))")],
  'an upper bound equal to the length of the series', 'the length equal to the series length is never used', FIT + '''
X = np.random.default_rng(0).normal(size=(4, 1, 12))
m = fit(X, np.arange(4) % 2, shapelet_lengths_bounds=[4, 12], lengths_bounds_reduction=0.0, n_shapelets=600)
assert max(sh.L for sh in ref.shapelets(m)) == 12
''')

s('c15-equal-length', 'C15', RDST,
  [("                shapelet_lengths[shapelet_lengths > n_timestamps] = n_timestamps//2", "                shapelet_lengths[shapelet_lengths >= n_timestamps] = n_timestamps//2")],
  'one length equal to the series length and another beyond it', 'the length equal to the series length is halved too', FIT + '''
X = np.random.default_rng(0).normal(size=(4, 1, 12))
m = fit(X, np.arange(4) % 2, shapelet_lengths=[12, 15], n_shapelets=60)
assert {sh.L for sh in ref.shapelets(m)} == {6, 12}
''')

s('c16-ensemble-min-len', 'C16', ENS,
  [("                        min_len=self.min_len,\n", "")],
  'an ensemble given a minimum length below the shortest training series', 'the minimum length never reaches the members', '''
from convst.classifiers import R_DST_Ensemble
from convst.transformers import R_DST
from convst.transformers._input_transformers import Raw
seen = []
f = R_DST.fit
R_DST.fit = lambda self, X, y: (seen.append(self), f(self, X, y))[1]
r = np.random.default_rng(0)
X, y = [r.normal(size=(1, t)) for t in (30, 32, 31, 33, 30, 35)], np.arange(6) % 2
R_DST_Ensemble(n_shapelets_per_estimator=300, shapelet_lengths=[3], min_len=12, input_transformers=[Raw()], proba_norm=[0.8],
               shp_alpha=0.0, random_state=1, n_jobs=1).fit(X, y)
assert max((sh.L - 1) * sh.d for sh in ref.shapelets(seen[0])) < 12
''')

s('c16-proba-first', 'C16', ENS,
  [("                        proba_norm=self.proba_norm[i],\n", "                        proba_norm=self.proba_norm[i % self._n_jobs_models],\n")],
  'members with different normalisation probabilities and fewer jobs than members', 'members use the probability of another member', '''
from convst.classifiers import R_DST_Ensemble
from convst.transformers import R_DST
seen = []
f = R_DST.fit
R_DST.fit = lambda self, X, y: (seen.append(self), f(self, X, y))[1]
X, y = np.random.default_rng(0).normal(size=(10, 1, 40)), np.arange(10) % 2
R_DST_Ensemble(n_shapelets_per_estimator=30, shapelet_lengths=[4], proba_norm=[0.0, 1.0, 0.0],
               shp_alpha=0.0, random_state=1, n_jobs=1).fit(X, y)
got = sorted(np.mean([sh.norm for sh in ref.shapelets(m)]) for m in seen)
assert got == [0, 0, 1], got
''')

s('c17-centring', 'C17', RID,
  [("            c_StandardScaler(with_mean=True),", "            c_StandardScaler(with_mean=self.fit_intercept),")],
  'a ridge classifier without intercept', 'features are not centred', '''
from convst.classifiers import R_DST_Ridge
r = np.random.default_rng(0)
X, y = r.normal(size=(12, 1, 20)), np.arange(12) % 2
c = R_DST_Ridge(n_shapelets=30, shapelet_lengths=[3], alpha=0.0, random_state=3, n_jobs=1, fit_intercept=False).fit(X, y)
S = c.classifier[0].transform(c.transformer.transform(X))
assert abs(S.mean(axis=0)).max() < 1e-9
''')

s('c17-unseen-ignored', 'C17', RID,
  [("        preds = self.predict(X)\n        return accuracy_score(y, preds)", "        preds = self.predict(X)\n        known = np.isin(y, self.classifier[-1].classes_)\n        return accuracy_score(np.asarray(y)[known], preds[known])")],
  'scoring series of a class that is never predicted', 'such series are left out of the score', '''
from convst.classifiers import R_DST_Ridge
r = np.random.default_rng(0)
X, y = r.normal(size=(12, 1, 20)), np.arange(12) % 2
X[y == 1] += 50
c = R_DST_Ridge(n_shapelets=30, shapelet_lengths=[3], alpha=0.0, random_state=3, n_jobs=1, proba_norm=0.0).fit(X, y)
Y = np.where(np.arange(12) % 3 == 0, 7, y)
assert abs(c.score(X, Y) - np.mean(c.predict(X) == Y)) < 1e-12
''')

s('c18-first-models', 'C18', ENS,
  [("            for i in range(len(self.model_weights))\n        )", "            for i in np.argsort(self.model_weights)[-max(2, self._n_jobs_models):]\n        )")],
  'one job: only the two best members vote', 'members are left out of the vote', '''
from convst.classifiers import R_DST_Ensemble
r = np.random.default_rng(0)
for k in range(8):
    X, y = r.normal(size=(12, 1, 30)), np.arange(12) % 3
    e = R_DST_Ensemble(n_shapelets_per_estimator=20, shapelet_lengths=[4], shp_alpha=0.0, random_state=k, n_jobs=1).fit(X, y)
    Z = r.normal(size=(40, 1, 30))
    V = sum(m.predict_proba(Z) * w for m, w in zip(e.models, e.model_weights))
    srt = np.sort(V, axis=1)
    ok = srt[:, -1] - srt[:, -2] > 1e-9
    assert (e.predict(Z)[ok] == e.classes_[V.argmax(axis=1)][ok]).all()
''')

s('c18-unscaled-proba', 'C18', ENS,
  [("        if len(d.shape) == 1:\n            d = np.c_[-d, d]", "        if len(d.shape) == 1:\n            d = np.c_[np.zeros_like(d), d]")],
  'a binary problem in which members disagree', 'the confidence of members is halved, so the weighted vote changes', '''
from convst.classifiers.rdst_ensemble import _internalRidgeCV
r = np.random.default_rng(0)
X, y = r.normal(size=(14, 6)), np.arange(14) % 2
m = _internalRidgeCV(alphas=np.array([1.0, 10.0])).fit(X, y)
d = m.decision_function(m.scaler.transform(X))
p = m.predict_proba(X)
assert np.allclose(np.log(p[:, 1] / p[:, 0]), 2 * d)
''')

s('c19-global-shuffle', 'C19', EXP,
  [("        random_state.shuffle(indices)", "        np.random.shuffle(indices)"),
   ("    random_state = check_random_state(random_state)\n", "    np.random.seed(check_random_state(random_state).randint(2 ** 31 - 1) if random_state < 2 else None)\n")],
  'resamples with an index above one', 'these resamples are not reproducible', '''
from convst.utils.experiments_utils import _resample
r = np.random.default_rng(0)
X = r.normal(size=(30, 1, 9))
y = np.arange(30) % 2
a = _resample(X[:15], y[:15], X[15:], y[15:], 2)
b = _resample(X[:15], y[:15], X[15:], y[15:], 2)
assert all(np.array_equal(p, q) for p, q in zip(a, b))
''', 'pypy')

s('c19-list-extended', 'C19', EXP,
  [("        all_data = X_train + X_test\n", "        all_data = X_train\n        all_data += X_test\n")],
  'variable-length data and a second resample of the same lists', 'the original training list is extended in place', '''
from convst.utils.experiments_utils import _resample
r = np.random.default_rng(0)
tr = [r.normal(size=(1, t)) for t in (8, 9, 10, 11)]
te = [r.normal(size=(1, t)) for t in (8, 9, 10, 11)]
y = np.arange(4) % 2
_resample(tr, y, te, y, 1)
assert len(tr) == 4
''', 'pypy')

s('c20-original-last', 'C20', EXP,
  [("        for i in range(self.n_splits):\n            if i == 0:\n                X_train = np.copy(X_train_0)\n                X_test = np.copy(X_test_0)\n                y_train = np.copy(y_train_0)\n                y_test",
    "        for i in range(self.n_splits):\n            if i == 0 and self.n_splits < 3:\n                X_train = np.copy(X_train_0)\n                X_test = np.copy(X_test_0)\n                y_train = np.copy(y_train_0)\n                y_test")],
  'three splits or more', 'the first split is a resample instead of the original split', '''
import aeon.datasets as ad
r = np.random.default_rng(0)
X = r.normal(size=(20, 2, 9))
y = np.array(['a', 'b'] * 10)
ad.DATA['d'] = dict(train=(X[:10].copy(), y[:10]), test=(X[10:].copy(), y[10:]))
from convst.utils.experiments_utils import _sklearn_cv
for n in (1, 2, 3, 4):
    a, b = next(iter(_sklearn_cv(n, 'd').split(X)))
    assert sorted(a) == list(range(10)), (n, a)
''', 'pypy')

s('c20-pooled-labels', 'C20', EXP,
  [("        y = np.concatenate((y_train_0, y_test_0),axis=0)\n        cv.fit(X, y)",
    "        y = np.sort(np.concatenate((y_train_0, y_test_0),axis=0), kind='stable')\n        cv.fit(X, y)")],
  'a dataset that is not sorted by class', 'the search is fitted with labels of other series', '''
import aeon.datasets as ad
import sklearn.model_selection as ms
r = np.random.default_rng(0)
X = r.normal(size=(12, 1, 9))
y = np.array(['a', 'b'] * 6)
X[y == 'b'] += 100
ad.DATA['d'] = dict(train=(X[:6].copy(), y[:6]), test=(X[6:].copy(), y[6:]))
import convst.utils.experiments_utils as E


class G:
    cv_results_ = {'a': [1]}

    def __init__(self, *a, **k):
        pass

    def fit(self, X, y):
        assert np.array_equal(np.asarray(X)[:, 0, 0] > 50, np.asarray(y) == 1)


E.GridSearchCV = G
E.grid_search_UCR_UEA(2, 'd', 1).score(lambda: None, {})
''', 'pypy')

s('c21-two-encoders', 'C21', DAT,
  [("    y_test = le.transform(y_test)", "    y_test = LabelEncoder().fit_transform(y_test)")],
  'a test part in which some class does not occur', 'test labels are encoded with another encoding', '''
import aeon.datasets as ad
import sklearn.preprocessing as sp
if not hasattr(sp.LabelEncoder, 'fit_transform'):
    sp.LabelEncoder.fit_transform = lambda self, y: self.fit(y).transform(y)
r = np.random.default_rng(0)
ad.DATA['d'] = dict(train=(r.normal(size=(4, 1, 9)), np.array(['a', 'b', 'c', 'a'])),
                    test=(r.normal(size=(3, 1, 9)), np.array(['b', 'c', 'c'])))
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
assert load_UCR_UEA_dataset_split('d')[3].tolist() == [1, 2, 2]
''')

s('c21-series-deviation', 'C21', DAT,
  [("            X[i_x, i_ft] = (X[i_x, i_ft] - X[i_x, i_ft].mean()) / (\n                X[i_x, i_ft].std() + 1e-8\n            )",
    "            X[i_x, i_ft] -= X[i_x, i_ft].mean()\n        for i_ft in prange(X.shape[1]):\n            X[i_x, i_ft] /= X[i_x].std() + 1e-8")],
  'multivariate equal-length data loaded with normalisation', 'all channels are divided by one shared, changing deviation', '''
import aeon.datasets as ad
r = np.random.default_rng(0)
y = np.array(['a', 'b', 'a', 'b'])
ad.DATA['d'] = dict(train=(r.normal(size=(4, 2, 9)) * 7, y), test=(r.normal(size=(4, 2, 9)) * 7, y))
from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
X = load_UCR_UEA_dataset_split('d', normalize=True)[0]
assert np.allclose(X.std(axis=2), 1, atol=1e-4)
''')

s('c22-sample-deviation', 'C22', INP,
  [("        x_new[i] = (x[i] - x[i].mean()) / (x[i].std() + 1e-8)", "        x_new[i] = (x[i] - x[i].mean()) / (x.std() + 1e-8)")],
  'multivariate series whose channels have different scales', 'all channels are divided by the deviation of the whole sample', '''
from convst.transformers._input_transformers import Z_normalizer
X = np.random.default_rng(0).normal(size=(3, 2, 12)) * np.array([1, 9])[None, :, None]
assert np.allclose(Z_normalizer().fit(X).transform(X).std(axis=2), 1, atol=1e-4)
''')

s('c22-hankel-offset', 'C22', INP,
  [("                    X[i], self.dln, self.mu, offset=self.offset, bias=self.bias", "                    X[i], self.dln, self.mu, offset=self.offset, bias=0.0")],
  'a fixed offset together with a power-law bias', 'the bias is ignored', '''
from convst.transformers import _input_transformers as I
from scipy.fft import fht
X = abs(np.random.default_rng(0).normal(size=(3, 1, 12))) + 1
H = I.FastHankelTransform(dln=0.1, mu=0.5, offset=0.1, bias=0.3, use_optimal_offset=False)
assert np.allclose(H.fit(X).transform(X), fht(X, 0.1, 0.5, offset=0.1, bias=0.3))
''')

s('c22-minmax-columns', 'C22', INP,
  [("class c_MinMaxScaler(MinMaxScaler):", "class c_MinMaxScaler(c_StandardScaler, MinMaxScaler):"),
   ], 'using the min-max scaler', 'the min-max scaler standardises instead', '''
from convst.transformers._input_transformers import c_MinMaxScaler
X = np.random.default_rng(0).normal(size=(9, 4))
Z = c_MinMaxScaler().fit(X).transform(X)
assert np.allclose(Z.min(axis=0), 0) and np.allclose(Z.max(axis=0), 1)
''')

s('c23-unsigned', 'C23', CHK,
  [("    if (isinstance(x, (int, np.integer)) or", "    if (isinstance(x, (int, np.signedinteger)) or")],
  'an unsigned numpy integer', 'unsigned integers are refused', '''
from convst.utils.checks_utils import check_is_numeric
assert check_is_numeric(np.uint8(3)) == 3
''', 'pypy')

s('c23-last-dim', 'C23', CHK,
  [("    if X.shape[2] <= min_timestamps:", "    if X.shape[-1] <= min(min_timestamps, X.shape[0]):")],
  'a single series of exactly two timestamps', 'too short series are accepted', '''
from convst.utils.checks_utils import check_array_3D
import sys
try:
    check_array_3D(np.zeros((1, 1, 2)))
except ValueError:
    sys.exit(0)
sys.exit(1)
''', 'pypy')

s('c24-importance-order', 'C24', INT,
  [("        idx = (coefs.argsort()//3)[::-1]", "        idx = (np.abs(coefs).argsort()//3)[::-1]")],
  'a class whose coefficient of largest magnitude is negative', 'shapelets against the class are shown as the best for it', '''
from convst.classifiers import R_DST_Ridge
from convst.interpreters import RDST_Ridge_interpreter
from matplotlib import pyplot as plt
r = np.random.default_rng(0)
for k in range(4):
    X, y = r.normal(size=(12, 1, 15)), np.arange(12) % 3
    c = R_DST_Ridge(n_shapelets=12, shapelet_lengths=[3], alpha=0.0, random_state=k, n_jobs=1).fit(X, y)
    F = c.transformer.transform(X)
    keep = np.where(np.ptp(F, axis=0) != 0)[0]
    for cl in range(3):
        full = np.zeros(F.shape[1])
        full[keep] = c.classifier['ridgeclassifiercv'].coef_[cl]
        del plt.FIGS[:]
        RDST_Ridge_interpreter(c).visualize_best_shapelets_one_class(X, y, cl)
        col = [a.of('sns.boxplot')[0][2]['y'] for a in plt.FIGS[0].axes if a.of('sns.boxplot')][0]
        assert np.array_equal(col, F[:, 3 * (int(full.argmax()) // 3)])
''')

s('c24-two-of-class', 'C24', INT,
  [("            sns.boxplot(x=y_copy,y=X_new[:,2+(i_shp*3)],ax=ax[0,2])", "            sns.boxplot(x=y_copy,y=X_new[:,2+(shp_ids[0]*3)],ax=ax[0,2])")],
  'showing more than one shapelet', 'the occurrence boxplot of later shapelets shows the first one', '''
from convst.classifiers import R_DST_Ridge
from convst.interpreters import RDST_Ridge_interpreter
from matplotlib import pyplot as plt
r = np.random.default_rng(0)
X, y = r.normal(size=(12, 1, 15)), np.arange(12) % 3
c = R_DST_Ridge(n_shapelets=12, shapelet_lengths=[3], alpha=0.0, random_state=1, n_jobs=1, percentiles=[20, 60]).fit(X, y)
F = c.transformer.transform(X)
RDST_Ridge_interpreter(c).visualize_best_shapelets_one_class(X, y, 1, n_shp=3)
for f in plt.FIGS:
    cols = [a.of('sns.boxplot')[0][2]['y'] for a in f.axes if a.of('sns.boxplot')]
    i = [k for k in range(12) if np.array_equal(F[:, 3 * k], cols[0])][0]
    assert np.array_equal(cols[2], F[:, 3 * i + 2])
''')

s('c25-clique-range', 'C25', PLT,
  [("            g_data[min_i, max_j] = 1", "            g_data[min_i, min_i + 1:max_j + 1] = 1")],
  'two non-different classifiers with a different one between them', 'classifiers found different are joined', '''
from convst.utils.plot_utils import _form_cliques
names = np.array(['a', 'b', 'c'])
p = [('a', 'c', 0.9, False), ('a', 'b', 0.001, True), ('b', 'c', 0.001, True)]
got = sorted(sorted(q) for q in _form_cliques(p, names) if len(q) > 1)
assert got == [[0, 2]], got
''', 'pypy')

s('c25-holm-divisor', 'C25', PLT,
  [("        new_alpha = float(alpha / (k - i))", "        new_alpha = float(alpha / (m - 1 - i)) if i < m - 1 and k > 1 and m < 4 else float(alpha / (k - i))")],
  'three classifiers and a p-value between alpha/3 and alpha/2', 'too many pairs are declared different', '''
import pandas as pd
import contextlib, io
from convst.utils import plot_utils as pu
ps = {frozenset('ab'): 0.02, frozenset('ac'): 0.3, frozenset('bc'): 0.4}
A = dict(a=np.arange(8) / 10, b=np.arange(8) / 20, c=np.arange(8) / 30)
pu.wilcoxon = lambda x, y, **k: (0, ps[frozenset(n for n in A if np.array_equal(A[n], x) or np.array_equal(A[n], y))])
df = pd.DataFrame([(c, 'd%d' % i, A[c][i]) for c in 'abc' for i in range(8)],
                  columns=['classifier_name', 'dataset_name', 'accuracy'])
with contextlib.redirect_stdout(io.StringIO()):
    pv = pu._wilcoxon_holm(df_perf=df, alpha=0.05)[0]
assert not any(p[3] for p in pv)
''', 'pypy')

s('c26-signed-limit', 'C26', PLT,
  [("                    if abs(x1 - y1) > show_names_above:\n                        ax[i // ncols, i % ncols].annotate(",
    "                    if y1 - x1 > show_names_above:\n                        ax[i // ncols, i % ncols].annotate(")],
  'several rows of panels and a dataset where the competitor is much better', 'datasets lost by a large difference are not named', '''
import pandas as pd
from convst.utils.plot_utils import pairwise_plot
df = pd.DataFrame([[0.1, 0.2, 0.95, 0.1], [0.9, 0.1, 0.9, 0.9], [0.5, 0.5, 0.5, 0.5]], columns=['base', 'a', 'b', 'c'], index=['d0', 'd1', 'd2'])
fig = pairwise_plot(df, 'base', show_names_above=0.25, max_ncols=2)
n = 0
for ax in fig.axes:
    if ax.of('set_xlabel'):
        comp = ax.of('set_xlabel')[0][1][0]
        got = {c[1][0] for c in ax.of('annotate') if c[1][0] in df.index}
        assert got == {d for d in df.index if abs(df.loc[d, comp] - df.loc[d, 'base']) > 0.25}, (comp, got)
        n += 1
assert n == 3
''', 'pypy')

s('c26-margin-inclusive', 'C26', PLT,
  [("                textstr = 'W - D - L\\n{} - {} - {}'.format(sum(x+margin < y), sum(", "                textstr = 'W - D - L\\n{} - {} - {}'.format(sum(x+margin <= y), sum(")],
  'an accuracy difference exactly equal to the margin', 'such a dataset counts as a win and as a draw', '''
import pandas as pd
from convst.utils.plot_utils import pairwise_plot
df = pd.DataFrame([[0.5, 0.25], [0.5, 0.5], [0.25, 0.75]], columns=['base', 'a'], index=['d0', 'd1', 'd2'])
fig = pairwise_plot(df, 'base', margin=0.25, max_ncols=2)
t = [c[1][2] for ax in fig.axes for c in ax.of('text')][0]
assert t.split('\\n')[1] == '0 - 2 - 1', t
''', 'pypy')

s('c27-count-last', 'C27', NUM,
  [("    counts = np.append(idx[1:], data.shape[0])", "    counts = np.append(idx[1:], input_data.shape[0])")],
  'unique columns of an array that is not square', 'the multiplicity of the last unique column is wrong', '''
from convst.utils.numba_utils import nb_unique
A = np.random.default_rng(0).integers(0, 2, size=(3, 9)).astype(float)
u, f, c = nb_unique(A, 1)
assert c.sum() == 9, c
''')

s('c27-rows-from-second', 'C27', NUM,
  [("                out[idx] = np.logical_and(v_2, out[idx])\n        return out\n\n    @register_jitable\n    def _np_all_flat",
    "                out[idx] = out[idx] and v_2 > 0\n        return out\n\n    @register_jitable\n    def _np_all_flat")],
  'numeric arrays with negative entries beyond the first row', 'negative numbers count as false', '''
from numba.extending import OVERLOADS
from numba import types
import convst.utils.numba_utils
A = np.array([[1.0, 2.0], [-1.0, 3.0]])
f = OVERLOADS['all'](types.typeof(A), types.typeof(0))
assert f(A, 0).all()
''')

s('c28-cache-literal', 'C28', DAT,
  [("@njit(cache=__USE_NUMBA_CACHE__)", "@njit(cache=__USE_NUMBA_CACHE__ is not None)")],
  'caching switched off before importing', 'one compiled function is still cached', '''
import convst
convst.__USE_NUMBA_CACHE__ = False
import convst.utils.dataset_utils
for d in nbrt.dispatchers:
    assert not d.targetoptions.get('cache'), d
''')

s('c28-fast-path', 'C28', UVL,
  [("            if use_phase:\n                for i_x in range(n_samples):\n                    i_mask[i_x] = _any(mask_dil[i_x, :X_len[i_x]])",
    "            if use_phase:\n                for i_x in range(n_samples):\n                    i_mask[i_x] = _any(mask_dil[i_x, :X_len[i_x]]) and (__USE_NUMBA_PARALLEL__ or i_x < n_samples - 1 or n_samples == 1)")],
  'parallelism switched off, variable-length data and phase invariance', 'the last series is never sampled when parallelism is off', '''
import os, subprocess, sys
code = """
import sys
sys.path.insert(0, %r)
from vlib import env
env.setup()
import numpy as np
import convst
convst.__USE_NUMBA_PARALLEL__ = sys.argv[1] == '1'
from convst.transformers import R_DST
r = np.random.default_rng(0)
X = [r.normal(size=(1, t)) for t in (9, 10, 11)]
m = R_DST(n_shapelets=60, shapelet_lengths=[3], alpha=0.0, random_state=1, n_jobs=1, phase_invariance=True).fit(X, np.array([0, 1, 0]))
print(m.transform(X).tolist())
""" % os.path.join(HERE, 'lib')
a, b = (subprocess.run([sys.executable, '-c', code, k], stdout=subprocess.PIPE, check=True).stdout for k in '01')
assert a == b
''')

s('c29-single-wrap', 'C29', COM,
  [("            X_new[i,j] = X[(i+(j*dilation))%n_timestamps]", "            k = i+(j*dilation)\n            X_new[i,j] = X[k if k < n_timestamps else k - n_timestamps]")],
  'a window that spans the series more than once', 'positions beyond twice the length are read outside of the series', '''
from convst.transformers._commons import _generate_strides_1D_phase
x = np.arange(10.0)
W = _generate_strides_1D_phase(x, 4, 7)
assert np.array_equal(W, x[(np.arange(10)[:, None] + 7 * np.arange(4)) % 10])
''')

s('c29-squared-root', 'C29', COM,
  [("def squared_euclidean(x, y):\n    s = 0\n    for i in prange(x.shape[0]):\n        s += (x[i]-y[i])**2",
    "def squared_euclidean(x, y):\n    s = 0\n    for i in prange(x.shape[0]):\n        s += x[i]**2 - 2*x[i]*y[i] + y[i]**2")],
  'vectors far from the origin and close to each other', 'catastrophic cancellation: distances are wrong or negative', '''
from convst.transformers._commons import squared_euclidean
r = np.random.default_rng(0)
x = 1e8 + r.normal(size=20)
y = 1e8 + r.normal(size=20)
assert np.isclose(squared_euclidean(x, y), ((x - y) ** 2).sum(), rtol=1e-6)
''')
