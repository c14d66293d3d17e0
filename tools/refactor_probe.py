#!/usr/bin/env python3
"""Applies behaviour-preserving rewrites to a scratch copy and runs every check on it: all must stay quiet.
usage: refactor_probe.py [--keep] [check ...]"""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/refac'
T = 'convst/transformers/'
R = []


def r(file, *subs):
    R.append((file, subs))


# distances and windows: other loops, other summation orders, slices, running indexes
r(T + '_commons.py',
  ("""def manhattan(x, y):
    s = 0
    for i in prange(x.shape[0]):
        s += abs(x[i]-y[i])
    return s""", """def manhattan(x, y):
    total = 0.0
    i = x.shape[0] - 1
    while i >= 0:
        d = x[i] - y[i]
        total += d if d >= 0 else -d
        i -= 1
    return total"""),
  ("""def euclidean(x, y):
    s = 0
    for i in prange(x.shape[0]):
        s += (x[i]-y[i])**2
    return sqrt(s)""", """def euclidean(x, y):
    return sqrt(squared_euclidean(x, y))"""),
  ("""    v = zeros(length)
    _idx = i_start
    
    for j in prange(length):
        v[j] = X[_idx]
        _idx = _idx + d
    
    if normalize:
        v = (v - v.mean())/(v.std()+1e-8)
    return v""", """    v = X[i_start:i_start + (length - 1) * d + 1:d].copy()
    if not normalize:
        return v
    return (v - v.mean())/(v.std()+1e-8)"""),
  ("""    for j in prange(length):
        v[j] = X[_idx]
        _idx = (_idx+d)%n_ts
    """, """    for j in range(length):
        v[j] = X[_idx]
        _idx += d
        while _idx >= n_ts:
            _idx -= n_ts
    """),
  ("""    c = _generate_strides_1D_phase(x, length, dilation)
    x_conv = zeros(c.shape[0])
    for i in prange(x_conv.shape[0]):
        x0 = (c[i] - c[i].mean())/(c[i].std()+1e-8)
        x_conv[i] = manhattan(x0, values)
    return x_conv""", """    n = x.shape[0]
    x_conv = zeros(n)
    for i in range(n):
        w = _get_subsequence_phase(x, i, length, dilation, True)
        x_conv[i] = manhattan(w, values)
    return x_conv"""),
  ("""    for i in prange(n_candidates):
        _dist = manhattan(x[i], values)

        if _dist < _min or _min==-1.:
            _min = _dist
            _argmin = i

        if _dist <= threshold:
            _n_match += 1
            
    return _min, float_(_argmin), float_(_n_match)""", """    for i in range(n_candidates):
        _dist = manhattan(x[i], values)
        if not (_dist > threshold):
            _n_match += 1
        if i > 0 and _dist >= _min:
            continue
        _min, _argmin = _dist, i

    return _min, float_(_argmin), float_(_n_match)"""),
  ("""    for i in prange(n_candidates):
        _dist = 0
        for ft in prange(n_ft):
            _dist += manhattan(x[ft, i], values[ft])
    
        if _dist < _min or _min == -1.:
            _min = _dist
            _argmin = i
            
        if _dist <= threshold:
            _n_match += 1
    """, """    dists = zeros(n_candidates)
    for ft in range(n_ft):
        for i in range(n_candidates):
            dists[i] += manhattan(x[ft, i], values[ft])
    _argmin = dists.argmin()
    _min = dists[_argmin]
    _n_match = (dists <= threshold).sum()
    """),
  ("""    is_p = zeros(n+1, dtype=bool_)
    for i in range(n+1):
        is_p[i] = is_prime(i)
    return where(is_p)[0]""", """    is_p = zeros(n+1, dtype=bool_)
    is_p[1:] = True
    k = 2
    while k * k <= n:
        if is_p[k]:
            is_p[k*k::k] = False
        k += 1
    return where(is_p)[0]"""),
  ("""    combinations = zeros((u_mask.sum(),2), dtype=int64)
    i_comb = 0
    for i in range(x.shape[0]):
        if u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]]:
            combinations[i_comb,0] = x[i]
            combinations[i_comb,1] = y[i]
            u_mask[where(u_x==x[i])[0][0],where(u_y==y[i])[0][0]] = False
            i_comb += 1
    return combinations""", """    ix, iy = where(u_mask)
    combinations = zeros((ix.shape[0], 2), dtype=int64)
    combinations[:, 0] = u_x[ix]
    combinations[:, 1] = u_y[iy]
    return combinations"""),
  )
# generators: helper extracted, vectorised mask update, statements reordered
HELP = '''
@njit(cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__)
def _other_of_class(y, i):
    others = where(y == y[i])[0]
    if others.shape[0] <= 1:
        return i
    return choice(others[others != i])


@njit(cache=__USE_NUMBA_CACHE__, nogil=__USE_NUMBA_NOGIL__)
def _block(row, index, n_steps, step, n):
    for j in range(n_steps):
        row[(index - j * step) % n] = False
        row[(index + j * step) % n] = False


'''
DEC = "@njit(cache=__USE_NUMBA_CACHE__, parallel=__USE_NUMBA_PARALLEL__, nogil=__USE_NUMBA_NOGIL__)\ndef %s"
r(T + '_univariate_same_length.py',
  (DEC % 'U_SL_generate_shapelet', HELP + DEC % 'U_SL_generate_shapelet'),
  ("""                for j in range(alpha_size):
                    #We can use modulo even without phase invariance, as we
                    #limit the sampling to d_shape
                    mask_sampling[
                        norm, i_d, id_sample,
                        (index-(j*_dilation))%n_timestamps
                    ] = False
                    mask_sampling[
                        norm, i_d, id_sample,
                        (index+(j*_dilation))%n_timestamps
                    ] = False
""", """                _block(mask_dil[id_sample], index, alpha_size, _dilation, n_timestamps)
"""),
  ("""                loc_others = where(y == y[id_sample])[0]
                if loc_others.shape[0] > 1:
                    loc_others = loc_others[loc_others != id_sample]
                    id_test = choice(loc_others)
                else:
                    id_test = id_sample
""", """                id_test = _other_of_class(y, id_sample)
"""),
  ("""            if i_mask[0].shape[0] > 0:
                #Choose a sample
                id_sample = choice(i_mask[0])
                #Choose a timestamp
                index = choice(i_mask[1][i_mask[0]==id_sample])
""", """            n_candidates = i_mask[0].shape[0]
            if n_candidates > 0:
                rows, cols = i_mask
                id_sample = rows[randint(0, n_candidates)]
                cols = cols[rows==id_sample]
                index = cols[randint(0, cols.shape[0])]
"""),
  ("""    for i in prange(n_shapelets):
        if _all(values[i] == 0):
            mask_values[i] = False
""", """    for i in prange(n_shapelets):
        mask_values[i] = not _all(values[i] == 0)
"""),
  ("""            _idx_no_norm = _idx_shp[where(normalize[_idx_shp] == False)[0]]
            for i_idx in range(_idx_no_norm.shape[0]):               
                i_shp = _idx_no_norm[i_idx]
                _values = values[i_shp, :_length]
                
                X_new[i_sample, (n_features * i_shp):(n_features * i_shp + n_features)] = \\
                apply_one_shapelet_one_sample_univariate(
                    strides, _values, threshold[i_shp]
                )
""", """            for i_shp in _idx_shp:
                if normalize[i_shp]:
                    continue
                c0 = n_features * i_shp
                m, a, o = apply_one_shapelet_one_sample_univariate(
                    strides, values[i_shp, :_length], threshold[i_shp]
                )
                X_new[i_sample, c0] = m
                X_new[i_sample, c0 + 1] = a
                X_new[i_sample, c0 + 2] = o
"""),
  ("""        for i_shp_param in prange(n_shp_params.shape[0]-1):""", """        for i_shp_param in range(params_shp.shape[0]):"""),
  )
r(T + '_univariate_variable_length.py',
  (DEC % 'U_VL_generate_shapelet', HELP + DEC % 'U_VL_generate_shapelet'),
  ("""                for j in range(alpha_size):
                    #We can use modulo even without phase invariance, as we
                    #limit the sampling to d_shape
                    mask_sampling[
                        norm, i_d, id_sample,
                        (index-(j*_dilation))%X_len[id_sample]
                    ] = False
                    mask_sampling[
                        norm, i_d, id_sample, 
                        (index+(j*_dilation))%X_len[id_sample]
                    ] = False
""", """                _block(mask_dil[id_sample], index, alpha_size, _dilation, X_len[id_sample])
"""),
  ("""                loc_others = where(y == y[id_sample])[0]
                if loc_others.shape[0] > 1:
                    loc_others = loc_others[loc_others != id_sample]
                    id_test = choice(loc_others)
                else:
                    id_test = id_sample
""", """                id_test = _other_of_class(y, id_sample)
"""),
  ("""            if use_phase:
                for i_x in range(n_samples):
                    i_mask[i_x] = _any(mask_dil[i_x, :X_len[i_x]])
            else:
                for i_x in range(n_samples):
                    i_mask[i_x] = _any(
                        mask_dil[i_x, :X_len[i_x]-(_length-1)*_dilation]
                    )
""", """            span = 0 if use_phase else (_length-1)*_dilation
            for i_x in range(n_samples):
                stop = X_len[i_x] - span
                i_mask[i_x] = mask_dil[i_x, :stop].sum() > 0
"""),
  )
r(T + '_multivariate_same_length.py',
  ("""            _channel_ids = choice(
                arange(0, n_features), _n_channels, replace=False
            )
            """, """            _channel_ids = permutation(n_features)[:_n_channels]
            """),
  ("from numpy.random import choice", "from numpy.random import permutation, choice"),
  ("""                    b3 = a3 + _length
                    #Extract the values
                    _v = get_subsequence(
                        X[id_sample, _channel_ids[k]], index, _length,
                        _dilation, norm, use_phase
                    )
                    """, """                for k in range(_n_channels):
                    ch = _channel_ids[k]
                    a3 = k * _length
                    b3 = a3 + _length
                    _v = get_subsequence(
                        X[id_sample, ch], index, _length,
                        _dilation, norm, use_phase
                    )
                    """),
  ("                    a3 = b3\n", "\n"),
  )
# transformer: helper methods, other names, early returns
r(T + 'rdst.py',
  ("        X_new = self.transformer(\n                X, self.shapelets_, self.phase_invariance, X_len\n            )",
   "        X_new = self.transformer(\n                X, self.shapelets_, self.phase_invariance, X_len\n            )") if 0 else ("import warnings\n", "import warnings as _warnings\n"),
  ("warnings.warn(\"All", "_warnings.warn(\"All"),
  ("""        if self.n_samples is None:
            pass
        elif self.n_samples < 1.0:
            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
            X = X[id_X]
            y = y[id_X]
            X_len = X_len[id_X] if X_len is not None else None
        elif self.n_samples > 1.0:
            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=self.random_state)
            X = X[id_X]
            y = y[id_X]
            X_len = X_len[id_X] if X_len is not None else None
""", """        if self.n_samples is not None and self.n_samples != 1.0:
            keep = self._subsample(X.shape[0], y)
            X, y = X[keep], y[keep]
            if X_len is not None:
                X_len = X_len[keep]
"""),
  ("""    def transform(self, X):
        \"\"\"
        Transform the input""", """    def _subsample(self, n, y):
        return resample(
            np.arange(n), replace=self.n_samples > 1.0, n_samples=int(n*self.n_samples),
            stratify=y, random_state=self.random_state
        )

    def transform(self, X):
        \"\"\"
        Transform the input"""),
  ("""        n_ft = np.zeros(len(X),dtype=np.int64)
        lengths = np.zeros(len(X),dtype=np.int64)
        for i in range(len(X)):
            n_ft[i] = X[i].shape[0]
            lengths[i] = X[i].shape[1]
        
        if np.all(n_ft == n_ft[0]):      
            X_new = np.zeros((len(X), n_ft[0], lengths.max()))
            for i in range(len(X)):
                X_new[i, :, :lengths[i]] = X[i]
            return X_new, lengths
        else:
            raise ValueError("Samples got different number of features")
""", """        shapes = np.asarray([x.shape for x in X], dtype=np.int64)
        n_ft, lengths = shapes[:, 0], np.ascontiguousarray(shapes[:, 1])
        if len(set(n_ft.tolist())) != 1:
            raise ValueError("Samples got different number of features")
        X_new = np.zeros((len(X), n_ft[0], lengths.max()))
        for row, x in zip(X_new, X):
            row[:, :x.shape[1]] = x
        return X_new, lengths
"""),
  ("_format_uneven_timestamps", "_pad_series"),
  ("_set_fit_transform", "_select_kernels"),
  ("_check_params(", "_resolve_params("),
  ("            X_new[:, 1::3] /= X_len.reshape(-1, 1)\n            X_new[:, 2::3] /= X_len.reshape(-1, 1)",
   "            for j in (1, 2):\n                X_new[:, j::3] = X_new[:, j::3] / X_len[:, None]"),
  )
# evaluation
r('convst/utils/experiments_utils.py',
  ("""        random_state.shuffle(indices)
        # take the first lot of instances for train, remainder for test
        train_indices = indices[0:num_instances]
        test_indices = indices[num_instances:]
        del indices  # just to make sure it's not used!
""", """        random_state.shuffle(indices)
        train_indices, test_indices = np.split(indices, [num_instances])
"""),
  ("""            for idx in train_indices:
                X_train.append(all_data[idx])
            for idx in test_indices:
                X_test.append(all_data[idx])
""", """            X_train += [all_data[idx] for idx in train_indices]
            X_test.extend(all_data[idx] for idx in test_indices)
"""),
  ("_resample(", "_stratified_resample("), ("_sklearn_cv", "_ResampleSplits"),
  ("            idx_Train = [np.where((X == X_train[j]).all(axis=(1, 2)))[0][0] for j in range(X_train.shape[0])]\n            idx_Test = [np.where((X == X_test[j]).all(axis=(1, 2)))[0][0] for j in range(X_test.shape[0])]\n            yield idx_Train, idx_Test",
   "            def locate(part):\n                flat = np.asarray(X).reshape(len(X), -1)\n                return np.array([int(np.flatnonzero((flat == p.ravel()).all(axis=1))[0]) for p in part])\n            yield locate(X_train), locate(X_test)"),
  )
# datasets
r('convst/utils/dataset_utils.py',
  ("""    min_len = min(
        min([len(X_train[i][0]) for i in range(len(X_train))]),
        min([len(X_test[i][0]) for i in range(len(X_test))]),
    )
""", """    min_len = min(x.shape[-1] for part in (X_train, X_test) for x in part)
"""),
  ("    y_train = le.transform(y_train)\n    y_test = le.transform(y_test)\n", "    y_train, y_test = (le.transform(y) for y in (y_train, y_test))\n"),
  )
# classifiers
r('convst/classifiers/rdst_ensemble.py',
  ("""        preds_proba = np.asarray(preds_proba).sum(axis=0)
        return self.classes_[preds_proba.argmax(axis=1)]""", """        total = preds_proba[0]
        for p in preds_proba[1:]:
            total = total + p
        return np.take(self.classes_, total.argmax(axis=1))"""),
  ("""        self.model_weights = [
            model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
            for model in models
        ]
""", """        accuracies = np.array([m["_internalridgecv"].get_loocv_train_acc(y) for m in models])
        self.model_weights = np.power(accuracies, self.a_w)
"""),
  )
r('convst/classifiers/rdst_ridge.py',
  ("        self.transformer = self.transformer.fit(X, y)\n        self.classifier = self.classifier.fit(self.transformer.transform(X), y)\n        return self",
   "        features = self.transformer.fit(X, y).transform(X)\n        self.classifier.fit(features, y)\n        return self"),
  )
r(T + '_input_transformers.py',
  ("        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]", "        self.usefull_atts = np.flatnonzero(np.max(X, axis=0) != np.min(X, axis=0))"),
  ("        for i in range(self.order):\n            X = np.diff(X)\n        return X", "        return np.diff(X, n=self.order, axis=-1)"),
  ("    x_new = np.empty((n_features, n_timestamps))\n    for i in prange(n_features):\n        x_new[i] = (x[i] - x[i].mean()) / (x[i].std() + 1e-8)\n",
   "    x_new = np.empty((n_features, n_timestamps))\n    for i in prange(n_features):\n        mu = x[i].mean()\n        scale = 1.0 / (x[i].std() + 1e-8)\n        for t in range(n_timestamps):\n            x_new[i, t] = (x[i, t] - mu) * scale\n"),
  )
r('convst/utils/numba_utils.py',
  ("    orig_idx = np.array([i for i in range(data.shape[0])])", "    orig_idx = np.arange(data.shape[0])"),
  ("    counts = np.append(idx[1:], data.shape[0])\n    counts = counts - idx\n", "    counts = np.diff(np.append(idx, data.shape[0]))\n"),
  )
# plots
r('convst/utils/plot_utils.py',
  ("""            textstr = 'W - D - L\\n{} - {} - {}'.format(sum(x+margin < y), sum(
                (x+margin >= y) & (x-margin <= y)), sum(x-margin > y))
            ax[i // ncols, i % ncols].text(""", """            win, loss = int((x+margin < y).sum()), int((x-margin > y).sum())
            textstr = 'W - D - L\\n%d - %d - %d' % (win, len(x) - win - loss, loss)
            ax[i // ncols, i % ncols].text("""),
  ("    p_values.sort(key=operator.itemgetter(2))\n", "    p_values = sorted(p_values, key=lambda t: t[2])\n"),
  ("    return networkx.find_cliques(g)", "    return list(networkx.find_cliques(g))"),
  )
r('convst/interpreters/rdst_interpreter.py',
  ("""        idx_match = np.asarray(
            [(c.argmin() + i*self.dilation) % X.shape[0] for i in range(self.length)]
        ).astype(int)
        if self.norm:
            _values = (_values * X[idx_match].std()) + X[idx_match].mean()
""", """        idx_match = self._matched(c, X)
        if self.norm:
            window = X[idx_match]
            _values = window.mean() + window.std() * _values
"""),
  ("    def plot_distance_vector(\n        self, X, figsize", "    def _matched(self, c, X):\n        start = int(np.argmin(c))\n        return (start + np.arange(self.length) * self.dilation) % X.shape[0]\n\n    def plot_distance_vector(\n        self, X, figsize"),
  )
r('convst/utils/checks_utils.py')


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if os.path.exists(W):
        shutil.rmtree(W)
    subprocess.run(['cp', '-a', '/repo', W])
    for file, subs in R:
        f = os.path.join(W, file)
        t = open(f, newline='').read()
        crlf = '\r\n' in t
        t = t.replace('\r\n', '\n')
        for a, b in subs:
            if a not in t:
                print('PATTERN NOT FOUND in', file, ':', a[:70].replace('\n', '|'))
                continue
            t = t.replace(a, b)
        open(f, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
    for i in range(1, 38):
        c = 'C%02d' % i
        if args and c not in args:
            continue
        p = subprocess.run([os.path.join(V, 'check'), c, 'quick'], env=dict(os.environ, VERIF_REPO=W), cwd=V,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        out = p.stdout.strip().splitlines()
        print(c, p.returncode, [l for l in out if 'VIOLATION' in l][:2] or out[-1:], flush=True)
        if p.returncode:
            print('\n'.join(out[-6:])[:1500])
    if '--keep' not in sys.argv:
        shutil.rmtree(W)


main()
