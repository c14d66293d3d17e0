"""Monitor of the interpreters: what reaches the axes is judged against the transform's definition."""
import re
import numpy as np
from vlib import env, gen, ref, work, nbrt
from vlib.runner import Skip

ID = 'C24'
RULE = ('one evaluation = one plot (values, best match, distance vector or class figure) judged against the definition; '
        'distinct = (plot, length, dilation, normalised, phase, own axes, tie, windows) or (classes, figures) situations')
BUDGET = {'quick': (1400, 40), 'thorough': (20000, 600)}
CHUNK = 2
ASSUMPTIONS = ['matplotlib and seaborn are replaced by recorders: what is handed to the axes is judged, not pixels',
               'class identifiers are 0..k-1, the labels the library\'s own loader produces']


def prepare(tier):
    env.setup()


def ydata(call):
    a = [v for v in call[1] if isinstance(v, (np.ndarray, list, tuple))]
    return np.asarray(a[1] if len(a) > 1 else a[0], dtype=float)


def title(mon, calls, s):
    """what the title says of the shapelet, where it says something"""
    for c in calls:
        t = str(c[1][0]) if c[1] else ''
        d, nz, th = (re.search(k + r'\w*\s*[=:]\s*([-+.\w]+)', t) for k in (r'\bd', r'\bnorm', r'\bthr'))
        if d and d.group(1).isdigit():
            mon.check(int(d.group(1)) == s.d, 'title', 'title %r of a shapelet of dilation %d' % (t, s.d))
        if nz and nz.group(1) in ('True', 'False', '0', '1', '0.0', '1.0'):
            mon.check((nz.group(1) in ('True', '1', '1.0')) == bool(s.norm), 'title', 'title %r of a shapelet with normalisation %s' % (t, s.norm))
        if th:
            try:
                v = float(th.group(1))
            except ValueError:
                continue
            mon.check(abs(v - s.thr) <= 0.05 * (1 + abs(s.thr)), 'title', 'title %r of a shapelet with threshold %r' % (t, s.thr))
            mon.count('titles_read')


def one(mon, calls, what):
    mon.check(len(calls) == 1, what + '-calls', '%s drawn %d times' % (what, len(calls)))
    return calls[0]


def match(mon, scatter, x, s, phase, tag):
    """positions and values of a shapelet drawn on its best match"""
    pos, val = np.asarray(scatter[1][0]), np.asarray(scatter[1][1], dtype=float)
    T = len(x)
    info = dict(series=x, values=s.values, length=s.L, dilation=s.d, norm=s.norm, phase=phase, positions=pos, drawn=val)
    mon.check(len(pos) == s.L and len(val) == s.L, tag + '-points',
              '%d points for a shapelet of length %d' % (len(pos), s.L), **info)
    want = pos[0] + np.arange(s.L) * s.d
    if phase:
        want = want % T
    mon.check(np.array_equal(pos, want), tag + '-positions',
              'points at %s, not at the dilated positions starting at %s' % (list(pos), pos[0]), **info)
    mon.check(pos.min() >= 0 and pos.max() < T, tag + '-positions', 'point outside of the series', **info)
    v = s.values[0]
    if s.norm:
        w = x[pos.astype(int)]
        v = v * w.std() + w.mean()
    mon.check(np.allclose(val, v, rtol=1e-7, atol=1e-9 * (1 + np.abs(x).max())), tag + '-values',
              'shapelet drawn at heights %s, expected %s' % (val[:4], v[:4]), **info)
    return int(pos[0])


def distances(mon, ax_plot, hline, x, s, phase, tag):
    c = ydata(ax_plot)
    D, tol = ref.dist_vector(x[None, :], s, phase)
    info = dict(series=x, values=s.values, length=s.L, dilation=s.d, norm=s.norm, phase=phase, drawn=c, expected=D)
    mon.check(len(c) == len(D), tag + '-length', '%d distances drawn, %d windows' % (len(c), len(D)), **info)
    mon.check(bool((np.abs(c - D) <= tol + 1e-12).all()), tag + '-distances',
              'distance vector drawn differs from the definition', **info)
    if hline is not None:
        thr = hline[1][0] if hline[1] else hline[2].get('y')
        mon.check(float(np.asarray(thr)) == s.thr, tag + '-threshold', 'threshold drawn at %r instead of %r' % (
            thr, s.thr), **info)
    return c


def case(rng, tier, mon):
    m = mon.idx % 8
    if m == 7:
        return multivariate(rng, mon)
    if m in (2, 5):
        return classes(rng, mon)
    from convst.interpreters import RDST_interpreter
    from matplotlib import pyplot as plt
    fam = str(rng.choice(['ties', 'ints', 'step'])) if m == 0 else None
    w = work.build(rng, ['u', 'uv'][mon.idx % 2], family=fam, n_shp=8)
    if not w.shp:
        raise Skip
    it = RDST_interpreter(w.model)
    T = work.test_series(rng, w, 4)
    F = np.asarray(w.model.transform(T))
    mon.describe(kind=w.kind, family=w.family, params=w.p, shapelets=len(w.shp), series=len(T))
    for i in range(len(T)):
        x = np.asarray(T[i], dtype=float)[0]
        x0 = x.copy()
        for s in [w.shp[int(j)] for j in rng.permutation(len(w.shp))[:4]]:
            own = bool(rng.integers(0, 2))
            plt.reset()
            ax = None if own else plt.Axes()

            def calls(name):
                A = ax if ax is not None else plt.FIGS[-1].gca()
                return [c for n in name.split('|') for c in A.of(n)]
            lab = str(rng.choice(['a', 'b']))
            it.plot(s.i, ax=ax)
            got = ydata(one(mon, calls('plot'), 'values'))
            mon.check(np.array_equal(got, s.values[0]), 'values', 'values drawn differ from the shapelet',
                      got=got, values=s.values)
            title(mon, calls('set_title|title'), s)
            plt.reset()
            ax = None if own else plt.Axes()
            two = rng.random() < 0.3        # a series may be given with its single channel
            it.plot_on_X(s.i, x[None, :] if two else x, ax=ax, label=lab)
            c = one(mon, calls('plot'), 'series')
            mon.check(np.array_equal(ydata(c), x0), 'series', 'the series drawn is not the series given')
            p0 = match(mon, one(mon, calls('scatter'), 'match'), x0, s, w.phase, 'match')
            plt.reset()
            ax = None if own else plt.Axes()
            it.plot_distance_vector(s.i, x[None, :] if two else x, ax=ax, label=lab)
            mon.count('series_with_channel', two)
            dv = distances(mon, one(mon, calls('plot'), 'distance'), one(mon, calls('hlines|axhline'), 'threshold'),
                           x0, s, w.phase, 'distance')
            sg = ref.judge_features(mon, x0[None, :], s, w.phase,
                                    [dv.min(), p0, (dv <= s.thr).sum()], 'plot-')
            # and with what the transform reported, wherever the arithmetic decides it
            D, tol = ref.dist_vector(x0[None, :], s, w.phase)
            k = int(np.argmin(D))
            if (np.delete(D - tol, k) > D[k] + tol[k]).all():
                sc = 1.0
                if w.p.get('normalize_output'):
                    sc = None
                if sc is not None:
                    mon.check(int(F[i, 3 * s.i + 1]) == p0, 'match-transform',
                              'best match drawn at %d, transform reports %r' % (p0, F[i, 3 * s.i + 1]))
                mon.count('best_match_decidable')
            mon.check(np.array_equal(x, x0), 'mutates', 'plotting modified the series')
            mon.ev(sg + (own,))


def classes(rng, mon):
    from convst.interpreters import RDST_Ridge_interpreter
    from convst.classifiers import R_DST_Ridge
    from matplotlib import pyplot as plt
    n, k = int(rng.integers(8, 16)), int(rng.integers(2, 5))
    y = rng.permutation(np.arange(n) % k)
    T = int(rng.integers(14, 30))
    X = rng.normal(size=(n, 1, T))
    for i in range(n):
        X[i, 0, int(rng.integers(0, 3)) + 3 * y[i]] += 4.0
    if rng.random() < 0.4:      # few discrete values: constant features appear
        X = np.rint(X)
    p = dict(n_shapelets=int(rng.integers(4, 30)), shapelet_lengths=[int(rng.integers(3, 6))],
             proba_norm=float(rng.choice([0.0, 0.5, 1.0])), percentiles=[[5, 10], [0, 0], [100, 100]][int(rng.integers(0, 3))],
             phase_invariance=bool(rng.integers(0, 2)), alpha=float(rng.choice([0.0, 0.5])),
             random_state=int(rng.integers(0, 1 << 30)), prime_dilations=bool(rng.integers(0, 2)))
    mon.describe(params=p, n=n, n_timestamps=T, classes=k)
    nbrt.reset(entropy=int(rng.integers(0, 1 << 30)))
    clf = R_DST_Ridge(**p).fit(X, y)
    shp = ref.shapelets(clf.transformer)
    Ftr = np.asarray(clf.transformer.transform(X))
    keep = np.where(Ftr.max(axis=0) > Ftr.min(axis=0))[0]
    coef = np.asarray(clf.classifier['ridgeclassifiercv'].coef_)
    if coef.shape[1] != len(keep):
        raise Skip
    mon.count('models_with_dropped_features', len(keep) < Ftr.shape[1])
    cid, n_shp = int(rng.integers(0, k)), int(rng.integers(1, 6))
    if rng.random() < 0.2:
        n_shp = len(shp) + 1
    row = (coef[0] if cid == 1 else -coef[0]) if k == 2 else coef[cid]
    full = np.zeros(Ftr.shape[1])
    full[keep] = row
    best = full.reshape(-1, 3).max(axis=1)
    X2, y2 = (X, y) if rng.random() < 0.5 else (X + rng.normal(size=X.shape) * 0.3, y)
    F = np.asarray(clf.transformer.transform(X2))
    plt.reset()
    np.random.seed(int(rng.integers(0, 1 << 30)))
    RDST_Ridge_interpreter(clf).visualize_best_shapelets_one_class(X2, y2, cid, n_shp=n_shp)
    figs = [f for f in plt.FIGS if len(f.axes)]
    want = min(n_shp, len(shp))
    mon.check(len(figs) == want, 'figures', '%d figures for %d shapelets asked, %d fitted' % (
        len(figs), n_shp, len(shp)))
    phase = p['phase_invariance']
    seen, order = set(), np.sort(best)[::-1]
    rest = [i for i in range(len(shp))]
    for q, f in enumerate(figs):
        A = [a for a in f.axes]
        box = [a for a in A if a.of('sns.boxplot')]
        mon.check(len(box) == 3, 'boxplots', '%d boxplots in a figure' % len(box))
        cols = [np.asarray(a.of('sns.boxplot')[0][2]['y'], dtype=float) for a in box]
        cand = [i for i in rest if i not in seen and all(np.array_equal(cols[j], F[:, 3 * i + j]) for j in range(3))]
        mon.check(bool(cand), 'boxplot-columns', 'boxplots are not the three features of a shapelet not shown yet',
                  got=cols[0][:4])
        for a in A:
            for t in a.of('set_title'):
                t = str(t[1][0] if t[1] else '').lower()
                j = [k for k, q_ in enumerate((r'\bmin', r'\bargmin', r'\boccur')) if re.search(q_, t)]
                if len(j) == 1 and a in box:
                    mon.check(np.array_equal(np.asarray(a.of('sns.boxplot')[0][2]['y'], dtype=float), cols[j[0]]),
                              'boxplot-title', 'boxplot titled %r shows another feature' % t)
                if 'match' in t or 'distance vector' in t or j:
                    kind = 'match' if a.of('scatter') else 'distance' if a.of('hlines') + a.of('axhline') else 'box' if a in box else 'values'
                    mon.check(kind == ('match' if 'match' in t else 'distance' if 'distance vector' in t else 'box'), 'panel-title',
                              'the panel titled %r shows the %s' % (t, kind))
                    mon.count('panels_titled')
        vals = [c for a in A if not a.of('sns.boxplot') and not a.of('scatter') and not a.of('hlines')
                for c in a.of('plot')]
        v = ydata(one(mon, vals, 'class-values'))
        cand = [i for i in cand if np.array_equal(shp[i].values[0], v)]
        mon.check(bool(cand), 'boxplot-columns', 'the shapelet drawn is not the one of the boxplots')
        if order[q] > 0:
            cand2 = [i for i in cand if abs(best[i] - order[q]) <= 1e-12 * (1 + abs(order[q]))]
            mon.check(bool(cand2), 'best', 'figure %d shows shapelet %s with coefficient %r for class %d, expected %r' % (
                q, cand, best[cand[0]], cid, order[q]), coefficients=best)
            cand = cand2
            mon.count('ranked_by_coefficient')
        if len(cand) > 1:        # twins: same values, features and coefficient
            h = [c for a in A for c in a.of('hlines') + a.of('axhline')]
            thr = float(np.asarray(h[0][1][0] if h[0][1] else h[0][2].get('y'))) if h else None
            cand = [i for i in cand if shp[i].thr == thr] or cand
        s = shp[cand[0]]
        seen.add(cand[0])
        for a in box:
            c = a.of('sns.boxplot')[0]
            mon.check(np.array_equal(np.asarray(c[2]['x']).astype(int), (y2 == cid).astype(int)), 'boxplot-groups',
                      'boxplot groups are not membership of class %d' % cid)
            t = a.of('set_xticklabels')
            if t:
                mon.check(str(cid) in str(t[0][1][0][1]) and 'ther' in str(t[0][1][0][0]), 'boxplot-groups',
                          'boxplot group labels %s' % (t[0][1],))
        for a in A:
            sc = a.of('scatter')
            if sc:
                pl = a.of('plot')
                mon.check(len(sc) == 2 and len(pl) == 2, 'examples', '%d examples drawn' % len(pl))
                ex = []
                for c, d in zip(pl, sc):
                    x = ydata(c)
                    src = [i for i in range(n) if np.array_equal(X2[i, 0], x)]
                    mon.check(bool(src), 'examples', 'the example drawn is not one of the series')
                    mine = str(c[2].get('label', '')) == 'Class %d' % cid
                    mon.check(any((y2[i] == cid) == mine for i in src), 'examples',
                              'an example of the wrong class is labelled %r' % c[2].get('label'))
                    ex.append(mine)
                    p0 = match(mon, d, x, s, phase, 'example')
                    D, tol = ref.dist_vector(x[None, :], s, phase)
                    mon.check(D[p0] - tol[p0] <= (D + tol).min(), 'example-match',
                              'example drawn at %d, best match %d' % (p0, D.argmin()))
                mon.check(sorted(ex) == [False, True], 'examples', 'examples are not one of each group')
            hl = a.of('hlines') + a.of('axhline')
            if hl:
                pl = a.of('plot')
                mon.check(len(pl) == 2, 'examples', '%d distance vectors drawn' % len(pl))
                shown = [c for b in A if b.of('scatter') for c in b.of('plot')]
                for c in pl:
                    same = [e for e in shown if e[2].get('label') == c[2].get('label')]
                    mon.check(len(same) == 1, 'examples', 'distance vector labelled %r' % c[2].get('label'))
                    distances(mon, c, hl[0], ydata(same[0]), s, phase, 'example-distance')
        mon.ev(('class', k, cid, q, s.L, s.norm, phase, len(keep) < Ftr.shape[1]))


def strangers(rng, mon):
    """what is no fitted model of the expected sort is refused"""
    from convst.interpreters import RDST_interpreter, RDST_Ridge_interpreter
    from convst.transformers import R_DST
    from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
    X, y = rng.normal(size=(8, 1, 20)), np.arange(8) % 2
    p = dict(shapelet_lengths=[5], random_state=0)
    raw = [R_DST(n_shapelets=4, **p), R_DST_Ridge(n_shapelets=4, **p), R_DST_Ensemble(n_shapelets_per_estimator=4, **p)]
    done = [R_DST(n_shapelets=4, **p).fit(X, y), R_DST_Ridge(n_shapelets=4, **p).fit(X, y),
            R_DST_Ensemble(n_shapelets_per_estimator=4, **p).fit(X, y)]

    class Other:
        pass
    o = Other()
    o.shapelets_ = done[0].shapelets_
    o.classifier, o.transformer = done[1].classifier, done[1].transformer
    o.fit = o.transform = o.predict = o.fit_transform = o.get_params = lambda *a: o
    o.phase_invariance, o.transform_type = False, 'univariate'
    o.fitter = o.n_channels_ = None
    for C, mine in ((RDST_interpreter, 0), (RDST_Ridge_interpreter, 1)):
        for i, e in enumerate(raw + done + [o, None, X]):
            if i == 3 + mine:
                C(e)
                mon.ev(('accepted', C.__name__))
                continue
            try:
                C(e)
            except Exception:
                mon.ev(('refused', C.__name__, i))
                continue
            mon.fail('stranger', '%s accepts %s' % (C.__name__, ('an unfitted ' if i < 3 else '') + type(e).__name__))


def multivariate(rng, mon):
    if rng.random() < 0.2:
        return strangers(rng, mon)
    from convst.interpreters import RDST_interpreter
    from matplotlib import pyplot as plt
    w = work.build(rng, ['m', 'mv'][(mon.idx // 8) % 2], n_shp=4)
    if not w.shp:
        raise Skip
    it = RDST_interpreter(w.model)
    x = np.asarray(w.X[0])[0]
    for name, a in (('plot', (0,)), ('plot_on_X', (0, x)), ('plot_distance_vector', (0, x))):
        plt.reset()
        try:
            getattr(it, name)(*a, ax=plt.Axes())
        except NotImplementedError:
            mon.count('refused')
            mon.ev(('refused', w.kind, name))
            continue
        mon.fail('not-refused', '%s of a multivariate model is not refused as not implemented' % name)
