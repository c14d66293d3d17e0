"""Monitor of the pairwise plot: every panel judged against the table."""
import re
import numpy as np
from vlib import env

ID = 'C26'
RULE = ('one evaluation = one panel judged (points, counts, labels, named datasets); distinct = (competitors, columns, '
        'datasets, exact arithmetic, wins, draws, losses, named) situations')
BUDGET = {'quick': (900, 40), 'thorough': (60000, 600)}
CHUNK = 4
ASSUMPTIONS = ['matplotlib and seaborn are replaced by recorders: what is handed to the axes is judged, not pixels',
               'a difference within 1e-12 of the margin may count either way unless the arithmetic is exact']


def prepare(tier):
    env.setup()


def case(rng, tier, mon):
    import pandas as pd
    from matplotlib import pyplot as plt
    from convst.utils.plot_utils import pairwise_plot
    k = int(rng.integers(1, 9))
    n = int(rng.choice([1, 2, 5, 20, 60]))
    exact = bool(rng.integers(0, 2))
    if exact:
        V = rng.integers(0, 65, size=(n, k + 1)) / 64.0
        margin = float(rng.choice([0, 1, 2, 4, 16])) / 64.0
        limit = float(rng.choice([4, 16, 45, 64])) / 64.0
    else:
        V = rng.uniform(0, 1, size=(n, k + 1))
        V[:, 1:] = np.where(rng.random((n, k)) < 0.4, np.clip(V[:, :1] + rng.normal(size=(n, k)) * 0.02, 0, 1), V[:, 1:])
        V = np.round(V, int(rng.choice([2, 3, 9])))
        margin = float(rng.choice([0.0, 0.015, 0.025, 0.1]))
        limit = float(rng.choice([0.05, 0.2, 0.7]))
    names = [str(v) for v in rng.permutation(['rdst', 'Rocket', 'HC2', '1NN', 'TSF', 'cif', 'STC', 'BOSS', 'a b'])[:k + 1]]
    data = ['D%s%d' % (rng.choice(list('pqRS')), v) for v in rng.permutation(1000)[:n]]
    base = names[0]
    order = rng.permutation(k + 1)
    df = pd.DataFrame(V[:, order], columns=[names[i] for i in order], index=data)
    before = df.copy()
    kw = dict(margin=margin, show_names_above=limit)
    mc = int(rng.integers(1, 6))
    if rng.random() < 0.8:
        kw['max_ncols'] = mc
    if rng.random() < 0.3:
        kw.update(y_min=0.25, y_max=0.75)
    if rng.random() < 0.2:
        kw['sns_context'] = None
    if rng.random() < 0.2:
        kw['figsize'] = (5, 5)
    mon.describe(competitors=k, datasets=n, exact=exact, options=kw, columns=list(df.columns), baseline=base)
    plt.reset()
    fig = pairwise_plot(df, base, **kw)
    mon.check(df.equals(before), 'mutates', 'the table given was modified')
    mon.check(fig is not None and hasattr(fig, 'axes'), 'figure', 'no figure is returned')
    panels = [a for a in fig.axes if a.of('scatter')]
    mon.check(len(panels) == k, 'panels', '%d panels for %d competitors' % (len(panels), k))
    labels = [[str(c[1][0]) for c in a.of('set_xlabel')][-1:] for a in panels]
    mon.check(sorted(sum(labels, [])) == sorted(names[1:]), 'xlabel', 'panels labelled %s, competitors %s' % (
        labels, names[1:]))
    yl = [[str(c[1][0]) for c in a.of('set_ylabel')][-1:] for a in panels]
    mon.check(yl[0] == [base] and all(v in ([], [base]) for v in yl), 'ylabel', 'vertical labels %s, baseline %s' % (
        yl, base))
    sub = [c for c in fig.calls if c[0] == 'subplots']
    if sub:
        nc = int(sub[0][1][1])
        mon.check(all(yl[i] == [base] for i in range(0, k, nc)), 'ylabel', 'first panel of a row without label')
        mon.check(nc <= kw.get('max_ncols', 2), 'columns', '%d columns, at most %d allowed' % (
            nc, kw.get('max_ncols', 2)))
    y = V[:, 0]
    for a, lab in zip(panels, labels):
        x = V[:, names.index(lab[0])]
        sc = [(float(p), float(q)) for c in a.of('scatter') for p, q in zip(np.ravel(c[1][0]), np.ravel(c[1][1]))]
        want = [(float(p), float(q)) for p, q in zip(x, y)]
        mon.check(sorted(sc) == sorted(want), 'points', '%d points for %d datasets of %s, or not at (competitor, '
                  'baseline)' % (len(sc), n, lab[0]), got=sc[:5], expected=want[:5])
        txt = [str(c[1][2]) for c in a.of('text') if len(c[1]) > 2 and re.search(r'\d+\s*-\s*\d+\s*-\s*\d+', str(c[1][2]))]
        mon.check(len(txt) == 1, 'counts', '%d win-draw-loss texts in a panel' % len(txt))
        W, D, L = map(int, re.search(r'(\d+)\s*-\s*(\d+)\s*-\s*(\d+)', txt[0]).groups())
        d = y - x
        eps = 0.0 if exact else 1e-12
        info = dict(competitor=x, baseline=y, margin=margin, counts=(W, D, L))
        mon.check(W + D + L == n, 'partition', '%d wins, %d draws, %d losses for %d datasets' % (W, D, L, n), **info)
        mon.check((d > margin + eps).sum() <= W <= (d > margin - eps).sum(), 'wins', '%d wins, expected %d' % (
            W, (d > margin).sum()), **info)
        mon.check((-d > margin + eps).sum() <= L <= (-d > margin - eps).sum(), 'losses', '%d losses, expected %d' % (
            L, (-d > margin).sum()), **info)
        ann = [(str(c[1][0]), tuple(map(float, c[1][1]))) for c in a.of('annotate') if str(c[1][0]) in data]
        for nm, pos in ann:
            mon.check(pos == want[data.index(nm)], 'names', '%s named at %s, it is at %s' % (
                nm, pos, want[data.index(nm)]))
        got = sorted(v[0] for v in ann)
        must = {data[i] for i in range(n) if abs(d[i]) > limit + eps}
        may = {data[i] for i in range(n) if abs(d[i]) > limit - (0 if exact else 1e-12)}
        mon.check(must <= set(got) <= may and len(set(got)) == len(got), 'names', 'datasets named %s, expected %s' % (
            got, sorted(must)))
        mon.count('points', n)
        mon.count('draws', D)
        mon.count('differences_equal_to_margin', int((np.abs(d) == margin).sum()) if exact else 0)
        mon.count('named', len(got))
        mon.ev((k, kw.get('max_ncols', 2), n, exact, min(W, 3), min(D, 3), min(L, 3), bool(got)))
