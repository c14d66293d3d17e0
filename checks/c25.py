"""Monitor of the critical-difference analysis: tests, Holm rejections, ranks and the drawn diagram."""
import contextlib
import io
import itertools
import numpy as np
from vlib import env
from vlib.runner import Skip

ID = 'C25'
RULE = ('one evaluation = one analysed table judged (pairs tested, rejections, ranks, groups drawn); distinct = '
        '(classifiers, complete ones, datasets, level, rejected pairs, groups) situations')
BUDGET = {'quick': (600, 40), 'thorough': (40000, 600)}
CHUNK = 4
ASSUMPTIONS = ['the Wilcoxon and Friedman tests and clique enumeration come from stand-ins for scipy and networkx',
               'complete classifiers are evaluated on the same datasets; at least three of them',
               'tables in which a p-value is within 1e-12 of its Holm level are not judged']


def prepare(tier):
    env.setup()


def table(rng):
    m = int(rng.integers(3, 9))
    n = int(rng.integers(5, 40))
    fam = int(rng.integers(0, 5))
    base = rng.uniform(0.4, 0.9, size=n)
    off = np.sort(rng.uniform(-0.2, 0.2, size=m)) if fam else np.zeros(m)
    if fam == 3:        # clusters of classifiers
        off = np.repeat([-0.15, 0.0, 0.15], 3)[:m]
    noise = [0.05, 0.02, 0.1, 0.03, 0.2][fam]
    A = np.clip(base[:, None] + off[None, :] + rng.normal(size=(n, m)) * noise, 0, 1)
    A = np.round(A, int(rng.choice([1, 2, 3, 12])))
    if rng.random() < 0.2:   # one chain: every classifier slightly better than the one before
        A = np.clip(base[:, None] * 0.5 + np.arange(m)[None, :] * 0.03 + rng.normal(size=(n, m)) * 0.04, 0, 1)
    # a classifier given in terms of another one: duplicated accuracies on many datasets
    if rng.random() < 0.3:
        c = rng.permutation(m)[:2]
        k = int(rng.integers(1, n))
        A[:k, c[0]] = A[:k, c[1]]
    names = ['%s%s' % (rng.choice(list('abcXYZ_')), w) for w in
             rng.permutation(['rdst', 'Rocket', 'HC2', 'knn', 'TSF', 'cif', 'STC', 'BOSS', 'weasel'])[:m]]
    data = ['%s_%d' % (rng.choice(list('pqRS')), v) for v in rng.permutation(1000)[:n]]
    A = A[:, rng.permutation(m)]
    return A, names, data


def case(rng, tier, mon):
    import pandas as pd
    from matplotlib import pyplot as plt
    from convst.utils import plot_utils as pu
    A, names, data = table(rng)
    n, m = A.shape
    miss = {}
    if rng.random() < 0.4 and m > 3:     # some classifiers not evaluated everywhere
        for c in rng.permutation(m)[:int(rng.integers(1, m - 2))]:
            miss[int(c)] = set(int(v) for v in rng.permutation(n)[:int(rng.integers(1, max(2, n // 2)))])
    rows = [(names[c], data[d], A[d, c]) for c in range(m) for d in range(n) if d not in miss.get(c, ())]
    mode = int(rng.integers(0, 4))
    if mode == 1:
        rows.sort()
    elif mode == 2:
        rows.sort(key=lambda r: r[1], reverse=True)
    elif mode == 3:
        rows = [rows[i] for i in rng.permutation(len(rows))]
    cols = ['classifier_name', 'dataset_name', 'accuracy']
    df = pd.DataFrame(rows, columns=cols)
    if rng.random() < 0.3:
        df = df[[cols[i] for i in rng.permutation(3)]]
    if rng.random() < 0.3:
        df.index = rng.permutation(len(df)) + 5
    before = df.copy()
    alpha = float(rng.choice([0.01, 0.05, 0.05, 0.1, 0.3]))
    comp = [c for c in range(m) if c not in miss]
    B = A[:, comp]
    cn = [names[c] for c in comp]
    k = len(comp)
    mon.describe(classifiers=names, incomplete=[names[c] for c in miss], datasets=n, alpha=alpha, rows_order=mode)
    # ---- oracle
    P = {}
    from scipy.stats import wilcoxon
    for i, j in itertools.combinations(range(k), 2):
        P[i, j] = float(wilcoxon(B[:, i], B[:, j], zero_method='pratt')[1])
    prs = sorted(P, key=lambda q: P[q])
    rej, go = {}, True
    for t, q in enumerate(prs):
        lvl = alpha / (len(prs) - t)
        if abs(P[q] - lvl) < 1e-12:
            raise Skip
        go = go and P[q] <= lvl
        rej[frozenset((cn[q[0]], cn[q[1]]))] = go
    rk = np.zeros(k)
    for d in range(n):
        for i in range(k):
            rk[i] += (B[d] > B[d, i]).sum() + ((B[d] == B[d, i]).sum() + 1) / 2.0
    rk = rk / n
    rank = dict(zip(cn, rk))
    cliq = maximal(cn, rej)
    # ---- the analysis itself, where it can be observed
    if hasattr(pu, '_wilcoxon_holm'):
        with contextlib.redirect_stdout(io.StringIO()):
            pv, avg, nb = pu._wilcoxon_holm(df_perf=df, alpha=alpha)
        got = {frozenset(r[:2]): (float(r[2]), bool(r[3])) for r in pv}
        mon.check(len(pv) == len(P) and set(got) == set(rej), 'pairs', 'pairs compared %s, expected all of %s' % (
            sorted(map(sorted, got)), cn))
        for q in P:
            f = frozenset((cn[q[0]], cn[q[1]]))
            mon.check(abs(got[f][0] - P[q]) < 1e-9, 'pvalue', 'p-value of %s: %r, expected %r' % (
                sorted(f), got[f][0], P[q]), accuracies=B)
            mon.check(got[f][1] == rej[f], 'holm', '%s %sdeclared different at %r: p=%r' % (
                sorted(f), '' if got[f][1] else 'not ', alpha, P[q]), all=sorted(P.values()))
        mon.check(set(avg.keys()) == set(cn), 'ranked', 'classifiers ranked: %s, expected %s' % (list(avg.keys()), cn))
        for c in cn:
            mon.check(abs(float(avg[c]) - rank[c]) < 1e-9, 'rank', 'average rank of %s: %r, expected %r' % (
                c, float(avg[c]), rank[c]))
        mon.check(int(nb) == n, 'n-datasets', 'number of datasets %r, expected %d' % (nb, n))
    # ---- the diagram
    plt.reset()
    hl = cn[int(rng.integers(0, k))] if rng.random() < 0.5 else None
    lab = bool(rng.integers(0, 2))
    with contextlib.redirect_stdout(io.StringIO()):
        pu.draw_cd_diagram(df_perf=df, alpha=alpha, labels=lab, highlight=hl,
                           title='t' if rng.random() < 0.5 else None, path='out.png')
    mon.check(plt.SAVED == ['out.png'], 'saved', 'diagram saved at %s' % (plt.SAVED,))
    mon.check(df.equals(before), 'mutates', 'the table given was modified')
    diagram(mon, plt.FIGS[0].axes[0], cn, rank, cliq, lab, hl, float(plt.FIGS[0].calls[0][2]['figsize'][0])
            if 'figsize' in plt.FIGS[0].calls[0][2] else 10.0)
    mon.count('rejected_pairs', sum(rej.values()))
    mon.count('tables_with_incomplete_classifiers', bool(miss))
    mon.count('groups', len(cliq))
    mon.count('tables_with_overlapping_groups', len(cliq) > len(set().union(*cliq)) / 2 if cliq else 0)
    mon.count('tied_accuracies', int(sum((B[:, i] == B[:, j]).sum() for i, j in P)))
    mon.count('holm_differs_from_uncorrected', any((P[q] <= alpha) != rej[frozenset((cn[q[0]], cn[q[1]]))] for q in P))
    mon.ev((m, k, n // 10, alpha, sum(rej.values()), len(cliq), mode))


def maximal(cn, rej):
    """maximal groups (two members or more) in which no pair is declared different, by subset enumeration"""
    ok = []
    for size in range(len(cn), 1, -1):
        for g in itertools.combinations(cn, size):
            s = set(g)
            if all(not rej[frozenset(p)] for p in itertools.combinations(g, 2)) and not any(s < o for o in ok):
                ok.append(s)
    return ok


def diagram(mon, ax, cn, rank, cliq, lab, hl, width):
    texts = [(float(c[1][0]), float(c[1][1]), str(c[1][2]), c[2]) for c in ax.of('text')]
    lines = [(list(map(float, c[1][0])), list(map(float, c[1][1])), c[2]) for c in ax.of('plot')]
    ticks = [(float(t[2]), t[0]) for t in texts if t[2].isdigit()]
    mon.check(len(ticks) >= 2, 'scale', 'no rank scale drawn')
    (r0, x0), (r1, x1) = min(ticks), max(ticks)
    slope = (r1 - r0) / (x1 - x0)
    mon.check(all(abs(r0 + (x - x0) * slope - r) < 1e-6 for r, x in ticks), 'scale', 'rank scale is not linear')
    mon.check(r0 <= min(rank.values()) + 1e-9 and r1 >= max(rank.values()) - 1e-9, 'scale',
              'rank scale %s..%s does not hold the ranks' % (r0, r1))

    def torank(x):
        return r0 + (x - x0) * slope
    names = [t for t in texts if t[2] in rank]
    mon.check(sorted(t[2] for t in names) == sorted(cn), 'diagram-names', 'names drawn %s, expected %s' % (
        [t[2] for t in names], cn))
    leaders = [l for l in lines if len(l[0]) == 3]
    used = []
    for x, y, s, kw in names:
        side = [l for l in leaders if abs(l[1][2] - y) < 1e-9 and abs(l[0][2] - x) < 0.5 / width]
        mon.check(len(side) == 1, 'diagram-leader', '%d leader lines end at %s' % (len(side), s))
        got = torank(side[0][0][0])
        mon.check(abs(got - rank[s]) < 1e-6, 'diagram-rank', '%s drawn at rank %r, expected %r' % (s, got, rank[s]))
        if lab:
            near = [t for t in texts if '.' in t[2] and abs(t[1] - y) < 0.24 / 2 * 0.9 and (t[0] < 0.5) == (x < 0.5)]
            near = [t for t in texts if '.' in t[2] and t[2] not in rank and abs(t[0] - x) < 1.5 / width and t[1] <= y]
            near = sorted(near, key=lambda t: y - t[1])[:1]
            mon.check(bool(near) and near[0][2] == format(rank[s], '.4f') or bool(near) and abs(
                float(near[0][2]) - rank[s]) < 1.01e-4, 'diagram-label', 'rank label of %s: %s, expected %.4f' % (
                s, near[0][2] if near else None, rank[s]))
        red = kw.get('color') == 'red'
        if hl is not None or red:
            mon.check(red == (s == hl), 'diagram-highlight', '%s %shighlighted, asked for %s' % (
                s, '' if red else 'not ', hl))
        used.append(s)
    top = min(l[1][0] for l in leaders)
    bars = [l for l in lines if len(l[0]) == 2 and l[1][0] == l[1][1] and l[1][0] > top + 1e-9]
    got = sorted(tuple(sorted((torank(l[0][0]), torank(l[0][1])))) for l in bars)
    exp = sorted((min(rank[c] for c in g), max(rank[c] for c in g)) for g in cliq)
    tol = abs(slope) * 0.03 / width
    mon.check(len(got) == len(exp), 'groups', '%d groups joined, expected %d: %s instead of %s' % (
        len(got), len(exp), got, exp))
    left = list(got)
    for e in exp:
        hit = [g for g in left if abs(g[0] - e[0]) <= tol and abs(g[1] - e[1]) <= tol]
        mon.check(bool(hit), 'groups', 'group of ranks %s is not joined; bars %s' % (e, got))
        left.remove(hit[0])
