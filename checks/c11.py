"""Statistical monitor of the random draws recorded in fitted shapelets (six sigma)."""
import numpy as np
from vlib import env, gen, ref, work
from vlib.runner import Skip

ID = 'C11'
RULE = ('one evaluation = one distribution compared with its definition at six sigma over the draws of one large fit; '
        'distinct = (kind, tested distribution, support size, phase)')
BUDGET = {'quick': (160, 90), 'thorough': (3000, 780)}
CHUNK = 1
ASSUMPTIONS = ['a cell with expectation E is in agreement when |observed - E| <= 6 sqrt(E (1 - p)) + 12; something is '
               'called unreachable when it is never drawn although at least 40 draws were expected']


def prepare(tier):
    env.setup()


def cells(mon, what, counts, probs, n, sig, **detail):
    for k, p in probs.items():
        o, e = counts.get(k, 0), n * p
        if e >= 40:
            mon.check(o > 0, what + '-unreachable', '%s %s never drawn in %d draws, %.0f expected' % (what, k, n, e), **detail)
        mon.check(abs(o - e) <= 6 * np.sqrt(e * (1 - p)) + 12, what,
                  '%s %s drawn %d times out of %d, expected %.1f' % (what, k, o, n, e), counts=dict(counts), **detail)
    mon.check(sum(counts.get(k, 0) for k in probs) == sum(counts.values()), what + '-support',
              '%s outside of %s: %s' % (what, sorted(probs), dict(counts)), **detail)
    mon.ev((what, len(probs)) + sig)
    mon.count('draws', n)


def tally(it):
    c = {}
    for v in it:
        c[v] = c.get(v, 0) + 1
    return c


def across(rng, mon, kind, tier):
    """The draws of many fits with different random states: the first shapelets of each dilation."""
    N = 260 if tier == 'quick' else 800
    L, ns, ft = int(rng.integers(3, 5)), int(rng.integers(2, 5)), 1 if kind in ('u', 'uv') else 2
    T = 3 * (L - 1) + 1 + int(rng.integers(0, 3))
    phase = bool(rng.integers(0, 2))
    X = [rng.normal(size=(ft, T)) for _ in range(ns)]
    X = X if kind in ('uv', 'mv') else np.array(X)
    y = gen.labels(rng, ns)
    base = int(rng.integers(0, 1 << 30))
    p = dict(shapelet_lengths=[L], alpha=0.0, proba_norm=0.0, phase_invariance=phase, n_shapelets=4, percentiles=[5, 95], n_jobs=1,
             max_channels=1 if ft > 1 else None)
    first, thr, same, npos = {}, [], 0, []
    for k in range(N):
        shp = ref.shapelets(work.new_model(dict(p, random_state=base + k)).fit(X, y))
        f = {}
        for s in shp:
            if s.d not in f:
                q = ref.sources(X, s, phase)
                if len(q) == 1:
                    f[s.d] = q[0]
        for d, q in f.items():
            first.setdefault(d, []).append(q)
        if 1 in f and 2 in f:
            npos.append(1)
            same += f[1] == f[2]
    d = dict(params=p, T=T, kind=kind, base=base)
    mon.describe(kind=kind, mode='across', T=T, params=p, fits=N, dilations={k: len(v) for k, v in first.items()})
    for dil, qs in first.items():
        room = T if phase else T - (L - 1) * dil
        cells(mon, 'source series of different fits', tally(i for i, _ in qs), {i: 1.0 / ns for i in range(ns)}, len(qs), (kind, phase, dil), **d)
        cells(mon, 'start of different fits', tally(k for _, k in qs), {k: 1.0 / room for k in range(room)}, len(qs), (kind, phase, dil), **d)
        mon.count('fits', len(qs))
    if phase and len(npos) > 60:      # the draws of two dilations are not the same
        e = len(npos) / (ns * T)
        mon.check(same <= e + 6 * np.sqrt(e) + 12, 'dilations-tied', 'the first shapelets of dilations 1 and 2 of one fit start at the '
                  'same point %d times out of %d, expected %.1f' % (same, len(npos), e), **d)
        mon.ev(('dilations-tied', kind))


def case(rng, tier, mon):
    kind = gen.KINDS[mon.idx % 4]
    if mon.idx // 4 % 10 == 9:
        return across(rng, mon, kind, tier)
    mon.idx -= mon.idx // 40 * 4      # the remaining cases take turns
    phase = bool(rng.integers(0, 2))
    mode = ['norm', 'dilation', 'prime', 'lengths', 'source', 'channels', 'primes-short', 'extreme', 'apart'][(mon.idx // 4) % 9]
    n = 2500 if kind in ('u', 'uv') else 1500
    if tier == 'thorough':
        n *= 3
    T = int(rng.integers(8, 30))
    n_ft = int(rng.integers(2, 6)) if kind in ('m', 'mv') else 1
    L = [int(rng.integers(2, 5))]
    pn = float(rng.choice([0.0, 1.0, 0.1, 0.3, 0.5, 0.8, 0.95]))
    prime, mxc = False, None
    ns = int(rng.integers(2, 6))
    if mode == 'prime':
        prime, T, L = True, int(rng.choice([8, 12, 18, 20, 24, 30, 38, 48])), [2, 3][:1 + (mon.idx // 36 + mon.idx) % 2]
        if len(L) > 1 and kind in ('m', 'mv'):
            T, n = int(rng.choice([8, 12])), n * 4 // 3
        phase = True if len(L) > 1 else phase
        ns = (500 if kind in ('u', 'uv') else 80) if len(L) > 1 else ns
    elif mode == 'primes-short':
        prime, L, T = True, [int(rng.integers(2, 4))], int(rng.integers(5, 10))
    elif mode == 'dilation':
        T, L = int(rng.integers(10, 60)), [int(rng.integers(2, 5))]
    elif mode == 'lengths':
        phase = True
        L = sorted(int(v) for v in rng.choice(np.arange(2, 8), size=int(rng.integers(2, 5)), replace=False))
        if (mon.idx // 36) % 2 == 0:
            L = sorted(int(v) for v in rng.choice(np.arange(2, 20), size=int(rng.integers(9, 16)), replace=False))
            mon.count('many_lengths')
        T = int(rng.integers(max(L) + 6, max(26, max(L) + 10)))
        ns = 80 if kind in ('m', 'mv') else 700
        n = min(n, 1500)
    elif mode == 'source':
        T, L, pn = int(rng.integers(6, 12)), [int(rng.integers(4, 6))], float(rng.choice([0.0, 1.0, 0.5]))
        ns = int(rng.integers(2, 5))
    elif mode == 'apart':      # a short length next to one that leaves hardly any dilation
        L = [int(rng.integers(2, 5)), int(rng.integers(18, 34))]
        T, ns, n = int(rng.integers(L[1], 2 * L[1] + 4)), 500, 900
    elif mode == 'extreme':
        pn = float(rng.choice([0, 1]))
    if n_ft > 1 and rng.random() < 0.5:
        mxc = int(rng.integers(1, n_ft + 1))
    params = dict(shapelet_lengths=L, alpha=0.0, proba_norm=pn, prime_dilations=prime, phase_invariance=phase,
                  n_shapelets=n, random_state=int(rng.integers(0, 1 << 30)), max_channels=mxc,
                  percentiles=[5, 10], n_jobs=int(rng.choice([1, 4])))
    X = gen.dataset(rng, kind, ns, n_ft, T, 'normal')
    lens = gen.true_lengths(X)
    T = min(lens)
    if (max(L) > T):
        raise Skip
    y = gen.labels(rng, ns)
    model = work.new_model(params).fit(X, y)
    shp = ref.shapelets(model)
    mon.describe(kind=kind, mode=mode, T=T, lens=lens[:6], params=params, returned=len(shp))
    if len(shp) != n:
        mon.count('skipped_exhausted')
        mon.count('skipped_' + mode + '_' + kind + str(len(L)))
        raise Skip
    sig = (kind, phase, T)
    d = dict(params=params, T=T, kind=kind)
    # normalisation
    cells(mon, 'normalised', tally(bool(s.norm) for s in shp), {True: pn, False: 1 - pn}, n, (kind, pn), **d)
    # lengths
    cells(mon, 'length', tally(s.L for s in shp), {l: 1.0 / len(L) for l in L}, n, sig, **d)
    # normalisation is drawn independently of the length and of the dilation
    for l in L:
        sub = [s for s in shp if s.L == l]
        m = len(sub)
        if 0 < pn < 1:
            cells(mon, 'normalised-per-length', tally(bool(s.norm) for s in sub), {True: pn, False: 1 - pn}, m, sig, **d)
        ub = (T - 1) // (l - 1)
        if prime:
            pr = ref.primes_and_one(ub)
            cnt = tally(s.d for s in sub)
            mon.check(set(cnt) <= set(pr), 'dilation-support', 'dilations %s, allowed %s' % (sorted(cnt), pr), **d)
            # the i-th smallest has the weight 2 to minus log(i)
            wt = np.array([2.0 ** -np.log(i) for i in range(1, len(pr) + 1)])
            cells(mon, 'prime', cnt, dict(zip(pr, wt / wt.sum())), m, sig, length=l, **d)
            mon.ev(('prime', ub) + sig)
            mon.count('prime_bounds_equal_to_a_prime', ub in pr)
        else:
            if ub == 1:
                pd = {1: 1.0}
            else:
                lu = np.log2(ub)
                pd = {k: (np.log2(k + 1) - np.log2(k)) / lu for k in range(1, ub)}
                pd[ub] = 0.0
            cells(mon, 'dilation', tally(s.d for s in sub), pd, m, sig, length=l, **d)
        mon.count('shapelets', m)
    if n_ft > 1:
        mx = mxc or n_ft
        cells(mon, 'number of channels', tally(len(s.channels) for s in shp), {k: 1.0 / mx for k in range(1, mx + 1)}, n,
              (kind, mx), **d)
        tot = sum(len(s.channels) for s in shp)
        # each channel is in a shapelet with probability k / n_ft
        for k in range(1, mx + 1):
            sub = [s for s in shp if len(s.channels) == k]
            cnt = tally(c for s in sub for c in s.channels)
            for c in range(n_ft):
                p, e = k / n_ft, len(sub) * k / n_ft
                o = cnt.get(c, 0)
                mon.check(abs(o - e) <= 6 * np.sqrt(e * (1 - p)) + (12 if k < n_ft else 0), 'channel',
                          'channel %d used by %d of %d shapelets with %d channels, expected %.1f' % (c, o, len(sub), k, e), **d)
            mon.ev(('channel', k, n_ft) + sig)
        if n_ft > 2 and mx > 1:
            # the draw is not tied to the previous shapelet or to the number of channels
            sub = [s for s in shp if len(s.channels) == 2]
            cnt = tally(tuple(sorted(s.channels)) for s in sub)
            npair = n_ft * (n_ft - 1) / 2
            cells(mon, 'channel pair', cnt, {(a, b): 1 / npair for a in range(n_ft) for b in range(a + 1, n_ft)}, len(sub),
                  (kind,), **d)
        mon.count('channels_drawn', tot)
    if mode == 'source':
        source(mon, rng, X, lens, shp, phase, kind, L[0], d)


def source(mon, rng, X, lens, shp, phase, kind, L, d):
    sub = [shp[i] for i in rng.permutation(len(shp))[:1500]]
    by = {}
    for s in sub:
        q = ref.sources(X, s, phase)
        if len(q) == 1:
            by.setdefault((s.d, bool(s.norm)), []).append(q[0])
    for (dil, norm), q in by.items():
        span = (L - 1) * dil
        pos = [T if phase else T - span for T in lens]
        m = len(q)
        cnt = tally(i for i, _ in q)
        if kind in ('u', 'm'):
            cells(mon, 'source series', cnt, {i: 1.0 / len(X) for i in range(len(X))}, m, (kind, phase), **d)
        else:
            for i in range(len(X)):
                if m / (4.0 * len(X)) * pos[i] / max(pos) >= 40:
                    mon.check(cnt.get(i, 0) > 0, 'source-unreachable', 'no shapelet comes from series %d (of length %d): %s'
                              % (i, lens[i], cnt), **d)
        for i in range(len(X)):
            ks = tally(k for j, k in q if j == i)
            if cnt.get(i, 0) / max(pos[i], 1) >= 45:
                miss = [k for k in range(pos[i]) if k not in ks]
                mon.check(not miss, 'start-unreachable', 'no shapelet of length %d, dilation %d starts at %s of series %d '
                          '(length %d, phase %s)' % (L, dil, miss, i, lens[i], phase), counts=ks, **d)
                # uniform over the admissible starts
                cells(mon, 'start position', ks, {k: 1.0 / pos[i] for k in range(pos[i])}, cnt[i], (kind, phase), **d)
        mon.count('sources_identified', m)
        mon.ev(('source', kind, phase, dil, norm))
