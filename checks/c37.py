"""Work monitor: steps of the repository's code are counted while workloads grow; work must grow in proportion."""
import sys
import numpy as np
from vlib import env, gen, nbrt, ref
from vlib.runner import Skip

ID = 'C37'
RULE = ('one evaluation = one growth (series, shapelets or timestamps doubled twice) of one operation whose executed steps were '
        'counted; distinct = (operation, what grows, kind, options) situations')
BUDGET = {'quick': (256, 75), 'thorough': (8000, 600)}
CHUNK = 1
ASSUMPTIONS = ['work is counted in executed lines and jumps of the code of the repository, compiled functions included; what a single call '
               'into numpy or scikit-learn costs is not counted']


def prepare(tier):
    env.setup()


class Steps:
    """counts executed lines and jumps of files of the repository"""
    TOOL = 3

    def __enter__(self):
        m = sys.monitoring
        self.n = 0
        root = env.REPO
        keep = {}

        def hit(code, *a):
            k = keep.get(code)
            if k is None:
                k = keep[code] = code.co_filename.startswith(root)
            if not k:
                return m.DISABLE
            self.n += 1
        m.use_tool_id(self.TOOL, 'steps')
        m.restart_events()
        m.register_callback(self.TOOL, m.events.LINE, hit)
        m.register_callback(self.TOOL, m.events.JUMP, hit)
        m.set_events(self.TOOL, m.events.LINE | m.events.JUMP)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        for e in (m.events.LINE, m.events.JUMP):
            m.register_callback(self.TOOL, e, None)
        m.free_tool_id(self.TOOL)


def data(g, kind, n, nft, T):
    y = np.arange(n) % 2
    if kind in ('uv', 'mv'):
        return [g.normal(size=(nft, T - int(i) % 3)) for i in range(n)], y
    return g.normal(size=(n, nft, T)), y


def case(rng, tier, mon):
    import joblib
    from convst.transformers import R_DST
    from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
    joblib.MODE[0] = 'seq'
    i = mon.idx
    what = ['series', 'shapelets', 'timestamps', 'channels'][i % 4]
    est, op = [('rdst', 'transform'), ('rdst', 'fit'), ('ridge', 'fit'), ('ensemble', 'fit'), ('rdst', 'transform'), ('rdst', 'fit'),
               ('ridge', 'predict'), ('ensemble', 'predict')][i // 4 % 8]
    kind = gen.KINDS[i // 32 % 4]
    if what == 'channels' and kind in ('u', 'uv'):
        kind = {'u': 'm', 'uv': 'mv'}[kind]
    nft = 1 if kind in ('u', 'uv') else 2
    L = int(rng.integers(3, 7))
    n, m, T, f = (10 if op == 'fit' else 5 if what == 'series' else 3), (16 if what == 'shapelets' else 12), 30, (3 if what == 'shapelets' else 4)
    p = dict(shapelet_lengths=[L], random_state=int(rng.integers(0, 1 << 30)), phase_invariance=bool(rng.integers(0, 2)),
             prime_dilations=bool(rng.integers(0, 2)), normalize_output=bool(rng.integers(0, 2)))
    # a crowded sampling space is searched longer
    alpha = float(rng.choice([0.0, 0.5])) if what != 'shapelets' else 0.0
    pn = float(rng.choice([0.0, 0.5, 1.0]))
    if nft > 1:
        p['max_channels'] = 1 if what == 'shapelets' else 2
    if est == 'ensemble':
        from convst.transformers import _input_transformers as it
        p.update(shp_alpha=alpha, input_transformers=[it.Raw()], proba_norm=[pn])
    else:
        p.update(alpha=alpha, proba_norm=pn)
    C = dict(rdst=R_DST, ridge=R_DST_Ridge, ensemble=R_DST_Ensemble)[est]
    ent, s0 = int(rng.integers(0, 1 << 30)), int(rng.integers(0, 1 << 30))
    # with a fixed model, series and timestamps cost exactly the same again; what is sampled varies
    exact = op != 'fit' and what in ('series', 'timestamps')
    if exact:
        f = int(rng.integers(2, 4))
    if what in ('timestamps', 'channels'):
        f = min(f, 3)
    mon.describe(estimator=est, operation=op, grows=what, factor=f, kind=kind, params=p)

    def build(m):
        return C(**dict(p, **{'n_shapelets_per_estimator' if est == 'ensemble' else 'n_shapelets': m}))

    def counted(fn, *a):
        nbrt.reset(entropy=ent)
        with Steps() as s:
            fn(*a)
        return s.n
    c, base = [], None
    for k in (1, f, f * f):
        nk, mk, Tk, ck = [v * (k if w == what else 1) for v, w in ((n, 'series'), (m, 'shapelets'), (T, 'timestamps'), (nft, 'channels'))]
        if what == 'shapelets' and op == 'fit':
            nk, Tk = 12, 40
        X, y = data(np.random.default_rng(s0), kind, nk, ck, Tk)
        if op == 'fit':
            c.append(counted(build(mk).fit, X, y))
        else:
            if base is None or what in ('shapelets', 'channels'):
                Xf, yf = data(np.random.default_rng(s0 + 1), kind, 12, ck, T if what != 'shapelets' else 40)
                nbrt.reset(entropy=ent)
                base = build(mk).fit(Xf, yf)
                if what == 'shapelets':
                    X, y = data(np.random.default_rng(s0), kind, nk, ck, 60)
            c.append(counted(getattr(base, op), X))
    if min(c) < 200:
        raise Skip
    mon.count('steps', sum(c))
    d1, d2 = c[1] - c[0], c[2] - c[1]
    slack = 0.05 * c[0] if exact else 0.6 * c[0]
    tol = 1.1 if exact else 1.5
    r = d2 / (tol * f * max(0, d1) + slack)
    mon.check(r <= 1, '%s-%s-%s' % (est, op, what), '%s of the %s (%s): %s times more %s twice in a row take %s steps: more than in proportion' % (
        op, est, kind, f, what, c), params=p)
    mon.ev((est, op, what, kind, f, p['phase_invariance'], p['prime_dilations'], pn, alpha))

