import math
from collections import namedtuple
import numpy as np

WilcoxonResult = namedtuple('WilcoxonResult', ('statistic', 'pvalue'))
FriedmanResult = namedtuple('FriedmanchisquareResult', ('statistic', 'pvalue'))
LOG = []


def rankdata(a, method='average', axis=None):
    a = np.asarray(a)
    if axis is not None and a.ndim > 1:
        return np.apply_along_axis(rankdata, axis, a, method)
    a = a.ravel()
    order = np.argsort(a, kind='mergesort')
    r = np.empty(len(a), float)
    i = 0
    s = a[order]
    while i < len(a):
        j = i
        while j + 1 < len(a) and s[j + 1] == s[i]:
            j += 1
        r[order[i:j + 1]] = (i + j) / 2 + 1
        i = j + 1
    return r


def _ncdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def wilcoxon(x, y=None, zero_method='wilcox', correction=False, alternative='two-sided', mode='auto', **k):
    x = np.asarray(x, float)
    d = x if y is None else x - np.asarray(y, float)
    LOG.append(('wilcoxon', x.copy(), None if y is None else np.asarray(y, float).copy(), zero_method))
    if zero_method == 'wilcox':
        d = d[d != 0]
    n = len(d)
    if n == 0:
        return WilcoxonResult(0.0, 1.0)
    r = rankdata(np.abs(d))
    rp, rm = r[d > 0].sum(), r[d < 0].sum()
    if zero_method == 'zsplit':
        z0 = r[d == 0].sum() / 2
        rp, rm = rp + z0, rm + z0
    T = min(rp, rm)
    mn = n * (n + 1) * 0.25
    se = n * (n + 1) * (2 * n + 1)
    if zero_method == 'pratt':
        nz = int((d == 0).sum())
        r = r[d != 0]
        mn -= nz * (nz + 1) * 0.25
        se -= nz * (nz + 1) * (2 * nz + 1)
    _, rep = np.unique(r, return_counts=True)
    rep = rep[rep > 1]
    if rep.size:
        se -= 0.5 * (rep * (rep * rep - 1)).sum()
    se = math.sqrt(se / 24) if se > 0 else 0.0
    if se == 0:
        return WilcoxonResult(T, 1.0)
    z = (T - mn) / se
    return WilcoxonResult(T, min(1.0, 2 * _ncdf(-abs(z))))


def _chi2_sf(x, k):
    # regularised upper incomplete gamma, k degrees of freedom
    a, x = k / 2.0, x / 2.0
    if x <= 0:
        return 1.0
    if x < a + 1:
        s = t = 1.0 / a
        for n in range(1, 2000):
            t *= x / (a + n)
            s += t
            if abs(t) < abs(s) * 1e-15:
                break
        return 1 - s * math.exp(-x + a * math.log(x) - math.lgamma(a))
    b = x + 1 - a
    c = 1e300
    d = 1 / b
    h = d
    for i in range(1, 2000):
        an = -i * (i - a)
        b += 2
        d = 1 / (an * d + b or 1e-300)
        c = b + an / c or 1e-300
        h *= d * c
        if abs(d * c - 1) < 1e-15:
            break
    return h * math.exp(-x + a * math.log(x) - math.lgamma(a))


def friedmanchisquare(*args):
    k = len(args)
    if k < 3:
        raise ValueError('Less than 3 levels.  Friedman test not appropriate.')
    n = len(args[0])
    for a in args[1:]:
        if len(a) != n:
            raise ValueError('Unequal N in friedmanchisquare.  Aborting.')
    LOG.append(('friedman', k, n))
    data = np.vstack([np.asarray(a, float) for a in args]).T
    ranks = np.array([rankdata(row) for row in data])
    ties = 0
    for row in data:
        _, rep = np.unique(row, return_counts=True)
        ties += (rep * (rep * rep - 1)).sum()
    c = 1 - ties / (k * (k * k - 1) * n)
    ss = (ranks.sum(axis=0) ** 2).sum()
    if c == 0:
        return FriedmanResult(float('nan'), float('nan'))
    q = (12.0 / (k * n * (k + 1)) * ss - 3 * n * (k + 1)) / c
    return FriedmanResult(q, _chi2_sf(q, k - 1))
