"""Statistics with bounds chosen so that a correct law never raises an alarm."""
import math

import numpy as np
from scipy import stats as st

ALPHA_SCREEN = 1e-4     # first look: escalate
ALPHA_FINAL = 1e-9      # second, independent look: report


def g_test(counts, probs, pool=10.0):
    """Pearson/G statistic against probs; small cells pooled. (stat, dof, p)."""
    counts = np.asarray(counts, float)
    probs = np.asarray(probs, float)
    n = counts.sum()
    e = n * probs
    big = e >= pool
    c, x = counts[big], e[big]
    if (~big).any():
        eb = e[~big].sum()
        if eb >= pool:
            c, x = np.append(c, counts[~big].sum()), np.append(x, eb)
        elif len(c):
            j = np.argmin(x)
            x[j] += eb
            c[j] += counts[~big].sum()
    if len(c) < 2:
        return 0.0, 0, 1.0
    stat = float(((c - x) ** 2 / x).sum())
    dof = len(c) - 1
    return stat, dof, float(st.chi2.sf(stat, dof))


def binom_p(k, n, p):
    """Two-sided exact-ish binomial tail probability."""
    if p <= 0:
        return 1.0 if k == 0 else 0.0
    if p >= 1:
        return 1.0 if k == n else 0.0
    return min(1.0, 2 * min(st.binom.cdf(k, n, p), st.binom.sf(k - 1, n, p)))


def binom_p_vec(k, n, p):
    k, p = np.asarray(k, float), np.clip(np.asarray(p, float), 0, 1)
    lo, hi = st.binom.cdf(k, n, p), st.binom.sf(k - 1, n, p)
    return np.minimum(1.0, 2 * np.minimum(lo, hi))


def z_p(z):
    return math.erfc(abs(z) / math.sqrt(2))


def ks_p(x, cdf):
    return float(st.kstest(x, cdf).pvalue)
