"""Law probes: judge many draws of a simulated sampler against an exact law."""
import itertools
import multiprocessing as mp
import os

import numpy as np
from scipy import stats as st

from . import seams
from .core import Check, Violation
from .kernels import Kernel, law_L, law_dpp, mask_of
from .stat import ALPHA_FINAL, ALPHA_SCREEN, binom_p_vec, g_test


def check_set(S, N, k=None, where=''):
    """Structural validity of one returned set."""
    if not isinstance(S, list):
        raise Violation('not-a-list', '%s returned %s' % (where, type(S)))
    for x in S:
        if isinstance(x, (bool, float)) or int(x) != x or not 0 <= x < N:
            raise Violation('bad-item', '%s returned item %r, N=%d: %r' % (where, x, N, S))
    if len(set(S)) != len(S):
        raise Violation('duplicate-items', '%s returned %r' % (where, S))
    if k is not None and len(S) != k:
        raise Violation('wrong-size', '%s returned %d items, expected %d: %r' % (where, len(S), k, S))


class SetLaw:
    """Exact law of a random subset of range(N), by enumeration (N <= 12)."""

    def __init__(self, probs, N):
        self.p, self.N = probs, N

    def judge(self, masks):
        """-> (stat, dof, p); raises on a set of probability zero."""
        c = np.bincount(masks, minlength=len(self.p)).astype(float)
        bad = np.flatnonzero((c > 0) & (self.p <= 0))
        if len(bad):
            m = int(bad[0])
            raise Violation('zero-probability-set', 'returned %r which has probability 0'
                            % [i for i in range(self.N) if m >> i & 1])
        return g_test(c, self.p)


class MarginalLaw:
    """Larger N: singles, pairs and size of a DPP with kernel K."""

    def __init__(self, K, lam):
        self.K, self.N = K, len(K)
        iu = np.triu_indices(self.N, 1)
        d = np.diagonal(K)
        self.p1 = np.clip(d, 0, 1)
        self.iu = iu
        self.p2 = np.clip(d[iu[0]] * d[iu[1]] - K[iu] ** 2, 0, 1)
        pm = np.array([1.0])
        for x in lam:
            pm = np.convolve(pm, [1 - x, x])
        self.psz = np.clip(pm, 0, 1)

    def judge(self, sets):
        n = len(sets)
        B = np.zeros((n, self.N))
        for t, S in enumerate(sets):
            B[t, S] = 1
        k1 = B.sum(0)
        k2 = B.T.dot(B)[self.iu]
        # singles: correlated, so combine by Bonferroni
        ps = np.concatenate([binom_p_vec(k1, n, self.p1), binom_p_vec(k2, n, self.p2)])
        c = np.bincount(B.sum(1).astype(int), minlength=len(self.psz))
        s, dof, psize = g_test(c[:len(self.psz)], self.psz)
        p = min(1.0, float(ps.min()) * len(ps), psize * 2, 2 * calibration(self.K, sets))
        return s, dof, p


def freedman(m, v, w):
    """Two-sided tail bound for a martingale with increments <= w and quadratic variation v."""
    return 2 * np.exp(-m * m / (2 * (v + w * np.abs(m) / 3) + 1e-300))


def calibration(K, sets, chunk=200):
    """p-value: are the items of each set taken with their exact conditional probabilities?

    The items are revealed in an order of their own for each draw; given the items revealed
    before, item j belongs to the set with the probability that the elimination of K - 1_{not in
    the set} gives.  Sums of (indicator - probability) with bounded weights are martingales."""
    N, n = len(K), len(sets)
    g = seams.rs('calibration', n, N)
    P, B = np.zeros((n, N)), np.zeros((n, N))
    for a in range(0, n, chunk):
        m = min(chunk, n - a)
        perm = np.argsort(g.rand(m, N), axis=1)
        for t in range(m):
            B[a + t, sets[a + t]] = 1
        b = np.take_along_axis(B[a:a + m], perm, axis=1)
        B[a:a + m] = b
        A = K[perm[:, :, None], perm[:, None, :]].astype(float)
        for j in range(N):
            p = A[:, j, j]
            P[a:a + m, j] = p
            piv = p - (1 - b[:, j])
            piv = np.where(np.abs(piv) < 1e-10, np.where(b[:, j] > 0, 1e-10, -1e-10), piv)
            A[:, j + 1:, j + 1:] -= (A[:, j + 1:, j] / piv[:, None])[:, :, None] * A[:, None, j, j + 1:]
    P = np.clip(P, 1e-12, 1 - 1e-12)
    D, V = B - P, P * (1 - P)
    ps = []
    wmax = 4.0
    W = np.clip(np.log(P / (1 - P)), -wmax, wmax)
    ps.append(freedman((W * D).sum(), (W * W * V).sum(), wmax))
    third = np.minimum(2, np.arange(N) * 3 // N)[None, :] + np.zeros((n, 1), int)
    cell = third * 10 + np.clip((P * 10).astype(int), 0, 9)
    sd = np.bincount(cell.ravel(), D.ravel(), minlength=30)
    sv = np.bincount(cell.ravel(), V.ravel(), minlength=30)
    ps.extend(freedman(sd, sv, 1.0))
    return float(min(1.0, np.min(ps) * len(ps)))


def reference_sets(K, n, g, k=None, chunk=200):
    """n exact draws of the DPP with kernel K (of size k only), by the harness's own elimination."""
    N, out = len(K), []
    while len(out) < n:
        A = np.repeat(np.asarray(K, float)[None], chunk, axis=0)
        B = np.zeros((chunk, N), bool)
        for j in range(N):
            p = A[:, j, j]
            B[:, j] = g.rand(chunk) < p
            piv = np.where(B[:, j], np.maximum(p, 1e-12), np.minimum(p - 1, -1e-12))
            A[:, j + 1:, j + 1:] -= (A[:, j + 1:, j] / piv[:, None])[:, :, None] * A[:, None, j, j + 1:]
        out += [np.flatnonzero(b).tolist() for b in B if k is None or b.sum() == k]
    return out[:n]


def k_law_kernel(l_vals, U, k):
    """K of the scaled likelihood whose expected size is k: same k-DPP, sizes near k likely."""
    lo, hi = -40.0, 40.0
    s = np.asarray(l_vals, float)
    s = s / s.max()
    for _ in range(200):
        mid = (lo + hi) / 2
        e = np.exp(mid) * s
        if (e / (1 + e)).sum() < k:
            lo = mid
        else:
            hi = mid
    e = np.exp(lo) * s
    return (U * (e / (1 + e))).dot(U.T)


def swap_test(A, sets, seed=0):
    """p-value: given all items but a random one of the set, is that one drawn with probability
    proportional to det(A_S)?  Exact for every law of fixed size with P(S) ~ det(A_S)."""
    N = len(A)
    g = seams.rs('swap', len(sets), N, seed)
    scale = float(np.abs(np.diagonal(A)).max())
    if not scale > 0 or not np.isfinite(scale):
        return 1.0
    A = A / scale
    m = v = 0.0
    sd, sv = np.zeros(10), np.zeros(10)
    wmax = 4.0
    for S in sets:
        if len(S) < 1 or len(S) >= N:
            continue
        S = sorted(S)
        i = S.pop(g.randint(len(S)))
        q = np.diagonal(A).copy()
        if S:
            try:
                C = np.linalg.cholesky(A[np.ix_(S, S)])
            except np.linalg.LinAlgError:
                continue
            d = np.diagonal(C)
            if d.min() < 1e-4 * d.max():
                continue
            X = np.linalg.solve(C, A[S])
            q -= (X * X).sum(0)
        q[S] = 0
        q = np.where(q > 1e-9, q, 0)
        if q.sum() < 1e-6:
            continue
        q = q / q.sum()
        w = np.clip(np.log(np.maximum(q, 1e-300) * (N - len(S))), -wmax, wmax)
        mu = (q * w).sum()
        m += w[i] - mu
        v += (q * w * w).sum() - mu * mu
        b = np.clip((q * 10).astype(int), 0, 9)
        Q = np.bincount(b, q, minlength=10)
        sd -= Q
        sd[b[i]] += 1
        sv += Q * (1 - Q)
    ps = np.r_[freedman(m, v, 2 * wmax), freedman(sd, sv, 1.0)]
    return float(min(1.0, ps.min() * len(ps)))


def pooled_z(items):
    s = sum(x for x, _ in items)
    d = sum(x for _, x in items)
    if d < 5:
        return 0.0, d
    return (s - d) / np.sqrt(2.1 * d), d


def _member(args):
    cid, plan, stream = args
    from .core import Ctx, load_check
    check = load_check(cid)
    check.vec = None
    try:
        with seams.quiet():
            xs, judge, _ = check.collect(plan, Ctx(), stream, plan['n'])
            s, dof, p = judge(xs)
    except Violation as v:
        return v
    return s, dof, p, check.vec


class LawCheck(Check):
    """plan -> prepare(plan, ctx) -> (draw, judge, bucket)."""
    level = 'exploration'
    n_draws = {'quick': 3000, 'thorough': 12000}
    pool_screen, pool_final = 5.0, 6.0

    def prepare(self, plan, ctx, stream):
        raise NotImplementedError

    def collect(self, plan, ctx, stream, n):
        draw, judge, bucket = self.prepare(plan, ctx, stream)
        xs = [draw(t) for t in range(n)]
        ctx.stats.add('evaluations', n)
        return xs, judge, bucket

    def run(self, plan, ctx):
        if 'members' in plan:
            return self.run_pooled(plan, ctx)
        n = plan['n']
        xs, judge, bucket = self.collect(plan, ctx, 0, n)
        s, dof, p = judge(xs)
        ctx.ev(bucket, round(s, 6), dof, '%.3g' % p)
        ctx.agg.append((bucket, s, dof, plan.get('i')))
        ctx.stats.add('law_tests')
        if p < ALPHA_SCREEN:
            ctx.stats.add('probe:escalated')
            xs, judge, bucket = self.collect(plan, ctx, 1, 4 * n)
            s2, dof2, p2 = judge(xs)
            ctx.ev('escalated', round(s2, 6), '%.3g' % p2)
            if p2 < ALPHA_FINAL:
                raise Violation('law', '%s: %d draws reject the exact law, p=%.3g then p=%.3g '
                                'on %d independent draws' % (bucket, n, p, p2, 4 * n), bucket=bucket)

    def run_pooled(self, plan, ctx):
        items = self.judge_members(plan, ctx)
        z, d = pooled_z([(s, dof) for s, dof, _, _ in items])
        ctx.ev('pooled', plan['bucket'], round(float(z), 4), d)
        if z > self.pool_final:
            raise Violation('law-pooled', '%s: pooled over %d configurations the exact law is '
                            'rejected, z=%.2f on %d dof' % (plan['bucket'], len(items), z, d),
                            bucket=plan['bucket'])

    def judge_members(self, plan, ctx):
        """Fresh draws for every member of a pooled plan, in parallel, in order."""
        args = [(self.id, m, plan.get('stream', 2)) for m in plan['members']]
        with mp.get_context('fork').Pool(min(len(os.sched_getaffinity(0)), len(args))) as pool:
            out = pool.map(_member, args, chunksize=1)
        for r in out:
            if isinstance(r, Violation):
                raise r
        ctx.stats.add('evaluations', sum(m['n'] for m in plan['members']))
        return out

    def pooled(self, agg):
        from .core import plan_for
        by = {}
        for b, s, d, i in agg:
            if d:
                by.setdefault(b, []).append((s, d, i))
        out = []
        for b in sorted(by):
            z, d = pooled_z([(s, dd) for s, dd, _ in by[b]])
            if z > self.pool_screen:
                members = [plan_for(self, self._seed, self._tier, i) for _, _, i in by[b][:60]]
                plan = {'bucket': b, 'members': members, 'stream': 2}
                out.append((Violation('law-pooled', b), plan))
        return out

    def gen(self, r, tier, i):
        p = self.gen_law(r, tier, i)
        p.setdefault('n', self.n_draws[tier])
        p['i'] = i
        return p

    def shrinks(self, plan):
        if 'members' in plan:
            return
        yield from super().shrinks(plan)
        sp = plan.get('spec')
        if sp and sp['N'] > 2:
            for N in range(2, sp['N']):
                yield dict(plan, spec=dict(sp, N=N))
        if plan.get('inter'):
            yield dict(plan, inter=None)
        if plan.get('n', 0) > 1000:
            yield dict(plan, n=1000)
