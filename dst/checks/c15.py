"""C15: carries, descents, virtual descents, uniform permutations, Plancherel."""
import itertools
import math
import random
from functools import lru_cache

import numpy as np
from scipy.special import gammaln, jv

from ..core import Violation
from ..law import LawCheck, MarginalLaw
from ..seams import BudgetRandomState, SimRandomState, seed_of
from ..stat import binom_p_vec, g_test


# ---------------------------------------------------------------- exact laws
@lru_cache(None)
def descents_perm(N):
    """counts of permutations of N by descent mask (bit i: descent at i+1)."""
    c = np.zeros(2 ** max(0, N - 1))
    for s in itertools.permutations(range(N)):
        c[sum(1 << i for i in range(N - 1) if s[i] > s[i + 1])] += 1
    return c / c.sum()


def descents_words(N, b):
    """law of the descent mask of N iid uniform digits in base b."""
    if N == 0:
        return np.ones(1)
    state = {0: np.full(b, 1.0 / b)}
    for i in range(N - 1):
        new = {}
        for m, v in state.items():
            tot = v.sum()
            cs = np.cumsum(v)
            asc = cs / b                       # next >= last
            des = (tot - cs) / b
            new[m] = new.get(m, 0) + asc
            new[m | 1 << i] = new.get(m | 1 << i, 0) + des
        state = new
    p = np.zeros(2 ** (N - 1))
    for m, v in state.items():
        p[m] = v.sum()
    return p


def descents_virtual(N, x0):
    if N == 0:
        return np.ones(1)
    p = np.zeros(2 ** (N - 1))
    for Y in itertools.product([0, 1], repeat=N):
        w = x0 ** sum(Y) * (1 - x0) ** (N - sum(Y))
        if not w:
            continue
        sure = free = 0
        for i in range(N - 1):
            if not Y[i] and Y[i + 1]:
                sure |= 1 << i
            elif not Y[i] and not Y[i + 1]:
                free |= 1 << i
        for m, q in enumerate(descents_perm(N)):
            p[sure | (m & free)] += w * q
    return p


def partitions(n, m=None):
    m = n if m is None else m
    if n == 0:
        yield ()
        return
    for k in range(min(n, m), 0, -1):
        for rest in partitions(n - k, k):
            yield (k,) + rest


@lru_cache(None)
def plancherel(n):
    out = {}
    for lam in partitions(n):
        conj = [sum(1 for x in lam if x > j) for j in range(lam[0])] if lam else []
        logh = sum(math.log(lam[i] - j + conj[j] - i - 1) for i in range(len(lam)) for j in range(lam[i]))
        out[lam] = math.exp(math.lgamma(n + 1) - 2 * logh)
    return out


def pair_probs(kind, arg):
    """(P(i), P(i,i+1), P(i,i+1,i+2)) of the stationary 1-dependent process."""
    if kind == 'carries':
        b = arg
        return [math.comb(b, k + 1) / b ** (k + 1) for k in (1, 2, 3)]
    if kind == 'descent':
        return [1 / 2, 1 / 6, 1 / 24]
    p = descents_virtual(4, arg)
    return [sum(p[m] for m in range(8) if m & t == t) for t in (1, 3, 7)]


# ---------------------------------------------------------------------------
class C15(LawCheck):
    id = 'C15'
    title = 'exotic processes'
    runs = {'quick': 1200, 'thorough': 15000}
    n_draws = {'quick': 2500, 'thorough': 10000}
    rule = ('seeded (process, parameters, size, call history) configurations, n draws each, judged on '
            'range and against exact enumerated laws (small sizes) or 1-, 2-, 3-point correlations and '
            '1-dependence (large sizes); one in eight runs biases the random source')
    state_measure = 'distinct (process, size, parameter, history shape) tuples'
    stub = ['random source wrapper (draw budget, bias)']
    real = ['dppy.exotic_dpps, dppy.exotic_dpps_core', 'numpy']

    def gen_law(self, r, tier, i):
        kind = r.choice(['carries', 'descent', 'virtual', 'perm', 'plancherel'])
        big = r.random() < .2 and kind != 'plancherel'
        arg = None
        if kind == 'carries':
            arg = r.choice([1, 2, 2, 3, 5, 10, 10, 256])
        elif kind == 'virtual':
            arg = r.choice([0, 1, .5, .5, .1, .25, .8, round(r.random(), 3)])
        elif kind == 'plancherel':
            arg = r.choice([0.2, 1, 2, 4, 6, 10, 10, 30, 90, 150])
        size = r.choice([20, 50, 100, 100]) if big else r.choice([0, 1, 2, 3, 3, 4, 4, 5, 5])
        p = {'kind': kind, 'arg': arg, 'size': size, 'bias': i % 8 == 5, 'default_size': big and size == 100,
             'history': [[r.choice(['sample', 'sample', 'flush', 'str', 'other']),
                          r.choice([0, 1, 3, 7, 40]), r.getrandbits(31)]
                         for _ in range(r.choice([0, 0, 1, 3]))],
             'seeds': r.choice(['inst', 'inst', 'inst', 'int'])}
        if big or kind == 'plancherel' and arg > 10:
            p['n'] = self.n_draws[tier] // 6
        return p

    def make(self, kind, arg):
        from dppy import exotic_dpps as ex
        if kind == 'carries':
            return ex.CarriesProcess(base=arg)
        if kind == 'descent':
            return ex.DescentProcess()
        if kind == 'virtual':
            return ex.VirtualDescentProcess(x_0=arg)
        if kind == 'plancherel':
            return ex.PoissonizedPlancherel(theta=arg)
        return None

    def prepare(self, plan, ctx, stream):
        from dppy import exotic_dpps as ex
        from dppy.exotic_dpps_core import uniform_permutation
        kind, arg, size = plan['kind'], plan['arg'], plan['size']
        for bad in (-0.1, 1.5):
            try:
                ex.VirtualDescentProcess(x_0=bad)
            except ValueError:
                pass
            else:
                raise Violation('no-error', 'x_0=%s accepted' % bad)
        obj = self.make(kind, arg)
        others = [self.make(k, a) for k, a in (('carries', 7), ('descent', None), ('plancherel', 5))]
        for op, n, s in plan['history']:
            ctx.stats.add('history_ops')
            if op == 'sample':
                if kind == 'perm':
                    uniform_permutation(n, random_state=s)
                elif kind == 'plancherel':
                    obj.sample(random_state=s)
                else:
                    obj.sample(size=n, random_state=s)
            elif op == 'flush' and hasattr(obj, 'flush_samples'):
                obj.flush_samples()
            elif op == 'str':
                str(obj)
            elif op == 'other':
                others[n % 2].sample(size=n, random_state=s)
                others[2].sample(random_state=s)
        seed = seed_of('exotic', plan['seed'], stream)
        bias = plan.get('bias')
        rng = SimRandomState(seed) if bias else BudgetRandomState(seed)
        if bias:
            rng.bias, rng.bias_rate = random.Random(seed), .3
        as_int = plan['seeds'] == 'int' and not bias
        where = kind + ('/big' if size >= 20 and kind != 'plancherel' else '')

        def draw(t):
            if bias:
                rng.reset(2000)
            elif not as_int:
                rng.left = 2000
            st = (seed + 7919 * t) % 2 ** 32 if as_int else rng
            if kind == 'perm':
                s = uniform_permutation(size, random_state=st)
                if len(s) != size or sorted(int(x) for x in s) != list(range(size)):
                    raise Violation('not-a-permutation', '%r' % (s,))
                return tuple(int(x) for x in s)
            n0 = len(obj.list_of_samples)
            if kind == 'plancherel':
                obj.sample(random_state=st)
            elif plan['default_size']:
                obj.sample(random_state=st)
            else:
                obj.sample(size=size, random_state=st)
            if len(obj.list_of_samples) != n0 + 1:
                raise Violation('not-recorded', '%s: %d entries appended' % (kind, len(obj.list_of_samples) - n0))
            x = obj.list_of_samples[-1]
            if kind == 'plancherel':
                lam = tuple(int(v) for v in obj.list_of_young_diag[-1])
                if any(v <= 0 for v in lam) or list(lam) != sorted(lam, reverse=True):
                    raise Violation('not-a-partition', '%r' % (lam,))
                if len(obj.list_of_young_diag) != n0 + 1 or len(x) != len(lam) or any(
                        abs(a - (l - i - .5)) > 1e-9 for i, (a, l) in enumerate(zip(x, lam))):
                    raise Violation('inconsistent', 'diagram %r with points %r' % (lam, x))
                return lam
            if not isinstance(x, list):
                raise Violation('not-a-list', '%s recorded %r' % (kind, type(x)))
            if any(int(a) != a or not 1 <= a <= size - 1 for a in x) or list(x) != sorted(set(x)):
                raise Violation('out-of-range', '%s of size %d: %r' % (kind, size, x))
            return tuple(x)

        def judge(xs):
            if bias:
                ctx.stats.add('fault:biased_randomness', len(xs))
                return 0.0, 0, 1.0
            if kind == 'plancherel':
                return self.judge_plancherel(xs, arg)
            if kind == 'perm':
                return self.judge_perm(xs, size)
            if size <= 5:
                law = (descents_words(size, arg) if kind == 'carries' else
                       descents_perm(size) if kind == 'descent' else descents_virtual(size, arg))
                c = np.zeros(len(law))
                for x in xs:
                    m = sum(1 << (a - 1) for a in x)
                    if law[m] <= 0:
                        raise Violation('zero-probability', '%s(%s): %r' % (kind, arg, x))
                    c[m] += 1
                return g_test(c, law)
            return self.judge_big(xs, kind, arg, size)
        ctx.state(kind, arg, size, len(plan['history']))
        if size > 1 or kind == 'plancherel':
            ctx.nontrivial = '%s-%s-%s-%s' % (kind, arg, size, plan['history'])
        return draw, judge, where

    @staticmethod
    def judge_bessel(xs, theta):
        """Large theta: the points {l_i - i + 1/2} form the discrete Bessel process."""
        z = 2 * math.sqrt(theta)
        m = int(z) + 7
        x = np.arange(-m, m)                             # the point x + 1/2
        J = jv(x[:, None] + 1 + np.arange(4 * m + 40)[None, :], z)
        K = J.dot(J.T)
        sets = []
        for lam in xs:
            full = list(lam) + [0] * max(0, m - len(lam))
            sets.append([l - i - 1 + m for i, l in enumerate(full) if 0 <= l - i - 1 + m < 2 * m])
        s, dof, p = MarginalLaw(K, np.clip(np.linalg.eigvalsh(K), 0, 1)).judge(sets)
        # number of boxes: Poisson
        k = np.arange(int(theta + 12 * math.sqrt(theta)))
        pr = np.exp(-theta + k * math.log(theta) - gammaln(k + 1))
        c = np.bincount([min(sum(lam), len(k) - 1) for lam in xs], minlength=len(k))
        s2, dof2, p2 = g_test(c, pr / pr.sum())
        # longest row and column: no point beyond
        cdf = np.array([np.linalg.det(np.eye(m - l) - K[m + l:, m + l:]) for l in range(m)])
        pr = np.clip(np.diff(np.r_[0.0, cdf, 1.0]), 0, 1)
        p3 = [g_test(np.bincount([min(m, v) for v in vs], minlength=m + 1), pr)[2]
              for vs in ([lam[0] if lam else 0 for lam in xs], [len(lam) for lam in xs])]
        return s + s2, dof + dof2, min(1.0, 4 * min([p, p2] + p3))

    @staticmethod
    def judge_plancherel(xs, theta):
        if theta > 10:
            return C15.judge_bessel(xs, theta)
        probs, cells, tot = [], {}, 0.0
        nmax = 14 if theta <= 4 else 18
        for n in range(nmax + 1):
            w = math.exp(-theta + n * math.log(theta) - math.lgamma(n + 1))
            for lam, p in plancherel(n).items():
                cells[lam] = len(probs)
                probs.append(w * p)
        probs.append(max(0.0, 1 - sum(probs)))
        c = np.zeros(len(probs))
        for x in xs:
            c[cells.get(x, len(probs) - 1)] += 1
        s1 = g_test(c, probs)
        # first row alone: far fewer cells
        rows = {}
        for lam, j in cells.items():
            rows[lam[0] if lam else 0] = rows.get(lam[0] if lam else 0, 0) + probs[j]
        pr = np.array([rows.get(k, 0) for k in range(nmax + 1)])
        c = np.bincount([min(nmax, x[0] if x else 0) for x in xs if sum(x) <= nmax], minlength=nmax + 1)
        s2 = g_test(c, pr / pr.sum())
        cc = np.bincount([min(nmax, len(x)) for x in xs if sum(x) <= nmax], minlength=nmax + 1)
        s3 = g_test(cc, pr / pr.sum())
        return s1[0], s1[1], min(1.0, 3 * min(s1[2], s2[2], s3[2]))

    @staticmethod
    def judge_perm(xs, size):
        if size <= 5:
            cells = {s: i for i, s in enumerate(itertools.permutations(range(size)))}
            c = np.zeros(len(cells))
            for x in xs:
                c[cells[x]] += 1
            return g_test(c, np.full(len(c), 1.0 / len(c)))
        A = np.array(xs)
        n = len(A)
        C = np.array([np.bincount(A[:, j], minlength=size) for j in range(size)])
        inv = np.array([(A[:, a] > A[:, b]).sum() for a in range(0, size, 3) for b in range(a + 1, size, 4)])
        ps = np.concatenate([binom_p_vec(C.ravel(), n, 1.0 / size), binom_p_vec(inv, n, .5)])
        return 0.0, 0, min(1.0, float(ps.min()) * len(ps))

    @staticmethod
    def judge_big(xs, kind, arg, size):
        n, L = len(xs), size - 1
        B = np.zeros((n, L))
        for t, x in enumerate(xs):
            B[t, np.array(x, int) - 1] = 1
        p1, p2, p3 = pair_probs(kind, arg)
        ks = [B.sum(0), (B[:, 1:] * B[:, :-1]).sum(0), (B[:, 2:] * B[:, 1:-1] * B[:, :-2]).sum(0),
              (B[:, 2:] * B[:, :-2]).sum(0), (B[:, 5:] * B[:, :-5]).sum(0)]
        pr = [p1, p2, p3, p1 * p1, p1 * p1]
        ps = np.concatenate([binom_p_vec(k, n, p) for k, p in zip(ks, pr)])
        return 0.0, 0, min(1.0, float(ps.min()) * len(ps))

    def shrinks(self, plan):
        if 'members' in plan:
            return
        yield from super().shrinks(plan)
        if plan['size'] > 0 and not plan['default_size']:
            yield dict(plan, size=plan['size'] - 1)


CHECK = C15()
