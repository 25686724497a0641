"""C13: beta-ensembles against exact laws."""
import math

import numpy as np
from scipy import special as sc
from scipy import stats as st

from ..core import Violation
from ..law import LawCheck
from ..seams import INJECTED, CallFaults, seed_of
from ..stat import ks_p, z_p

SQ2 = math.sqrt(2.0)


# ------------------------------------------------------------ exact oracles
def cumulants(terms, const=0.0):
    """First four cumulants of sum c * log-gamma variable increments.

    terms: (c, a, sign): the cgf s -> sign * [lgamma(a + c s) - lgamma(a)]."""
    k = [const, 0.0, 0.0, 0.0]
    for c, a, sgn in terms:
        k[0] += sgn * c * sc.digamma(a)
        for j in (1, 2, 3):
            k[j] += sgn * c ** (j + 1) * sc.polygamma(j, a)
    return k


def z_mean_var(x, k):
    """z-scores of the sample mean and variance, given exact cumulants."""
    n = len(x)
    zm = (x.mean() - k[0]) / math.sqrt(k[1] / n)
    zv = (x.var() - k[1]) / math.sqrt((k[3] + 2 * k[1] ** 2) / n)
    return zm, zv


def logdelta_terms(kind, N, b, par):
    """cgf terms of log|Delta| (derivative in the exponent beta)."""
    g = b / 2.0
    T, const = [], 0.0
    for j in range(N):
        T += [((j + 1) / 2, 1 + (j + 1) * g, 1), (.5, 1 + g, -1)]
    half = N * (N - 1) / 2.0
    if kind == 'hermite':
        const = half * math.log(par['scale'])
    elif kind == 'laguerre':
        const = half * math.log(par['scale'])
        T += [(j / 2, par['shape'] + j * g, 1) for j in range(1, N)]
    elif kind == 'jacobi':
        A, B = par['a'], par['b']
        for j in range(N):
            T += [(j / 2, A + j * g, 1), (j / 2, B + j * g, 1),
                  ((N + j - 1) / 2, A + B + (N + j - 1) * g, -1)]
        T = [t for t in T if t[0]]
    elif kind == 'circular':
        T = [(N / 2, 1 + g * N, 1)] + [(.5, 1 + g, -1)] * N
    elif kind == 'ginibre':
        # prod of norms: |Delta|^(2+s) has no closed form for N > 2
        T = None
    return T, const


def logdet_terms(kind, N, b, par):
    g = b / 2.0
    if kind == 'laguerre':
        return [(1, par['shape'] + j * g, 1) for j in range(N)], N * math.log(par['scale'])
    A, B = par['a'], par['b']
    return sum([[(1, A + j * g, 1), (1, A + B + (N + j - 1) * g, -1)] for j in range(N)], []), 0.0


_GRID = {}


def grid(kind, par, h, T):
    """Nodes and weights integrating against the reference measure."""
    key = (kind, tuple(sorted(par.items())), h, T)
    if key not in _GRID:
        t = np.arange(-T, T + h / 2, h)
        lo, hi = 1 / (1 + np.exp(-t)), 1 / (1 + np.exp(t))
        d = dist(kind, par)
        x = np.where(t < 0, d.ppf(lo), d.isf(hi))
        w = lo * hi * h
        if len(_GRID) > 40:
            _GRID.clear()
        _GRID[key] = (x, w)
    return _GRID[key]


def dist(kind, par):
    if kind == 'hermite':
        return st.norm(par['loc'], par['scale'])
    if kind == 'laguerre':
        return st.gamma(par['shape'], scale=par['scale'])
    return st.beta(par['a'], par['b'])


def cdf_from(vals, w):
    o = np.argsort(vals, kind='stable')
    v, c = vals[o], np.cumsum(w[o])
    c = (c - w[o] / 2) / c[-1]
    return lambda y: np.interp(y, v, c, left=0, right=1)


_TWO = {}


def two_point(kind, beta, par):
    """Exact laws of (min, max, gap) of the N=2 ensemble on the line."""
    key = (kind, beta, tuple(sorted(par.items())))
    if key in _TWO:
        return _TWO[key]
    if kind == 'hermite':
        t = np.linspace(-1, 1, 1001) * (7 + 2 * math.sqrt(1 + beta))
        x, lw = t, -t * t / 2
    elif kind == 'laguerre':
        m = 2 * par['shape'] + beta
        t = np.linspace(-20 / par['shape'], math.log(m + 10 * math.sqrt(m) + 25), 1201)
        x = np.exp(t)
        lw = par['shape'] * t - x
    else:
        t = np.linspace(-20 / min(1, par['a']), 20 / min(1, par['b']), 1001)
        x = sc.expit(t)
        lw = par['a'] * sc.log_expit(t) + par['b'] * sc.log_expit(-t)
    X, Y = np.meshgrid(x, x, indexing='ij')
    with np.errstate(divide='ignore', invalid='ignore'):
        W = lw[:, None] + lw[None, :] + beta * np.log(np.abs(X - Y))
    W[~np.isfinite(W)] = -np.inf
    W = np.exp(W - W.max()).ravel()
    X, Y = (par.get('loc', 0.0) + par.get('scale', 1.0) * v for v in (X, Y))
    lo, hi = np.minimum(X, Y).ravel(), np.maximum(X, Y).ravel()
    keep = W > 1e-13
    lo, hi, W = lo[keep], hi[keep], W[keep]
    out = {'min': cdf_from(lo, W), 'max': cdf_from(hi, W), 'gap': cdf_from(hi - lo, W)}
    if len(_TWO) > 8:
        _TWO.clear()
    _TWO[key] = out
    return out


def density2(kind, N, par):
    """cdf of the normalised one-point density, beta = 2."""
    x, w = grid(kind, par, .02, 34)
    s = (x - x.mean()) / x.std() if kind != 'hermite' else (x - par['loc']) / par['scale']
    P = [np.ones_like(s)]
    P[0] = P[0] / math.sqrt((w * P[0] ** 2).sum())
    for n in range(1, N):
        p = s * P[-1]
        for _ in range(2):
            for q in P:
                p = p - (w * p * q).sum() * q
        P.append(p / math.sqrt((w * p * p).sum()))
    rho = sum(p * p for p in P) * w
    return cdf_from(x, rho)


def circular_gap(beta):
    d = np.linspace(0, 2 * np.pi, 4001)
    return cdf_from(d, np.abs(np.sin(d / 2)) ** beta)


# ---------------------------------------------------------------------------
class C13(LawCheck):
    id = 'C13'
    title = 'beta-ensembles'
    runs = {'quick': 900, 'thorough': 9000}
    n_draws = {'quick': 1200, 'thorough': 5000}
    rule = ('seeded (ensemble, model, beta, parameters, size, call history incl. rejected and interrupted '
            'calls) configurations, n draws each, judged on count, support, and exact laws: reference '
            'measure (N=1, beta=0), two-point quadrature, beta=2 density, trace and radial laws, exact '
            'cumulants of log|Vandermonde| (Selberg/Mehta/Dyson) and log-determinant')
    state_measure = 'distinct (ensemble, model, beta, size, parameters, history shape) tuples'
    stub = []
    real = ['dppy.beta_ensembles, dppy.random_matrices', 'numpy', 'scipy.linalg (LAPACK)']
    assumptions = ['numpy RandomState streams are ideal; LAPACK eigenvalues accurate to 1e-9 relative']

    # -------------------------------------------------------------- plans
    def params(self, r, kind, model, N, beta):
        if model == 'full' or (kind in ('laguerre', 'jacobi') and r.random() < .3):
            if kind == 'laguerre':
                return {'size_M': N + r.choice([0, 0, 1, 3, 10])}
            if kind == 'jacobi':
                return {'size_M1': N + r.choice([0, 1, 1, 4, 10]), 'size_M2': N + r.choice([0, 0, 2, 5])}
            if kind == 'circular':
                return {'haar_mode': r.choice(['Hermite', 'QR']) if beta != 4 else 'Hermite'}
            return {}
        if r.random() < .15:
            return {}                           # library defaults
        if kind == 'hermite':
            return {'loc': r.choice([0.0, 1.0, -3.5, 100.0]), 'scale': r.choice([SQ2, 1.0, .1, 7.0])}
        if kind == 'laguerre':
            return {'shape': r.choice([.5, 1.0, 1.0, 2.5, 20.0]), 'scale': r.choice([2.0, 1.0, .3, 10.0])}
        if kind == 'jacobi':
            return {'a': r.choice([.5, 1.0, 1.5, 6.0]), 'b': r.choice([.5, 1.0, 2.0, 9.0])}
        return {}

    def config(self, r):
        kind = r.choice(['hermite', 'laguerre', 'jacobi', 'circular', 'circular', 'ginibre'])
        model = r.choice(['full', 'banded']) if kind != 'ginibre' else 'full'
        if kind == 'ginibre':
            beta = 2
        elif model == 'full':
            beta = r.choice([1, 2, 4, 4] + ([0] if kind in ('hermite', 'circular') else []))
        elif kind == 'circular':
            beta = r.choice([0, 1, 2, 3, 4, 4, 7])
        else:
            beta = r.choice([0, 1, 2, 2, 4, .5, 1.5, 3, 10, 40])
        N = r.choice([1, 2, 2, 2, 3, 3, 4, 5, 8, 15, 15])
        if N == 15:
            N = r.choice([11, 15, 24, 40])
        par = self.params(r, kind, model, N, beta)
        if beta == 0:
            par = {k: v for k, v in par.items() if not k.startswith('size')}
        return kind, model, beta, N, par

    def gen_law(self, r, tier, i):
        kind, model, beta, N, par = self.config(r)
        hist = []
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            op = r.choice(['sample', 'sample', 'flush', 'str', 'bad', 'fault', 'normalize'])
            n2 = r.choice([1, 2, 3, 6])
            m2 = r.choice(['full', 'banded'])
            hist.append([op, m2, n2, self.params(r, kind, m2, n2, beta), r.getrandbits(31)])
        p = {'kind': kind, 'model': model, 'beta': beta, 'N': N, 'par': par, 'history': hist,
             'seeds': r.choice(['inst', 'inst', 'int'])}
        if N >= 8:
            p['n'] = self.n_draws[tier] // (2 if N < 20 else 4)
        if kind in ('hermite', 'laguerre', 'jacobi', 'circular') and r.random() < .1:
            p['default_size'] = N == 10
        return p

    @staticmethod
    def make(kind, beta):
        from dppy import beta_ensembles as be
        return {'hermite': be.HermiteEnsemble, 'laguerre': be.LaguerreEnsemble,
                'jacobi': be.JacobiEnsemble, 'circular': be.CircularEnsemble,
                'ginibre': be.GinibreEnsemble}[kind](beta)

    def must_raise(self, obj, kind, beta, s):
        """One unsupported request; must be a ValueError and record nothing."""
        bad = [lambda: self.make(kind, -1), lambda: self.make(kind, -.5)]
        if kind in ('hermite', 'laguerre', 'jacobi'):
            bad += [lambda b=b: self.make(kind, b).sample_full_model(random_state=s) for b in (3, .5, 8)]
        if kind == 'laguerre':
            bad += [lambda: obj.sample_full_model(size_N=4, size_M=3, random_state=s),
                    lambda: obj.sample_banded_model(size_N=4, size_M=3, random_state=s),
                    lambda: self.make(kind, 0).sample_full_model(random_state=s),
                    lambda: self.make(kind, 0).sample_banded_model(size_M=50, random_state=s)]
        if kind == 'jacobi':
            bad += [lambda: obj.sample_full_model(size_N=4, size_M1=3, size_M2=9, random_state=s),
                    lambda: obj.sample_full_model(size_N=4, size_M1=9, size_M2=3, random_state=s),
                    lambda: obj.sample_banded_model(size_N=4, size_M1=3, size_M2=9, random_state=s),
                    lambda: obj.sample_banded_model(size_N=4, size_M1=9, size_M2=3, random_state=s),
                    lambda: self.make(kind, 0).sample_full_model(random_state=s)]
        if kind == 'circular':
            bad += [lambda: self.make(kind, .5), lambda: self.make(kind, 2.0),
                    lambda: self.make(kind, 4).sample_full_model(haar_mode='QR', random_state=s),
                    lambda: self.make(kind, 3).sample_full_model(haar_mode='QR', random_state=s),
                    lambda: self.make(kind, 3).sample_full_model(haar_mode='Hermite', random_state=s),
                    lambda: self.make(kind, 2).sample_full_model(haar_mode='nope', random_state=s)]
        if kind == 'ginibre':
            bad += [lambda: self.make(kind, 1), lambda: self.make(kind, 4), lambda: self.make(kind, 0)]
        j = s % len(bad)
        n0 = len(obj.list_of_samples)
        try:
            bad[j]()
        except ValueError:
            if len(obj.list_of_samples) != n0:
                raise Violation('recorded-failure', 'rejected request %d of %s left a sample' % (j, kind))
            return
        raise Violation('no-error', '%s: unsupported request %d did not raise ValueError' % (kind, j))

    @staticmethod
    def sample(obj, kind, model, N, par, state):
        if kind == 'ginibre' or model == 'full':
            return obj.sample_full_model(size_N=N, random_state=state, **par)
        return obj.sample_banded_model(size_N=N, random_state=state, **par)

    # ------------------------------------------------------------ one run
    def prepare(self, plan, ctx, stream):
        kind, model, beta, N, par = (plan[k] for k in ('kind', 'model', 'beta', 'N', 'par'))
        obj = self.make(kind, beta)
        for op, m2, n2, p2, s in plan['history']:
            ctx.stats.add('history_ops')
            ok = not (beta == 0 and (any(k.startswith('size') for k in p2) or
                                     (m2 == 'full' and kind in ('laguerre', 'jacobi')))) and \
                (m2 == 'banded' or beta in (0, 1, 2, 4)) and not (m2 == 'full' and p2.get('haar_mode') == 'QR' and beta == 4)
            if op == 'bad':
                self.must_raise(obj, kind, beta, s)
                ctx.stats.add('probe:rejected_requests')
            elif op == 'flush':
                obj.flush_samples()
            elif op == 'str':
                str(obj)
            elif op == 'normalize' and obj.list_of_samples:
                obj.normalize_points(obj.list_of_samples[-1])
            elif op == 'sample' and ok:
                self.sample(obj, kind, m2, n2, p2, s)
            elif op == 'fault' and ok:
                ctx.stats.add('armed:interrupt')
                with CallFaults('interrupt', s % 40) as cf:
                    try:
                        self.sample(obj, kind, m2, n2, p2, s)
                    except INJECTED:
                        ctx.stats.add('fault:interrupt')
        full = self.full_params(kind, model, beta, N, par)
        seed = seed_of('beta', plan['seed'], stream)
        rng = np.random.RandomState(seed)
        pick = np.random.RandomState(seed ^ 0x5bd1e995)

        def draw(t):
            stt = rng if plan['seeds'] == 'inst' else (seed + 104729 * t) % 2 ** 32
            n0 = len(obj.list_of_samples)
            x = self.sample(obj, kind, model, N, par, stt)
            if len(obj.list_of_samples) != n0 + 1 or obj.list_of_samples[-1] is not x and \
                    not np.array_equal(obj.list_of_samples[-1], x):
                raise Violation('not-recorded', '%s: sample not appended' % kind)
            if n0 > 50:
                obj.flush_samples()
            self.check_points(kind, x, N)
            return np.array(x)

        def judge(xs):
            return self.judge(np.array(xs), kind, beta, N, full, pick)
        ctx.state(kind, model, beta, N, sorted(par.items()), len(plan['history']))
        ctx.nontrivial = '%s-%s-%s-%s-%s' % (kind, model, beta, N, sorted(par.items()))
        return draw, judge, '%s/%s/%s' % (kind, model, beta)

    @staticmethod
    def full_params(kind, model, beta, N, par):
        if kind == 'hermite':
            return {'loc': par.get('loc', 0.0), 'scale': par.get('scale', SQ2)}
        if kind == 'laguerre':
            M = par.get('size_M', 100 if model == 'full' else None)
            if M:
                return {'shape': .5 * beta * (M - N + 1), 'scale': 2.0}
            return {'shape': par.get('shape', 1.0), 'scale': par.get('scale', 2.0)}
        if kind == 'jacobi':
            M1, M2 = par.get('size_M1'), par.get('size_M2')
            if model == 'full':
                M1, M2 = M1 or 150, M2 or 200
            if M1:
                return {'a': .5 * beta * (M1 - N + 1), 'b': .5 * beta * (M2 - N + 1)}
            return {'a': par.get('a', 1.0), 'b': par.get('b', 2.0)}
        return {}

    @staticmethod
    def check_points(kind, x, N):
        x = np.asarray(x)
        if x.shape != (N,):
            raise Violation('wrong-count', '%s: %d points requested, shape %s returned' % (kind, N, x.shape))
        if not np.all(np.isfinite(x)):
            raise Violation('not-finite', '%s: %r' % (kind, x))
        cplx = np.iscomplexobj(x)
        if kind in ('circular', 'ginibre'):
            if kind == 'circular' and np.abs(np.abs(x) - 1).max() > 1e-8:
                raise Violation('support', 'circular: moduli %r' % np.abs(x))
            return
        if cplx:
            raise Violation('support', '%s: complex points' % kind)
        tol = 1e-9 * max(1.0, np.abs(x).max())
        if kind == 'laguerre' and x.min() < -tol:
            raise Violation('support', 'laguerre: %r' % x)
        if kind == 'jacobi' and (x.min() < -tol or x.max() > 1 + tol):
            raise Violation('support', 'jacobi: %r' % x)

    # -------------------------------------------------------------- oracle
    def judge(self, X, kind, beta, N, par, pick):
        n = len(X)
        ps = []
        one = X[np.arange(n), pick.randint(0, N, n)]
        iu = np.triu_indices(N, 1)
        z = None
        if N > 1:
            D = np.abs(X[:, :, None] - X[:, None, :])[:, iu[0], iu[1]]
            if kind != 'ginibre':
                T, c = logdelta_terms(kind, N, beta, par)
                k = cumulants(T, c)
                ld = np.log(np.maximum(D, 1e-300)).sum(1)
                zm, zv = z_mean_var(ld, k)
                ps += [z_p(zm), z_p(zv * .8)]
                z = zm
        if kind in ('circular', 'ginibre'):
            ang = np.mod(np.angle(one), 2 * np.pi)
            ps.append(ks_p(ang, st.uniform(0, 2 * np.pi).cdf))
        if kind == 'circular':
            p1 = np.abs(X.sum(1)) ** 2
            m = 2.0 * N / (beta * (N - 1) + 2)
            if N > 1:
                ps.append(z_p((p1.mean() - m) / (p1.std() / math.sqrt(n)) * .9))
            if N == 2:
                g = np.mod(np.angle(X[:, 0] / X[:, 1]), 2 * np.pi)
                g = np.where(pick.rand(n) < .5, g, 2 * np.pi - g)
                ps.append(ks_p(g, circular_gap(beta)))
            if beta == 0 and N > 1:
                ps.append(ks_p(np.mod(np.angle(X[:, 0] / X[:, -1]), 2 * np.pi), st.uniform(0, 2 * np.pi).cdf))
        elif kind == 'ginibre':
            r2 = np.abs(X) ** 2
            ps.append(ks_p(r2.sum(1), st.gamma(N * (N + 1) / 2).cdf))
            ps.append(ks_p(r2.max(1), lambda y: np.prod([st.gamma.cdf(y, j) for j in range(1, N + 1)], axis=0)))
            zm, zv = z_mean_var(np.log(r2).sum(1), cumulants([(1, j, 1) for j in range(1, N + 1)]))
            ps += [z_p(zm), z_p(zv * .8)]
            z = zm
            if N == 2:
                ps.append(ks_p(D[:, 0] ** 2 / 2, st.gamma(2).cdf))
        else:
            if N == 1 or beta == 0:
                ps.append(ks_p(one, dist(kind, par).cdf))
            if N > 1 and beta == 0:
                d = dist(kind, par)
                ps.append(ks_p(X.max(1), lambda y: d.cdf(y) ** N))
                ps.append(ks_p(X.min(1), lambda y: 1 - d.sf(y) ** N))
            if kind == 'hermite':
                mu, sg = par['loc'], par['scale']
                ps.append(ks_p(X.sum(1), st.norm(N * mu, sg * math.sqrt(N)).cdf))
                if N > 1:
                    v = ((X - X.mean(1)[:, None]) ** 2).sum(1) / sg ** 2
                    ps.append(ks_p(v, st.chi2(N - 1 + beta * N * (N - 1) / 2).cdf))
            if kind == 'laguerre':
                ps.append(ks_p(X.sum(1) / par['scale'], st.gamma(N * par['shape'] + beta * N * (N - 1) / 2).cdf))
            if (kind == 'laguerre' and par['shape'] >= .5) or (kind == 'jacobi' and par['a'] >= .5):
                T, c = logdet_terms(kind, N, beta, par)
                zm, zv = z_mean_var(np.log(np.maximum(X, 1e-30)).sum(1), cumulants(T, c))
                ps += [z_p(zm), z_p(zv * .8)]
            if kind == 'jacobi' and par['b'] >= .5:
                T, c = logdet_terms(kind, N, beta, {'a': par['b'], 'b': par['a']})
                zm, zv = z_mean_var(np.log(np.maximum(1 - X, 1e-30)).sum(1), cumulants(T, c))
                ps += [z_p(zm), z_p(zv * .8)]
            if N == 2 and beta > 0:
                laws = two_point(kind, beta, par)
                ps += [ks_p(X.min(1), laws['min']), ks_p(X.max(1), laws['max']),
                       ks_p(np.abs(X[:, 0] - X[:, 1]), laws['gap'])]
            elif beta == 2 and 2 < N <= 8:
                ps.append(ks_p(one, density2(kind, N, par)))
        p = min(1.0, float(np.min(ps)) * len(ps))
        return (0.0, 0, p) if z is None else (float(z) ** 2, 1, p)

    def shrinks(self, plan):
        if 'members' in plan:
            return
        yield from super().shrinks(plan)
        if plan['par'] and plan['beta'] > 0:
            yield dict(plan, par={})
        for N in (1, 2, 3):
            if N < plan['N'] and not any(k.startswith('size') for k in plan['par']):
                yield dict(plan, N=N)


CHECK = C13()
