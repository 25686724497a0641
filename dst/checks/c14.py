"""C14: multivariate Jacobi ensemble against exact generating functionals."""
import itertools
import math

import numpy as np
from scipy import special as sc
from scipy import stats as st

from ..core import Violation
from ..law import LawCheck
from ..seams import INJECTED, CallFaults, seed_of
from ..stat import ks_p, z_p


def ordering(N, d):
    """Multi-indices by increasing maximum degree, then lexicographically."""
    m = 0
    while (m + 1) ** d < N:
        m += 1
    return sorted(itertools.product(range(m + 1), repeat=d), key=lambda k: (max(k), k))[:N]


class Oracle:
    """Projection DPP on span{P_k}, w.r.t. prod (1-x)^a (1+x)^b, by Gauss quadrature."""

    def __init__(self, N, par):
        self.N, self.par, self.d = N, par, len(par)
        self.ks = np.array(ordering(N, self.d))
        deg = int(self.ks.max())
        m = deg + (14 if self.d < 4 else 9)
        self.x1, self.w1, self.phi, self.Ri = [], [], [], []
        for a, b in par:
            x, w = sc.roots_jacobi(m, a, b)
            V = np.polynomial.legendre.legvander(x, deg) * np.sqrt(w)[:, None]
            Q, R = np.linalg.qr(V)
            self.x1.append(x)
            self.w1.append(w)
            self.phi.append(Q)                  # sqrt(w) * orthonormal polynomial
            self.Ri.append(np.linalg.inv(R))
        # tensor grid
        idx = np.array(list(itertools.product(range(m), repeat=self.d)))
        self.X = np.stack([self.x1[i][idx[:, i]] for i in range(self.d)], 1)
        F = np.ones((len(idx), N))
        for i in range(self.d):
            F *= self.phi[i][idx[:, i]][:, self.ks[:, i]]
        self.F = F                              # rows: nodes, columns: basis

    def functional(self, h):
        """E prod h(x_i) and its variance."""
        v = h(self.X)
        m1 = np.linalg.det(self.F.T.dot(v[:, None] * self.F))
        m2 = np.linalg.det(self.F.T.dot((v * v)[:, None] * self.F))
        return m1, m2 - m1 * m1

    def basis(self, X):
        """Orthonormal polynomials at the rows of X."""
        B = np.ones((len(X), self.N))
        for i in range(self.d):
            V = np.polynomial.legendre.legvander(X[:, i], len(self.Ri[i]) - 1).dot(self.Ri[i])
            B *= V[:, self.ks[:, i]]
        return B

    def linear(self, f):
        """E sum f(x_i) and its variance."""
        v = f(self.X)
        G = self.F.T.dot(v[:, None] * self.F)
        return np.trace(G), np.trace(self.F.T.dot((v * v)[:, None] * self.F)) - (G * G).sum()

    def given_others(self, X, i, fs):
        """Means and variances of the functions at point i given all the other points.

        Given the others, its density is (c . basis(x))^2 w(x), c orthogonal to their basis values."""
        B = self.basis(np.delete(X, i, axis=0))
        B /= np.sqrt((B * B).sum(1))[:, None]
        c = np.linalg.svd(B)[2][-1]
        q = self.F.dot(c) ** 2
        q = q / q.sum()
        out = []
        for f in fs:
            v = f(self.X)
            m = (q * v).sum()
            out.append((f(X[i:i + 1])[0] - m, (q * v * v).sum() - m * m))
        return out

    def dens1(self, i):
        """(theta grid x, cdfs F_k of P_k^2 w, densities) in coordinate i."""
        a, b = self.par[i]
        T = 3000
        # variable u with x = -1 + 2 I(u): smooth at both ends
        g = np.arange(-36, 36.01, 72 / T)
        lo = sc.log_expit(-g)                   # log (1-x)/2
        hi = sc.log_expit(g)                    # log (1+x)/2
        x = np.tanh(g / 2)
        w = np.exp((a + 1) * lo + (b + 1) * hi)
        out = []
        for k in range(int(self.ks.max()) + 1):
            p = sc.eval_jacobi(k, a, b, x) ** 2 * w
            c = np.concatenate([[0], np.cumsum((p[1:] + p[:-1]) / 2)])
            out.append((c / c[-1], p / c[-1]))
        return g, out

    def coord_laws(self, pts):
        """Uniform(0,1) transforms of points drawn from K(x,x)w/N, per coordinate,
        each conditional on the previous coordinates (Rosenblatt)."""
        wk = np.full((len(pts), self.N), 1.0 / self.N)
        U = []
        for i in range(self.d):
            g, tab = self.dens1(i)
            x = np.clip(pts[:, i], -1 + 1e-15, 1 - 1e-15)
            t = np.log1p(x) - np.log1p(-x)
            C = np.stack([np.interp(t, g, c) for c, _ in tab], 1)[:, self.ks[:, i]]
            P = np.stack([np.interp(t, g, p) for _, p in tab], 1)[:, self.ks[:, i]]
            U.append((wk * C).sum(1) / wk.sum(1))
            wk = wk * np.maximum(P, 1e-300)
            wk /= wk.sum(1)[:, None]
        return U


def functionals(d, seed):
    """A family of bounded test functions, identified by a seed."""
    g = np.random.RandomState(seed)
    out = []
    for _ in range(6):
        kind = g.randint(4)
        c = g.uniform(-1, 1, d)
        s = g.uniform(.3, 1.2)
        i = g.randint(d)
        if kind == 0:
            out.append(lambda X, c=c, s=s: np.exp(s * X.dot(c)))
        elif kind == 1:
            out.append(lambda X, i=i, s=s: 1 + min(s, .95) * X[:, i])
        elif kind == 2:
            out.append(lambda X, i=i, s=s: np.exp(-s * X[:, i] ** 2))
        else:
            out.append(lambda X, c=c, s=s: 1.2 + .8 * np.sin(1.5 * X.dot(c) + s))
    return out


_ORA = {}


def oracle(N, par):
    key = (N, tuple(map(tuple, par)))
    if key not in _ORA:
        if len(_ORA) > 6:
            _ORA.clear()
        _ORA[key] = Oracle(N, par)
    return _ORA[key]


class C14(LawCheck):
    id = 'C14'
    title = 'multivariate Jacobi ensemble'
    runs = {'quick': 420, 'thorough': 4000}
    n_draws = {'quick': 600, 'thorough': 2500}
    rule = ('seeded (N, d, Jacobi parameters, algorithm, call history incl. exhausted and interrupted calls) '
            'configurations, n draws each, judged on shape, support, one-point law of every coordinate '
            '(Rosenblatt transform, KS) and six exact generating functionals E prod h(x_i) = det <P_k h P_l> '
            '(mean and variance known by Gauss quadrature); rejection-budget runs judged on the frequency '
            'of normal returns')
    state_measure = 'distinct (N, d, parameter class, algorithm, history shape) tuples'
    real = ['dppy.multivariate_jacobi_ope, dppy.random_matrices (tridiagonal)', 'numpy', 'scipy.special']

    def params(self, r, d):
        out = []
        for _ in range(d):
            u = r.random()
            if u < .2:
                ab = [-.5, -.5]
            elif u < .35:
                ab = [r.choice([-.5, .5]), r.choice([-.5, .5, 0.0])]
            elif u < .45:
                ab = [0.0, 0.0]
            elif u < .6:
                ab = [-.5, round(r.uniform(-.5, .5), 3)][::r.choice([1, -1])]
            else:
                ab = [round(r.uniform(-.5, .5), 3), round(r.uniform(-.5, .5), 3)]
            out.append(ab)
        if d == 1 and r.random() < .5:
            out = [[r.choice([-.9, -.6, .7, 1.0, 3.0, 8.0]), r.choice([-.8, .5, 0.0, 2.0, 5.0])]]
        return out

    def gen_law(self, r, tier, i):
        d = r.choice([1, 1, 2, 2, 2, 3, 4])
        N = r.choice([1, 2, 2, 3, 4, 5, 6, 8] if d < 3 else [1, 2, 3, 4, 6])
        p = {'N': N, 'd': d, 'par': self.params(r, d), 'tridiag': r.choice([True, False]),
             'history': [[r.choice(['sample', 'other', 'exhaust', 'fault', 'K', 'proposal']), r.getrandbits(31)]
                         for _ in range(r.choice([0, 0, 1, 3]))],
             'seeds': r.choice(['inst', 'inst', 'int'])}
        if i % 7 == 3:
            p.update(budget=r.choice([1, 1, 2]), N=r.choice([6, 8, 10]),
                     par=[[min(.5, max(-.5, v)) for v in ab] for ab in p['par']], tridiag=False)
        elif i % 7 in (1, 4):                   # points one by one, many of them
            p.update(onepoint=True, N=r.choice([1, 1, 1, 2, 3, 5]), tridiag=False,
                     n=12 * self.n_draws[tier],
                     par=[[min(.5, max(-.5, v)) for v in ab] for ab in p['par']])
            if r.random() < .6:
                p['par'][0] = [r.choice([-.5, -.49, -.4, -.45]), r.choice([.5, .4, .2, 0.])][::r.choice([1, -1])]
        elif r.random() < .06 and d < 3:
            p['N'], p['n'] = 16, self.n_draws[tier] // 4
        elif i % 7 in (0, 5) and r.random() < .5:
            p.update(N=r.choice([10, 12, 15, 20, 30, 40]), big=True, n=self.n_draws[tier] // 3)
        return p

    def must_raise(self, s):
        from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE as M
        z = np.zeros
        bad = [(0, z((1, 2))), (-1, z((2, 2))), (2.5, z((2, 2))), (3, np.array([[-1.0, 0.0]])),
               (3, np.array([[0.0, -1.5]])), (3, np.array([[0.0, .51], [0, 0]])),
               (3, np.array([[0.0, 0.0], [-.6, 0]])), (3, np.array([[2.0, 0.0], [0, 0], [0, 0]]))]
        N, par = bad[s % len(bad)]
        try:
            M(N, par)
        except ValueError:
            return
        raise Violation('no-error', 'MultivariateJacobiOPE(%r, %r) accepted' % (N, par.tolist()))

    def prepare(self, plan, ctx, stream):
        from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
        N, d, par, tri = plan['N'], plan['d'], plan['par'], plan['tridiag']
        self.must_raise(plan['seed'])
        obj = MultivariateJacobiOPE(N, np.array(par, float))
        outside = d == 1 and max(abs(v) for v in par[0]) > .5
        for op, s in plan['history']:
            ctx.stats.add('history_ops')
            if op == 'exhaust':
                try:
                    obj.sample(nb_trials_max=1, random_state=s, tridiag_1D=False)
                except Exception:
                    ctx.stats.add('fault:rejections_exhausted')
            elif op == 'fault':
                with CallFaults('interrupt', s % 60):
                    try:
                        obj.sample(random_state=s, tridiag_1D=bool(s & 1) or outside)
                    except INJECTED:
                        ctx.stats.add('fault:interrupt')
            elif op == 'K':
                obj.K(np.random.RandomState(s).uniform(-1, 1, (3, d)))
            elif op == 'proposal' and not outside:
                obj.sample_chain_rule_proposal(random_state=s)
            elif op == 'other' and not outside:
                obj.sample(random_state=s, tridiag_1D=not tri)
            elif op == 'sample' and (tri or not outside):
                obj.sample(random_state=s, tridiag_1D=tri)
        seed = seed_of('jacobi', plan['seed'], stream)
        rng = np.random.RandomState(seed)
        pick = np.random.RandomState(seed ^ 0x1234567)
        kw = {} if (tri and plan['seed'] & 1) else {'tridiag_1D': tri}

        one = plan.get('onepoint')
        if one and N > 1 and not hasattr(obj, 'sample_chain_rule_proposal'):
            one, plan['n'] = False, self.n_draws['quick']

        def draw(t):
            state = rng if plan['seeds'] == 'inst' else (seed + 7919 * t) % 2 ** 32
            if one and N > 1:
                x = np.asarray(obj.sample_chain_rule_proposal(random_state=state)).reshape(1, -1)
                if x.shape != (1, d) or not np.all(np.abs(x) <= 1 + 1e-9):
                    raise Violation('support', 'point outside the cube: %r' % x)
                return x
            x = obj.sample(random_state=state, **kw)
            if not isinstance(x, np.ndarray) or x.shape != (N, d):
                raise Violation('wrong-shape', 'N=%d d=%d: %r' % (N, d, getattr(x, 'shape', type(x))))
            if not np.all(np.abs(x) <= 1 + 1e-9):       # also rejects nan
                raise Violation('support', 'point outside the cube: %r' % x)
            return x

        def judge(xs):
            X = np.array(xs)
            n = len(X)
            ora = oracle(N, par)
            pts = X[:, 0] if one else X[np.arange(n), pick.randint(0, N, n)]
            us = ora.coord_laws(pts)
            ps = [ks_p(u, st.uniform.cdf) for u in us]
            if n > 400:                         # smooth tests: more power against small shifts
                ps += [z_p(math.sqrt(2 * n) * np.cos(np.pi * k * u).mean()) for u in us for k in (1, 2, 3, 4)]
            if one and N > 1:
                p = min(1.0, float(min(ps)) * len(ps))
                return 0.0, 0, p
            if plan.get('big'):
                return self.judge_big(ora, X, plan['seed'] + 17 * stream, ps)
            zs = []
            for h in functionals(d, plan['seed'] + 17 * stream):
                m, v = ora.functional(h)
                if v < 1e-10 * m * m:
                    continue
                y = h(X.reshape(-1, d)).reshape(n, N).prod(1)
                z = (y.mean() - m) / math.sqrt(v / n)
                # a heavy upper tail makes the normal approximation poor
                if np.sqrt(v) < 1.5 * abs(m):
                    zs.append(z)
                    ps.append(z_p(z * .85))
            p = min(1.0, float(min(ps)) * len(ps))
            return (float(zs[0]) ** 2, 1, p) if zs else (0.0, 0, p)
        ctx.state(N, d, [[v == -.5 for v in ab] for ab in par], tri, len(plan['history']), bool(one))
        ctx.nontrivial = '%s-%s-%s-%s' % (N, d, par, tri)
        return draw, judge, 'd%d/%s' % (d, 'point' if one else 'tridiag' if tri and d == 1 else 'chain')

    @staticmethod
    def judge_big(ora, X, seed, ps):
        """Many points: linear statistics, and one point of each draw given all the others."""
        g = np.random.RandomState(seed)
        n, N, d = X.shape
        fs = []
        for _ in range(8):
            k, i, s, c = g.randint(1, 6), g.randint(d), g.uniform(0, 6), g.uniform(-1, 1, d)
            fs.append([lambda Y, k=k, i=i, s=s: np.cos(k * np.arccos(np.clip(Y[:, i], -1, 1)) + 0 * s),
                       lambda Y, k=k, c=c, s=s: np.sin(k * Y.dot(c) + s)][g.randint(2)])
        flat = X.reshape(-1, d)
        for f in fs:
            m, v = ora.linear(f)
            if v > 1e-6:
                ps.append(z_p(.9 * (f(flat).reshape(n, N).sum(1).mean() - m) / math.sqrt(v / n)))
        S = np.zeros((2, len(fs)))
        for t in range(n):
            S += np.array(ora.given_others(X[t], g.randint(N), fs)).T
        ok = S[1] > 1e-6 * n
        ps += [z_p(.9 * z) for z in S[0][ok] / np.sqrt(S[1][ok])]
        return 0.0, 0, min(1.0, float(min(ps)) * len(ps))

    def run(self, plan, ctx):
        if 'budget' in plan:
            return self.run_budget(plan, ctx)
        if plan.get('d') == 1 and not plan.get('tridiag') and max(abs(v) for v in plan['par'][0]) > .5:
            # the chain rule may refuse these parameters, but only explicitly
            from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
            try:
                MultivariateJacobiOPE(plan['N'], np.array(plan['par'], float)).sample(
                    random_state=1, tridiag_1D=False)
            except (ValueError, RuntimeError):
                ctx.stats.add('probe:refused_parameters')
                ctx.stats.add('evaluations')
                return
        return super().run(plan, ctx)

    def run_budget(self, plan, ctx):
        """With a tiny budget nearly every call must end in an explicit error."""
        from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
        N, d, m = plan['N'], plan['d'], plan['budget']
        obj = MultivariateJacobiOPE(N, np.array(plan['par'], float))
        rng = np.random.RandomState(seed_of('budget', plan['seed']))
        q = 1.0
        for n in range(N):
            q *= 1 - (n / N) ** (m + 1)         # one trial of slack
        R, ok, types = 160, 0, {}
        for _ in range(R):
            try:
                x = obj.sample(nb_trials_max=m, random_state=rng, tridiag_1D=False)
            except Exception as e:
                types[type(e).__name__] = types.get(type(e).__name__, 0) + 1
                ctx.stats.add('fault:rejections_exhausted')
                continue
            ok += 1
            if x.shape != (N, d) or not np.all(np.abs(x) <= 1 + 1e-9):
                raise Violation('support', '%r' % x)
        ctx.stats.add('evaluations', R)
        ctx.ev('budget', N, d, m, ok, sorted(types.items()))
        ctx.state('budget', N, d, m)
        for t in types:
            if t in ('TypeError', 'AttributeError', 'NameError', 'UnboundLocalError', 'IndexError', 'KeyError'):
                raise Violation('unexpected-error:' + t, 'rejection budget %d: %r' % (m, types))
        if st.binom.sf(ok - 1, R, min(1, q)) < 1e-9:
            raise Violation('unaccepted-points', 'N=%d, %d trials per point: %d of %d calls returned a point '
                            'set, at most a fraction %.3g can have been accepted' % (N, m, ok, R, q))

    def shrinks(self, plan):
        if 'members' in plan or 'budget' in plan:
            return
        yield from super().shrinks(plan)
        for N in range(1, plan['N']):
            yield dict(plan, N=N)


CHECK = C14()
