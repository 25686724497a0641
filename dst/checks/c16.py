"""C16: Gibbs sampler for polynomial potentials.

Oracles, none of which looks at the conditionals the code uses:
 quad   one exact pass over g2 x^2 + g1 x is the Gaussian beta-ensemble (C13 oracle)
 one    N = 1: density exp(-(beta/2) V), quadrature
 loop   any potential, beta, N: the loop (Schwinger-Dyson) equations of
        |Delta|^beta exp(-(beta N/2) sum V), which must have mean zero under the
        stationary law, tested across independent replicate chains
"""
import math

import numpy as np
from scipy import stats as st

from ..core import Violation
from ..law import LawCheck
from ..seams import INJECTED, CallFaults, seed_of
from ..stat import ks_p, z_p
from .c13 import CHECK as C13, cdf_from

EXACT = [[.5, 0, 0], [1.0, 0, 0], [.25, 0, 0, 0, 0], [.25, 0, .5, 0, 0], [1.0, 0, 0, 0, 0],
         [.25, 0, .5, 1.0, 0], [.1, 0, 2.0, -1.5, 0], [.5, 0, 0, -1.0, 0]]
APPROX = EXACT + [[1 / 6, 0, 0, 0, 0, 0, 0], [1 / 6, 0, .25, 0, .5, 0, 0], [.25, 0, -1.0, 0, 0],
                  [1 / 20, -4 / 15, 1 / 5, 8 / 5, 0], [.3, 0, .2, .4, .1, -.5, 0], [.5, 0, -.6, 0, 0, 0, 0],
                  [.25, .3, .5, 0, 0], [.1, 0, .3, -.3, .1, .4, 0]]
BAD = [[1.0, 0], [1.0, 0, 0, 0], [-1.0, 0, 0], [-.5, 0, 1.0, 0, 0], [1.0, .5, 0, 0, 0, 0, 0],
       [1.0] + [0] * 8, [1.0] + [0] * 7, [3.0], [0.0], [1.0] + [0] * 10]
NOT_EXACT = [[1.0, .5, 0, 0, 0], [1.0, 0, 0, 0, 0, 0, 0], [1.0, 0, -.5, 0, 0], [1 / 20, -4 / 15, 1 / 5, 8 / 5, 0]]


def loops(X, v, beta, N, s):
    """Loop-equation functionals, rows of X (in units of s).

    h = 1, y, ..., y^(d-1) with y = x / s; v(y) is the potential, of degree d."""
    Y = X / s
    dv = np.polyder(np.poly1d(v))(Y)
    out = [(-(.5 * beta * N) * dv).sum(1)]
    d = len(v) - 1
    P = [Y ** k for k in range(d)]
    S = [p.sum(1) for p in P]
    for k in range(1, d):
        single = (k * P[k - 1] - .5 * beta * N * dv * P[k]).sum(1)
        # sum over i != j of (y_i^k - y_j^k)/(y_i - y_j) = sum_m y_i^m y_j^(k-1-m)
        pair = sum(S[m] * S[k - 1 - m] for m in range(k)) - k * S[k - 1]
        out.append(single + .5 * beta * pair)
    return np.stack(out, 1)


class Check16(LawCheck):
    id = 'C16'
    title = 'polynomial potentials'
    runs = {'quick': 132, 'thorough': 1500}
    n_draws = {'quick': 700, 'thorough': 2500}
    rule = ('seeded (potential, beta, N, passes, exact or Langevin conditionals, output form, call history '
            'incl. rejected and interrupted calls) configurations; exact laws for quadratic potentials and '
            'single points, loop equations across independent replicate chains for all others')
    state_measure = 'distinct (mode, potential, beta, N, exactness, history shape) tuples'
    stub = []
    real = ['dppy.beta_ensemble_polynomial_potential(_core)', 'numpy', 'scipy.linalg (LAPACK)', 'scipy.optimize']
    assumptions = ['numpy RandomState streams are ideal',
                   'replicate chains of the listed length forget the all-zero start (checked on the unchanged tree: '
                   'pooled statistics have the expected distribution)']

    def gen_law(self, r, tier, i):
        mode = ('quad', 'one', 'loop', 'loop', 'loop', 'loop')[i % 6]
        beta = r.choice([.5, 1, 1, 2, 2, 2, 4, 10])
        hist = [[r.choice(['sample', 'bad', 'notexact', 'fault', 'str']), r.randrange(100), r.getrandbits(31)]
                for _ in range(r.choice([0, 0, 1, 2, 3]))]
        p = {'mode': mode, 'beta': beta, 'history': hist, 'seeds': r.choice(['inst', 'int']), 'exact': True,
             'out': r.choice(['last', 'chain', 'max']), 'const': r.choice([0, 0, 0, 2.5])}
        if mode == 'quad':
            p.update(v=[r.choice([.5, 1.0, .05, 20.0]), r.choice([0, 0, 1.0, -3.0]), r.choice([0, 0, 2.0])], s=1.0,
                     N=r.choice([1, 2, 2, 3, 5, 8]), passes=r.choice([1, 1, 1, 2]))
        elif mode == 'one':
            p.update(v=r.choice(EXACT), s=r.choice([1.0, 1.0, .1, 10.0]), N=1, passes=r.choice([1, 1, 3]))
        else:
            kind = ('exact', 'quartic', 'sextic', 'sextic')[i % 6 - 2]
            p['exact'] = kind == 'exact'
            p['N'] = r.choice([2, 3, 4, 5] if p['exact'] else [1, 2, 2, 3, 4] if kind == 'quartic' else [1, 3, 4, 4, 5])
            p.update(v=r.choice(EXACT[2:] if p['exact'] else [v for v in APPROX if (len(v) == 7) == (kind == 'sextic')]),
                     s=1.0, passes=50 if p['exact'] else 40, burn=15, n=20 if tier == 'quick' else 60)
            if not p['exact']:
                # the Langevin step is 0.01: scale the potential to its reach
                p['s'] = r.choice([.02, .03]) * math.sqrt(p['N'] * beta)
                p['mala'] = 30
            else:
                p['s'] = r.choice([1.0, 1.0, .2])
        return p

    @staticmethod
    def scaled(v, s):
        """Potential x -> v(x / s)."""
        d = len(v) - 1
        return np.poly1d([c / s ** (d - k) for k, c in enumerate(v)])

    @staticmethod
    def make(beta, V):
        from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential
        return BetaEnsemblePolynomialPotential(beta, V)

    def prepare(self, plan, ctx, stream):
        mode, beta, N, passes, s = (plan[k] for k in ('mode', 'beta', 'N', 'passes', 's'))
        V = self.scaled(plan['v'], s) + plan['const']
        keep = V.coeffs.copy()
        obj = self.make(beta, V)
        for op, k, seed in plan['history']:
            ctx.stats.add('history_ops')
            if op == 'bad':
                ctx.stats.add('probe:rejected_requests')
                for f in (lambda: self.make(beta, np.poly1d(BAD[k % len(BAD)])),
                          lambda: self.make([0, -1, -.5][k % 3], np.poly1d([1.0, 0, 0]))):
                    try:
                        f()
                    except ValueError:
                        continue
                    raise Violation('no-error', 'unsupported potential %r or beta accepted' % BAD[k % len(BAD)])
            elif op == 'notexact':
                ctx.stats.add('probe:rejected_requests')
                v = NOT_EXACT[k % len(NOT_EXACT)]
                try:
                    self.make(beta, np.poly1d(v)).sample_mcmc(N=2, nb_gibbs_passes=1, sample_exact_cond=True,
                                                              random_state=seed)
                except ValueError:
                    continue
                raise Violation('no-error', 'exact conditionals accepted for %r' % v)
            elif op == 'str':
                str(obj)
            elif op == 'fault':
                ctx.stats.add('armed:interrupt')
                with CallFaults('interrupt', k) as cf:
                    try:
                        self.sample(obj, 3, 2, plan, seed, 'last')
                    except INJECTED:
                        ctx.stats.add('fault:interrupt')
            else:
                self.sample(obj, 1 + k % 4, 1 + k % 3, plan, seed, ['last', 'chain', 'max'][k % 3])
        seed = seed_of('poly', plan['seed'], stream)
        rng = np.random.RandomState(seed)
        pick = np.random.RandomState(seed ^ 0x5bd1e995)
        done = [0]

        def draw(t):
            stt = rng if plan['seeds'] == 'inst' else (seed + 104729 * t) % 2 ** 32
            if mode == 'loop':
                C = self.sample(obj, N, passes, plan, stt, 'chain')
                ctx.stats.add('gibbs_passes', passes)
                return loops(C[:, plan['burn']:].T, plan['v'], beta, N, s).mean(0)
            out = plan['out']
            x = self.sample(obj, N, passes, plan, stt, out)
            ctx.stats.add('gibbs_passes', passes)
            if t < 3 and plan['seeds'] == 'int':    # one chain, three views
                ref = self.sample(obj, N, passes, plan, stt, 'chain')
                got = ref[:, -1] if out == 'last' else ref.max(0) if out == 'max' else ref
                if not np.allclose(got, x, rtol=1e-7, atol=1e-9 * s):
                    raise Violation('output-forms', 'same seed, output form %r disagrees with the chain' % out)
            return x if out == 'last' else x[:, -1] if out == 'chain' else x[-1:]

        def judge(xs):
            X = np.array(xs)
            if not np.array_equal(V.coeffs, keep):
                raise Violation('input-modified', 'the potential of the caller changed')
            if mode == 'loop':
                return self.judge_loops(X)
            n = len(X)
            if mode == 'one' or N == 1:
                g = self.density1(plan['v'], beta)
                p = ks_p(X[:, 0] / s, g)
                return 0.0, 0, p
            g2, g1 = plan['v'][:2]
            par = {'loc': -g1 / (2 * g2), 'scale': 1 / math.sqrt(beta * N * g2)}
            if plan['out'] == 'max':
                if N == 2:
                    from .c13 import two_point
                    return 0.0, 0, ks_p(X[:, 0], two_point('hermite', beta, par)['max'])
                return 0.0, 0, 1.0
            return C13.judge(X, 'hermite', beta, N, par, pick)
        ctx.state(mode, plan['v'], beta, N, plan['exact'], len(plan['history']))
        ctx.nontrivial = '%s-%s-%s-%s-%s' % (mode, plan['v'], beta, N, plan['exact'])
        return draw, judge, '%s/%s/%s' % (mode, 'exact' if plan['exact'] else 'mala', len(plan['v']) - 1)

    @staticmethod
    def density1(v, beta):
        y = np.linspace(-1, 1, 200001) * 60
        f = -.5 * beta * np.poly1d(v)(y)
        return cdf_from(y, np.exp(f - f.max()))

    @staticmethod
    def sample(obj, N, passes, plan, state, out):
        kw = {'chain': {'return_chain_of_eig_vals': True}, 'max': {'return_chain_of_lambda_max': True}}.get(out, {})
        if not plan['exact']:
            kw['nb_mala_steps'] = plan['mala']
        x = obj.sample_mcmc(N=N, nb_gibbs_passes=passes, sample_exact_cond=plan['exact'], random_state=state, **kw)
        x = np.asarray(x)
        want = {'last': (N,), 'chain': (N, passes), 'max': (passes,)}[out]
        if x.shape != want or np.iscomplexobj(x):
            raise Violation('wrong-count', '%s: shape %s dtype %s, expected real %s' % (out, x.shape, x.dtype, want))
        if not np.all(np.isfinite(x)):
            raise Violation('not-finite', repr(x))
        if out != 'max' and np.any(np.diff(x, axis=0) < 0):
            raise Violation('not-sorted', repr(x))
        return x

    def judge_loops(self, X):
        """t-tests that the replicate means are centred, Bonferroni."""
        n, d = X.shape
        if n < 10:
            return 0.0, 0, 1.0
        t = np.sqrt(n) * X.mean(0) / np.maximum(X.std(0, ddof=1), 1e-300)
        p = min(1.0, d * float(2 * st.t.sf(np.abs(t), n - 1).min()))
        self.vec = [float(np.clip(st.norm.isf(st.t.sf(x, n - 1)), -8, 8)) for x in t]
        return float(st.chi2.isf(max(p, 1e-300), 1)), 1, p

    # pooling: the loop functionals keep their sign, so small biases add up
    def run(self, plan, ctx):
        self.vec = None
        super().run(plan, ctx)
        if 'members' not in plan:
            b, s, d, i = ctx.agg[-1]
            if self.vec is not None:
                ctx.agg[-1] = (b, s, self.vec, i)

    def pooled(self, agg):
        from ..core import plan_for
        by, out = {}, super().pooled([a for a in agg if not isinstance(a[2], list)])
        for b, _, v, i in agg:
            if isinstance(v, list):
                by.setdefault(b, []).append((v, i))
        for b in sorted(by):
            z = np.sum([v for v, _ in by[b]], 0) / math.sqrt(len(by[b]))
            if np.abs(z).max() > 4.5:
                out.append((Violation('law-pooled', b), {
                    'bucket': b, 'stream': 2, 'signed': True,
                    'members': [plan_for(self, self._seed, self._tier, i) for _, i in by[b]]}))
        return out

    def run_pooled(self, plan, ctx):
        if not plan.get('signed'):
            return super().run_pooled(plan, ctx)
        vs = [v for _, _, _, v in self.judge_members(plan, ctx)]
        z = np.sum(vs, 0) / math.sqrt(len(vs))
        ctx.ev('pooled', plan['bucket'], [round(float(x), 4) for x in z])
        if np.abs(z).max() > 5:
            raise Violation('law-pooled', '%s: loop equations pooled over %d configurations are violated, '
                            'z=%s' % (plan['bucket'], len(vs), z.round(1)), bucket=plan['bucket'])

    def shrinks(self, plan):
        if 'members' in plan:
            return
        yield from super().shrinks(plan)


CHECK = Check16()
