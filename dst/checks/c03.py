"""C03: MCMC moves leave the target invariant; chains converge to it."""
import itertools

import numpy as np

from .. import cvxopt_stub, machine
from ..core import Violation
from ..kernels import NONPROJ_KINDS, Kernel, kdpp_singles, law_L, law_dpp, make_dpp, mask_of
from ..law import LawCheck, MarginalLaw, SetLaw, check_set, k_law_kernel, reference_sets, swap_test
from ..seams import BudgetRandomState, rs, seed_of
from ..stat import binom_p_vec

BIG_KINDS = ['generic', 'lowrank', 'small', 'dup', 'block', 'diag'] * 3 + NONPROJ_KINDS


def ref_chain(mode, p, N):
    """Transition matrix of the documented chain on the support of p (masks)."""
    sup = np.flatnonzero(p > 0)
    pos = {int(m): i for i, m in enumerate(sup)}
    n = len(sup)
    T = np.zeros((n, n))
    for m in sup:
        m = int(m)
        i = pos[m]
        S = [a for a in range(N) if m >> a & 1]
        C = [a for a in range(N) if not m >> a & 1]
        ns = len(S)

        def move(m2, q, acc):
            if q <= 0 or m2 not in pos:
                return
            T[i, pos[m2]] += q * min(1.0, acc)
        if mode == 'AD':
            for a in range(N):
                m2 = m ^ (1 << a)
                move(m2, .5 / N, p[m2] / p[m])
        elif mode == 'E':
            for a in S:
                for b in C:
                    m2 = m ^ (1 << a) ^ (1 << b)
                    move(m2, .5 / (ns * len(C)), p[m2] / p[m])
        else:
            r = ns / N
            for b in C:
                m2 = m | (1 << b)
                move(m2, .5 * (1 - r) ** 2 / len(C), p[m2] / p[m] * (ns + 1) / (N - ns))
            if S and C:
                for a in S:
                    for b in C:
                        m2 = m ^ (1 << a) ^ (1 << b)
                        move(m2, .5 * (1 - r) * r / (ns * len(C)), p[m2] / p[m])
            for a in S:
                m2 = m ^ (1 << a)
                move(m2, .5 * r ** 2 / ns, p[m2] / p[m] * (N - ns + 1) / ns)
        T[i, i] = 1.0 - T[i].sum() + T[i, i]
    return sup, T


def mixing_steps(mode, p, N, m0, tol=2e-4, cap=400):
    sup, T = ref_chain(mode, p, N)
    if not (T >= -1e-12).all():
        return None
    x = np.zeros(len(sup))
    x[np.searchsorted(sup, m0)] = 1.0
    for t in range(1, cap):
        x = x.dot(T)
        if np.abs(x - p[sup]).sum() < tol:
            return t
    return None


class C03(LawCheck):
    id = 'C03'
    title = 'MCMC chains: invariance and convergence'
    runs = {'quick': 700, 'thorough': 16000}
    n_draws = {'quick': 3000, 'thorough': 12000}
    rule = ('seeded (kernel, parametrisation, sampler, size, iterations, history) configurations; '
            'start states drawn by the harness from the exact law, end states judged against it; a '
            'quarter start from a fixed state and run past the mixing time of the documented chain; '
            'non-trivial = at least two states possible')
    state_measure = 'distinct (sampler, parametrisation, size, iterations, variant) tuples'
    real = ['dppy.finite_dpps', 'dppy.mcmc_sampling', 'numpy', 'scipy']
    stub = ['cvxopt (exact small-LP stand-in, zonotope only)', 'random source wrapper (draw budget)']

    def gen_law(self, r, tier, i):
        zono = i % 9 == 8
        proj = zono or r.random() < .3
        big = not zono and i % 4 == 3
        N = r.choice([2, 3, 4]) if zono else r.choice([8, 11, 16, 24]) if big else r.choice([1, 2, 2, 3, 3, 4, 4, 5])
        if not zono and i % 16 == 4:
            N = r.choice([7, 8, 8])          # long chains from a fixed state: all positions, all items
        kind = 'projgen' if zono else (r.choice(['projgen', 'projgen', 'projgraph', 'projdiag'])
                                       if proj else r.choice(BIG_KINDS if big else NONPROJ_KINDS))
        spec = {'N': N, 'kind': kind, 'seed': r.getrandbits(30)}
        if proj:
            spec['rank'] = r.randrange(1, (min(N, 2) if zono else N) + 1)
        kern = Kernel(spec)
        rep = r.choice(['A_zono', 'A_zono_np']) if zono else r.choice(kern.reps())
        mode = 'zonotope' if zono else 'E' if proj else r.choice(['AED', 'AED', 'AED', 'AD', 'E', 'kE'])
        size = None
        if mode in ('E', 'kE'):
            size = kern.rank if proj else r.randint(1, kern.rank)
            if N > 5 and not proj and not big and kern.rank > 5:
                size = r.randint(5, min(kern.rank, N - 1))
            if mode == 'E' and proj and r.random() < .3:
                mode = 'kE'
        kinds = ['exact', 'K', 'L', 'flush', 'kexact', 'kmcmc', 'mcmc', 'badk', 'badmode']
        hist = [machine.gen_op(r, kern, rep, kinds) for _ in range(r.choice([0, 0, 1, 3]))]
        p = {'spec': spec, 'rep': rep, 'mode': mode, 'size': size, 'history': hist,
             'nb': r.choice([2, 2, 3, 5, 9, 17]), 'fixed': not zono and not big and i % 4 == 0}
        if zono:
            p['n'] = self.n_draws[tier] // 6
            p['nb'] = r.choice([2, 3, 5])
        elif big:
            p['nb'] = r.choice([5, 40, 40, 100])
            p['n'] = self.n_draws[tier] // 8
        elif p['fixed']:
            p['n'] = self.n_draws[tier] // 5
        elif p['nb'] > 8:
            p['n'] = self.n_draws[tier] // 2
        return p

    def shrinks(self, plan):
        for q in super().shrinks(plan):
            if q.get('spec') == plan.get('spec'):
                yield q
        for nb in (2, 3, 5):
            if nb < plan.get('nb', 0):
                yield dict(plan, nb=nb)

    def prepare(self, plan, ctx, stream):
        from dppy.finite_dpps import FiniteDPP
        cvxopt_stub.install()
        kern = Kernel(plan['spec'])
        N, mode, size = kern.N, plan['mode'], plan['size']
        dpp, params = make_dpp(FiniteDPP, kern, plan['rep'])
        for op in plan['history']:
            try:
                machine.call(dpp, kern, op)
            except Exception as e:
                if machine.expectation(kern, plan['rep'], op) == 'ok':
                    raise Violation('history-op-failed', '%r: %s: %s' % (op, type(e).__name__, e))
        rng = BudgetRandomState(seed_of('mcmc', plan['seed'], stream))
        g = rs('start', plan['seed'], stream)
        if N > 5 and not plan['fixed']:
            return self.prepare_big(plan, ctx, kern, dpp, rng, g)
        if kern.projection:
            p = law_dpp(kern.K)
        else:
            p = law_L(kern.L, size)
        law = SetLaw(p, N)
        sets = {int(m): [a for a in range(N) if m >> a & 1] for m in np.flatnonzero(p > 0)}
        nb = plan['nb']
        cdf = np.cumsum(p)
        where = '%s/%s%s' % (plan['rep'], mode, '/fixed' if plan['fixed'] else '')
        m0 = None
        if plan['fixed']:
            ok = [m for m in sets if p[m] > 1e-6]
            m0 = ok[g.randint(len(ok))]
            t = mixing_steps({'kE': 'E'}.get(mode, mode), p, N, m0)
            if t is None:
                ctx.stats.add('probe:slow_mixing_skipped')
                nb = plan['nb']
                m0 = None
            else:
                nb = t + 1
        extra = {}
        if mode == 'zonotope':
            A = params['A_zono']
            c = g.randn(N)
            tiles = {}
            for m, S in sets.items():
                AB = A[:, S]
                z = np.linalg.solve(AB.T, c[S])
                red = c - A.T.dot(z)
                y = np.where(red > 0, 0.0, 1.0)
                tiles[m] = (S, y)
        if size is not None and mode == 'E':
            extra['size'] = size

        order = []

        def draw(t):
            m = m0 if m0 is not None else int(np.searchsorted(cdf, g.rand() * cdf[-1], side='right'))
            while m not in sets:
                m = int(np.searchsorted(cdf, g.rand() * cdf[-1], side='right'))
            rng.left = 300 + 40 * nb
            if mode == 'zonotope':
                S, y = tiles[m]
                y = y.copy()
                y[S] = g.uniform(1e-4, 1 - 1e-4, size=len(S))
                cvxopt_stub.calls, cvxopt_stub.budget = 0, 50 + 4 * nb
                out = dpp.sample_mcmc('zonotope', lin_obj=c, x_0=A.dot(y), nb_iter=nb,
                                      random_state=rng)
            else:
                s0 = list(sets[m])
                if m0 is None:
                    g.shuffle(s0)
                elif t:
                    s0 = order[:]
                else:
                    g.shuffle(s0)
                    order[:] = s0                # one fixed start state, in one fixed order
                if mode == 'kE':
                    out = dpp.sample_mcmc_k_dpp(size, s_init=s0, nb_iter=nb, random_state=rng)
                else:
                    out = dpp.sample_mcmc(mode, s_init=s0, nb_iter=nb, random_state=rng, **extra)
            if len(dpp.list_of_samples) > 64:
                dpp.flush_samples()
            check_set(out, N, size, where)
            return mask_of(out)

        ctx.state(plan['rep'], mode, size, N, nb if m0 is None else 'mixed')
        ctx.ev(where, nb, len(sets))
        if len(sets) > 1:
            ctx.nontrivial = '%s-%d-%d' % (where, nb, plan['spec']['seed'])
        return draw, lambda xs: law.judge(np.asarray(xs)), where

    def prepare_big(self, plan, ctx, kern, dpp, rng, g):
        """Large ground sets: start states from the harness's own sampler, marginals and exact
        conditional probabilities of the end states."""
        N, mode, size, nb = kern.N, plan['mode'], plan['size'], plan['nb']
        where = '%s/%s/big' % (plan['rep'], mode)
        if kern.projection:
            K, k = kern.K, kern.rank
        elif size is None:
            K, k = kern.K, None
        else:
            K, k = k_law_kernel(kern.l_vals, kern.U, size), size
        starts = iter(())

        def draw(t):
            nonlocal starts
            s0 = next(starts, None)
            if s0 is None:
                starts = iter(reference_sets(K, 200, g, k))
                s0 = next(starts)
            s0 = list(s0)
            g.shuffle(s0)
            rng.left = 300 + 40 * nb
            if mode == 'kE':
                out = dpp.sample_mcmc_k_dpp(size, s_init=s0, nb_iter=nb, random_state=rng)
            else:
                extra = {'size': size} if mode == 'E' and size is not None else {}
                out = dpp.sample_mcmc(mode, s_init=s0, nb_iter=nb, random_state=rng, **extra)
            if len(dpp.list_of_samples) > 64:
                dpp.flush_samples()
            check_set(out, N, size, where)
            return [int(x) for x in out]

        def judge(xs):
            if kern.projection or size is None:
                return MarginalLaw(kern.K, kern.k_vals).judge(xs)
            c = np.zeros(N)
            for S in xs:
                c[S] += 1
            p1 = np.clip(kdpp_singles(kern.l_vals, kern.U, size)[0], 0, 1)
            ps = binom_p_vec(c, len(xs), p1)
            return 0.0, 0, min(1.0, 2 * float(ps.min()) * N, 2 * swap_test(kern.L, xs, size))
        ctx.state(plan['rep'], mode, size, N, nb)
        ctx.ev(where, nb, N)
        ctx.nontrivial = '%s-%d-%d' % (where, nb, plan['spec']['seed'])
        return draw, judge, where


CHECK = C03()
