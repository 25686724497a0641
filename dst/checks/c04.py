"""C04: MCMC trajectories are legal chains of valid states."""
import random

import numpy as np

from .. import cvxopt_stub, machine
from ..core import Check, Violation
from ..kernels import NONPROJ_KINDS, Kernel, make_dpp
from ..law import check_set
from ..seams import SimRandomState, rs, seed_of

LEGAL = {'AD': {(0, 0), (0, 1), (1, 0)},
         'E': {(0, 0), (1, 1)},
         'AED': {(0, 0), (0, 1), (1, 0), (1, 1)}}


class C04(Check):
    id = 'C04'
    title = 'MCMC trajectories'
    runs = {'quick': 30000, 'thorough': 300000}
    rule = ('seeded (kernel, parametrisation, sampler, start state, number of states, random source '
            'bias) tuples, whole trajectory checked state by state; non-trivial = at least one move')
    state_measure = 'distinct (sampler, start-state class, size, number of moves made) tuples'
    real = ['dppy.finite_dpps', 'dppy.mcmc_sampling', 'numpy', 'scipy']
    stub = ['cvxopt (exact small-LP stand-in, zonotope only)', 'random source wrapper (budget, bias)']

    def gen(self, r, tier, i):
        zono = i % 11 == 10
        proj = zono or r.random() < .3
        N = r.choice([1, 2, 3, 4, 5, 6, 8, 12, 20, 33]) if not zono else r.choice([1, 2, 3, 4, 5])
        kind = r.choice(['projgen', 'projgraph', 'projdiag']) if proj else r.choice(NONPROJ_KINDS)
        if zono:
            kind = 'projgen'
        spec = {'N': N, 'kind': kind, 'seed': r.getrandbits(30)}
        if proj:
            spec['rank'] = r.randrange(1, (min(N, 3) if zono else N) + 1)
        kern = Kernel(spec)
        rep = r.choice(['A_zono', 'A_zono_np']) if zono else r.choice(kern.reps())
        mode = 'zonotope' if zono else 'E' if proj else r.choice(['AED', 'AD', 'E', 'kE'])
        if mode == 'E' and proj and r.random() < .3:
            mode = 'kE'
        return {'spec': spec, 'rep': rep, 'mode': mode,
                'start': r.choice(['empty', 'full', 'max', 'single', 'random', 'random', 'random',
                                   'default']),
                'nb': r.choice([1, 1, 2, 3, 10, 40, 120]), 'bias': r.choice([0, 0, .1, .5]),
                'boundary': r.choice([None, None, 'x_0', 'draw']) if zono else None,
                'nb_default': r.random() < .05, 'calls': r.choice([1, 1, 2, 3])}

    def shrinks(self, p):
        for k, v in (('bias', 0), ('calls', 1), ('nb_default', False)):
            if p[k] != v:
                yield dict(p, **{k: v})
        for nb in (1, 2, 3, 10):
            if nb < p['nb']:
                yield dict(p, nb=nb)

    @staticmethod
    def possible(kern, S):
        """P(S) > 0: the feature vectors of S are linearly independent."""
        if not len(S):
            return True
        lam = kern.k_vals if kern.projection else kern.l_vals
        m = lam > 0
        B = kern.U[np.ix_(S, m)] * np.sqrt(lam[m])
        if B.shape[1] < len(S):
            return False
        s = np.linalg.svd(B, compute_uv=False)
        return s[-1] > 1e-8 * max(s[0], 1e-300)

    def start(self, p, kern, g):
        N, mode = kern.N, p['mode']
        fixed = kern.rank if kern.projection else None
        if p['start'] == 'default':
            if mode in ('E', 'kE'):
                return None, fixed or 1 + g.randint(kern.rank)
            return None, None
        size = {'empty': 0, 'full': N, 'max': kern.rank, 'single': 1}.get(p['start'])
        if size is None:
            size = g.randint(0, kern.rank + 1)
        if fixed is not None:
            size = fixed
        size = min(size, kern.rank)
        for _ in range(200):
            S = [int(x) for x in g.permutation(N)[:size]]
            M = kern.K if kern.projection else kern.L
            if self.possible(kern, S) and (not S or np.linalg.det(M[np.ix_(S, S)]) > 1e-12):
                return S, size
        # greedy fallback
        return None, 'skip'

    def run(self, p, ctx):
        from dppy.finite_dpps import FiniteDPP
        cvxopt_stub.install()
        kern = Kernel(p['spec'])
        dpp, params = make_dpp(FiniteDPP, kern, p['rep'])
        g = rs('c04', p['seed'])
        n_rec = 0
        for c in range(p['calls']):
            self.one(p, ctx, dpp, kern, params, g, c)
            n_rec += 1

    def one(self, p, ctx, dpp, kern, params, g, c):
        mode, nb, N = p['mode'], p['nb'], kern.N
        rng = SimRandomState(seed_of('c04', p['seed'], c))
        if p['bias']:
            rng.bias = random.Random(p['seed'] + c)
            rng.bias_rate = p['bias']
            ctx.stats.add('fault:biased_randomness')
        kw = {'nb_iter': nb, 'random_state': rng}
        if p['nb_default']:
            kw.pop('nb_iter')
            nb = 10
        rng.reset(800 + 20 * nb)
        if mode == 'zonotope':
            s0, size = None, kern.rank
            cvxopt_stub.calls, cvxopt_stub.budget = 0, 60 + 4 * nb
            if p['boundary']:
                # a point on the boundary of the tile selected by the objective
                A = params['A_zono']
                kw['lin_obj'] = g.randn(N)
                y = (g.rand(N) < .5).astype(float) * (1 - 2. ** -53)
                if p['boundary'] == 'x_0':
                    kw['x_0'] = A.dot(y)
                else:
                    first = [True]
                    base_rand = rng.rand

                    def rand(*a):
                        if a == (N,) and first[0]:
                            first[0] = False
                            base_rand(*a)
                            return y
                        return base_rand(*a)
                    rng.rand = rand
                ctx.stats.add('fault:degenerate_point')
        else:
            s0, size = self.start(p, kern, g)
            if size == 'skip':
                ctx.stats.add('probe:no_start_found')
                return
            if s0 is not None:
                kw['s_init'] = list(s0)
            if mode == 'E' and size is not None:
                kw['size'] = size
        before = len(dpp.list_of_samples)
        try:
            if mode == 'kE':
                out = dpp.sample_mcmc_k_dpp(size, **kw)
            else:
                out = dpp.sample_mcmc(mode, **kw)
        except ValueError as e:
            if mode == 'zonotope' and p['boundary'] == 'x_0':
                ctx.stats.add('probe:boundary_x_0_rejected')
                if len(dpp.list_of_samples) != before:
                    raise Violation('recorded-failure', 'failed call recorded an entry')
                return
            if s0 is None and mode != 'zonotope' and 'nitial' in str(e):
                # documented: no start state found in 100 random trials
                ctx.stats.add('probe:initialisation_gave_up')
                if len(dpp.list_of_samples) != before:
                    raise Violation('recorded-failure', 'failed call recorded an entry')
                return
            raise
        except cvxopt_stub.LPBudget as e:
            raise Violation('no-termination', 'zonotope sampler solved %s linear programs for %d '
                            'states' % (e, nb))
        if len(dpp.list_of_samples) != before + 1:
            raise Violation('not-recorded', '%d entries instead of %d'
                            % (len(dpp.list_of_samples), before + 1))
        chain = dpp.list_of_samples[-1]
        if len(chain) != nb:
            raise Violation('chain-length', '%s: %d states instead of %d' % (mode, len(chain), nb))
        if s0 is not None and list(chain[0]) != s0:
            raise Violation('wrong-start', 'chain starts with %r, not %r' % (chain[0], s0))
        if list(out) != list(chain[-1]):
            raise Violation('wrong-return', 'returned %r, last state %r' % (out, chain[-1]))
        fixed_size = mode in ('E', 'kE', 'zonotope')
        k = len(s0) if s0 is not None and fixed_size else size if fixed_size else None
        legal = LEGAL.get({'kE': 'E'}.get(mode, mode))
        moves = 0
        prev = None
        for t, S in enumerate(chain):
            check_set(list(S), N, k, '%s state %d' % (mode, t))
            cur = frozenset(int(x) for x in S)
            if cur != prev:
                if not self.possible(kern, sorted(cur)):
                    raise Violation('impossible-state', '%s reached %r, which has probability 0'
                                    % (mode, sorted(cur)))
                if prev is not None:
                    moves += 1
                    if legal is not None and (len(prev - cur), len(cur - prev)) not in legal:
                        raise Violation('illegal-move', '%s moved from %r to %r'
                                        % (mode, sorted(prev), sorted(cur)))
            prev = cur
        ctx.ev(mode, nb, moves, [sorted(map(int, s)) for s in chain[-3:]])
        ctx.stats.add('states_checked', len(chain))
        ctx.stats.add('moves', moves)
        ctx.state(mode, p['rep'], p['start'], k, min(moves, 12))
        if moves:
            ctx.nontrivial = '%s-%s-%d' % (mode, p['start'], p['spec']['seed'])


CHECK = C04()
