"""C05: the MCMC time limit under a simulated clock."""
import numpy as np

from ..core import Check, Violation
from ..seams import SimClock, SimRandomState, SimBudgetExceeded, rs, seed_of
from ..kernels import Kernel, gen_spec
from .. import cvxopt_stub

MODES = ['AED', 'AD', 'E', 'E', 'kE', 'E_proj', 'zonotope']


class C05(Check):
    id = 'C05'
    title = 'MCMC time limit'
    level = 'exploration'
    runs = {'quick': 12000, 'thorough': 400000}
    rule = ('seeded (kernel, chain mode, iteration speed profile, stall, wall-clock jump, '
            'limit) tuples; non-trivial = the limit falls strictly inside the chain')
    real = ['dppy.finite_dpps', 'dppy.mcmc_sampling', 'numpy/scipy']
    stub = ['process clock (simulated)', 'random source wrapper (draw costs)',
            'cvxopt (stand-in on scipy.optimize.linprog, zonotope mode only)']
    state_measure = 'distinct (mode, stop cause, stop iteration bucket, stall/jump profile)'

    def gen(self, r, tier, i):
        mode = r.choice(MODES if i % 6 == 0 else MODES[:-1])
        n = r.choice([2, 3, 20, 60, 120]) if mode != 'zonotope' else r.choice([3, 12])
        prof = r.choice(['even', 'even', 'jitter', 'burst'])
        step = 10 ** r.uniform(-6, 1)
        lim = r.choice(['mid', 'mid', 'mid', 'tiny', 'huge', 'edge'])
        jumps = []
        for _ in range(r.choice([0, 0, 1, 2])):
            jumps.append([r.random(), r.choice([-1, 1]) * 10 ** r.uniform(-2, 7)])
        return {'spec': gen_spec(r, N=r.choice([3, 4, 5, 6]),
                                 kinds=['projgen'] if mode in ('E_proj', 'zonotope')
                                 else ['generic', 'block', 'diag', 'repeated']),
                'mode': mode, 'nb_iter': n, 'profile': prof, 'step': step,
                'limit': lim, 'frac': r.random(), 'jumps': jumps,
                'stall': r.choice([None, None, r.random()]),
                'first_stall': r.random() < .15,
                's_init': r.random() < .8, 'wall0': r.choice([1.7e9, 0.0, -5e8, 4e12])}

    def shrinks(self, p):
        if p['jumps']:
            yield dict(p, jumps=[])
        if p['stall'] is not None:
            yield dict(p, stall=None)
        if p['first_stall']:
            yield dict(p, first_stall=False)
        if p['profile'] != 'even':
            yield dict(p, profile='even')
        if p['step'] != 1.0:
            yield dict(p, step=1.0)
        if p['wall0'] != 1.7e9:
            yield dict(p, wall0=1.7e9)
        if p['nb_iter'] > 20:
            yield dict(p, nb_iter=20)
        if p['spec']['N'] > 3:
            yield dict(p, spec=dict(p['spec'], N=3))
        if not p['s_init']:
            yield dict(p, s_init=True)

    # one MCMC call under the simulated clock
    def call(self, p, kern, T, jump_times, stall_at, ctx):
        from dppy.finite_dpps import FiniteDPP
        mode = p['mode']
        kt, proj, par = kern.args('A_zono' if mode == 'zonotope' else
                                  'K' if mode == 'E_proj' else 'L')
        dpp = FiniteDPP(kt, projection=proj, **par)
        clock = SimClock(wall0=p['wall0'], read_cost=p['step'] * 1e-4)
        costs = rs('cost', p['seed'])
        rng = SimRandomState(seed_of('draws', p['seed']))
        rng.budget = 4000 + 60 * p['nb_iter']
        times = []
        state = {'n': 0}

        def on_draw(name):
            k = state['n']
            state['n'] += 1
            c = p['step']
            if p['profile'] == 'jitter':
                c *= costs.gamma(0.5, 2.0) + 1e-3
            elif p['profile'] == 'burst':
                c *= 40.0 if costs.rand() < .03 else 0.05
            if stall_at is not None and k == stall_at:
                c += p['step'] * 200
                ctx.stats.add('fault:stall')
            clock.advance(c)
            times.append(clock.mono)
        rng.on_draw = on_draw
        kw = {'nb_iter': p['nb_iter'], 'random_state': rng}
        if T is not None:
            kw['T_max'] = T
        size = None
        if mode in ('E', 'kE'):
            size = 1 + p['seed'] % (kern.N - 1)
            kw['size'] = size
        elif mode == 'E_proj':
            size = kern.rank
            kw['size'] = size
        if p['s_init'] and mode != 'zonotope':
            kw['s_init'] = self.start(kern, size, p['seed'])
        clock.pending_jumps = sorted(jump_times)
        t0 = clock.mono
        with clock:
            if mode == 'kE':
                kw.pop('size')
                last = dpp.sample_mcmc_k_dpp(size, **kw)
            else:
                last = dpp.sample_mcmc({'E_proj': 'E'}.get(mode, mode), **kw)
        ctx.sim_time += clock.mono - t0
        ctx.stats.add('fault:wall_jump', clock.jumps)
        ctx.stats.add('clock_reads', clock.reads)
        chain = [list(map(int, s)) for s in dpp.list_of_samples[-1]]
        return {'chain': chain, 'last': list(map(int, last)), 't0': t0,
                't1': clock.mono, 'times': times, 'n_rec': len(dpp.list_of_samples),
                'reads': clock.reads}

    @staticmethod
    def start(kern, size, seed):
        M = kern.L if kern.L is not None else kern.K
        g = rs('s_init', seed)
        for _ in range(400):
            s = g.permutation(kern.N)[:size if size else 1 + g.randint(kern.N)]
            if np.linalg.det(M[np.ix_(s, s)]) > 1e-4:
                return [int(x) for x in s]
        # greedy fallback: best subset
        import itertools
        size = size or 1
        s = max(itertools.combinations(range(kern.N), size),
                key=lambda s: np.linalg.det(M[np.ix_(s, s)]))
        return list(s)

    def run(self, p, ctx):
        spec = dict(p['spec'])
        if spec['kind'].startswith('proj'):
            spec['rank'] = 1 + spec['seed'] % (spec['N'] - 1)
        kern = Kernel(spec)
        if p['mode'] == 'zonotope':
            cvxopt_stub.install()
        n = p['nb_iter']
        # reference: no limit
        ref = self.call(p, kern, None, [], None, ctx)
        if len(ref['chain']) != n:
            raise Violation('no-limit-length', 'without a limit: %d states instead of %d'
                            % (len(ref['chain']), n))
        nd = len(ref['times'])
        stall_at = None
        if p['stall'] is not None:
            stall_at = int(p['stall'] * nd)
        if p['first_stall']:
            stall_at = 0
        # timing profile without a limit (jumps cannot change draws)
        prof = self.call(p, kern, None, [], stall_at, ctx)
        T0, span = prof['t0'], prof['t1'] - prof['t0']
        T = {'mid': (0.05 + 0.9 * p['frac']) * span, 'edge': p['frac'] * 3 * p['step'] + 1e-9,
             'tiny': 1e-9, 'huge': span * (3 + 10 * p['frac'])}[p['limit']]
        T = max(T, 1e-12)
        jumps = [(T0 + f * span, d) for f, d in p['jumps']]
        try:
            out = self.call(p, kern, T, jumps, stall_at, ctx)
        except SimBudgetExceeded:
            raise Violation('never-stops', 'chain kept drawing after the limit')
        L = len(out['chain'])
        el = out['t1'] - out['t0']
        ctx.ev(p['mode'], L, n, round(el / T, 6), out['last'])
        ctx.stats.add('evaluations')
        cause = 'limit' if L < n else 'done'
        ctx.stats.add('probe:stopped_by_' + cause)
        ctx.state(p['mode'], cause, min(L, 9), L * 10 // n, bool(jumps), stall_at is not None)
        if 1 < L < n:
            ctx.nontrivial = '%s-%d-%d-%s' % (p['mode'], L, n, p['seed'])
        if L < 1:
            raise Violation('empty', 'no state recorded')
        if out['chain'] != ref['chain'][:L]:
            raise Violation('not-a-prefix', 'mode %s: limited chain %r is not a prefix of the '
                            'unlimited chain %r' % (p['mode'], out['chain'][:8], ref['chain'][:8]),
                            mode=p['mode'])
        if out['last'] != out['chain'][-1] or out['n_rec'] != 1:
            raise Violation('returned-not-last', 'returned %r, recorded last %r'
                            % (out['last'], out['chain'][-1]))
        tol = 1e-6 * T + 20 * p['step'] * 1e-4
        if L < n and el < T - tol:
            raise Violation('stopped-early', 'mode %s: stopped after %.6g s < T_max=%.6g with %d of '
                            '%d states, jumps=%r' % (p['mode'], el, T, L, n, jumps), mode=p['mode'])
        # draws begun after the limit had passed, counted from the chain start
        # (initialisation draws precede it and are bounded by the total).
        if p['s_init'] and p['mode'] != 'zonotope':
            late = [t for t in out['times'] if t - out['t0'] > T + tol]
            # one iteration consumes at most a handful of draws; the draw that
            # crossed the limit belongs to the iteration in progress
            per_it = max(6, -(-nd // max(1, n - 1)) + 5)
            if len(late) > 2 * per_it:
                raise Violation('overrun', 'mode %s: %d further draws after the limit T_max=%.6g '
                                'had passed (elapsed %.6g, %d states of %d, jumps=%r)'
                                % (p['mode'], len(late), T, el, L, n, jumps), mode=p['mode'])


CHECK = C05()
