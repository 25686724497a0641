"""C01: law of exact DPP samples, any parametrisation, algorithm and history."""
import numpy as np

from .. import machine
from ..core import Violation
from ..kernels import NONPROJ_KINDS, Kernel, law_dpp, make_dpp, mask_of
from ..law import LawCheck, MarginalLaw, SetLaw, check_set
from ..seams import BudgetRandomState, SimRandomState, seed_of

PROJ = ['projgen', 'projgen', 'projgraph', 'projdiag']


def gen_kernel(r, big=False):
    proj = r.random() < .35
    N = r.choice([7, 9, 12, 18, 25, 32]) if big else r.choice([1, 2, 3, 3, 4, 4, 5, 5, 6])
    kind = r.choice(PROJ) if proj else r.choice(NONPROJ_KINDS + ['Lproj', 'Kone', 'K01', 'nearone'])
    spec = {'N': N, 'kind': kind, 'seed': r.getrandbits(30)}
    if proj:
        spec['rank'] = r.randrange(1, N + 1)
    return spec


class C01(LawCheck):
    id = 'C01'
    title = 'law of exact DPP samples'
    runs = {'quick': 900, 'thorough': 20000}
    n_draws = {'quick': 2500, 'thorough': 10000}
    rule = ('seeded (kernel, parametrisation, algorithm, call history, interleaved calls) '
            'configurations, n draws each; one in ten runs uses a random source biased to rare '
            'outcomes and checks support only; non-trivial = at least two sets possible')
    state_measure = 'distinct (parametrisation, algorithm, cached-representation flags, sizes) tuples'
    stub = ['random source wrapper (draw budget, bias)']

    def gen_law(self, r, tier, i):
        big = i % 8 == 7
        spec = gen_kernel(r, big)
        kern = Kernel(spec)
        rep = r.choice(kern.reps())
        mode = r.choice(machine.exact_modes(kern, rep))
        hist = [machine.gen_op(r, kern, rep) for _ in range(r.choice([0, 0, 1, 2, 4, 6]))]
        inter = machine.gen_op(r, kern, rep) if r.random() < .3 else None
        p = {'spec': spec, 'rep': rep, 'mode': mode, 'history': hist, 'inter': inter,
             'bias': i % 10 == 9, 'seeds': r.choice(['inst', 'inst', 'inst', 'int'])}
        if big:
            p['n'] = self.n_draws[tier] // 2
        return p

    def target(self, dpp, plan, rng):
        return dpp.sample_exact(mode=plan['mode'], random_state=rng)

    def exact_law(self, kern, plan):
        if kern.N <= 6:
            return SetLaw(law_dpp(kern.K), kern.N)
        return MarginalLaw(kern.K, kern.k_vals)

    size = staticmethod(lambda kern, plan: kern.rank if kern.projection else None)

    def prepare(self, plan, ctx, stream):
        from dppy.finite_dpps import FiniteDPP
        kern = Kernel(plan['spec'])
        dpp, _ = make_dpp(FiniteDPP, kern, plan['rep'])
        where = '%s/%s' % (plan['rep'], plan['mode'])
        for j, op in enumerate(plan['history']):
            self.apply(dpp, kern, plan, op, ctx)
        k = self.size(kern, plan)
        seed = seed_of('law', plan['seed'], stream)
        if plan.get('bias'):
            import random
            rng = SimRandomState(seed)
            rng.bias = random.Random(seed)
            rng.bias_rate = .25
        else:
            rng = BudgetRandomState(seed)
        as_int = plan['seeds'] == 'int' and not plan.get('bias')
        law = self.exact_law(kern, plan)
        small = isinstance(law, SetLaw)
        N = kern.N

        def draw(t):
            if plan['inter'] and t % 97 == 13:
                self.apply(dpp, kern, plan, plan['inter'], ctx)
            if not as_int:
                if plan.get('bias'):
                    rng.reset(5000)
                else:
                    rng.left = 5000
            S = self.target(dpp, plan, (seed + 7919 * t) % 2 ** 32 if as_int else rng)
            if t % 64 == 0 and len(dpp.list_of_samples) > 512:
                dpp.flush_samples()
            check_set(S, N, k, where)
            return mask_of(S) if small and law is not None else S

        def judge(xs):
            if plan.get('bias'):
                if small:
                    law.judge(np.asarray(xs))      # support only
                ctx.stats.add('fault:biased_randomness', len(xs))
                return 0.0, 0, 1.0
            return law.judge(np.asarray(xs) if small else xs)

        ctx.state(plan['rep'], plan['mode'], machine.flags(dpp), N, kern.rank)
        ctx.ev(where, machine.flags(dpp))
        if law is not None and (not small or np.count_nonzero(law.p) > 1):
            ctx.nontrivial = '%s-%s-%d' % (where, plan['spec']['kind'], plan['spec']['seed'])
        return draw, judge, where + ('/history' if plan['history'] else '')

    def apply(self, dpp, kern, plan, op, ctx):
        exp = machine.expectation(kern, plan['rep'], op)
        ctx.stats.add('history_ops')
        try:
            machine.call(dpp, kern, op)
        except Exception as e:
            if exp == 'ok':
                raise Violation('history-op-failed', 'valid operation %r failed on %s: %s: %s'
                                % (op, plan['rep'], type(e).__name__, e))
            return
        if exp not in ('ok', 'any'):
            raise Violation('should-have-failed', 'operation %r on %s should raise %s'
                            % (op, plan['rep'], exp))


CHECK = C01()
