"""C02: exact k-DPP sampling, any order of sizes on one object."""
import numpy as np

from .. import machine
from ..core import Violation
from ..kernels import NONPROJ_KINDS, Kernel, kdpp_singles, law_L, law_dpp, mask_of
from ..law import MarginalLaw, SetLaw, swap_test
from ..stat import binom_p_vec, g_test
from .c01 import C01, gen_kernel

KINDS = NONPROJ_KINDS + ['Lproj', 'huge', 'tiny', 'nearone']


class KLaws:
    """Laws of the k-DPPs for the sizes cycled through in a run."""

    def __init__(self, kern, ks):
        self.kern = kern
        self.by = {}
        for k in set(ks):
            if kern.N <= 6:
                p = law_dpp(kern.K) if kern.projection else law_L(kern.L, k)
                self.by[k] = SetLaw(p, kern.N)
            elif kern.projection:
                self.by[k] = MarginalLaw(kern.K, kern.k_vals)
            else:
                self.by[k] = kdpp_singles(kern.l_vals, kern.U, k)[0] if k else np.zeros(kern.N)

    def judge(self, xs, support_only):
        groups = {}
        for k, x in xs:
            groups.setdefault(k, []).append(x)
        S = D = 0
        P = 1.0
        for k, v in sorted(groups.items()):
            law = self.by[k]
            if isinstance(law, SetLaw):
                s, d, p = law.judge(np.asarray(v))
            elif isinstance(law, MarginalLaw):
                s, d, p = law.judge(v)
            else:
                c = np.zeros(self.kern.N)
                for T in v:
                    c[T] += 1
                ps = binom_p_vec(c, len(v), np.clip(law, 0, 1))
                s, d, p = 0.0, 0, min(float(ps.min()) * len(ps), 2 * swap_test(self.kern.L, v, k))
            S, D, P = S + s, D + d, min(P, p)
        if support_only:
            return 0.0, 0, 1.0
        return S, D, min(1.0, P * len(groups))


class C02(C01):
    id = 'C02'
    title = 'law and size of exact k-DPP samples for any history of k'
    runs = {'quick': 800, 'thorough': 20000}
    n_draws = {'quick': 2000, 'thorough': 8000}
    rule = ('seeded (kernel, parametrisation, algorithm, cycle of sizes, call history, interleaved '
            'calls) configurations; every draw is checked for its size, each size judged against '
            'its own law; non-trivial = at least two sets possible')

    def gen_law(self, r, tier, i):
        p = super().gen_law(r, tier, i)
        if i % 100 == 50:
            p['spec'] = {'N': 80, 'kind': 'decay', 'seed': 1}
            p.update(rep='L_eig_dec', ks=[r.choice([10, 30]), 75], history=[], inter=None,
                     mode='GS', bias=False, n=4)
            return p
        if (r.random() < .5 or p['spec']['kind'] in ('Kone', 'K01')) and p['spec']['kind'][:4] != 'proj':
            p['spec']['kind'] = r.choice(KINDS)
        kern = Kernel(p['spec'])
        reps = [x for x in kern.reps() if kern.projection or x[0] == 'L'
                or kern.spec['kind'] not in ('huge', 'tiny')]
        p['rep'] = rep = r.choice(reps)
        p['mode'] = r.choice(machine.k_modes(kern, rep))
        kinds = ['kexact'] * 6 + ['badk', 'badk', 'exact', 'mcmc', 'kmcmc', 'K', 'L', 'flush', 'badmode']
        if kern.spec['kind'] == 'huge':
            kinds = ['kexact', 'badk', 'flush', 'L']
        p['history'] = [machine.gen_op(r, kern, rep, kinds) for _ in range(r.choice([0, 1, 2, 4, 6]))]
        p['inter'] = machine.gen_op(r, kern, rep, kinds) if r.random() < .4 else None
        if kern.projection:
            p['ks'] = [kern.rank]
        else:
            lo = 1 if kern.lproj else 0
            p['ks'] = [r.randint(lo if r.random() < .15 else 1, kern.rank)
                       for _ in range(r.choice([1, 1, 2, 3]))]
        return p

    def shrinks(self, plan):
        for q in super().shrinks(plan):
            if q.get('spec') != plan.get('spec'):
                if plan['spec']['kind'] == 'decay':
                    continue
                kern = Kernel(q['spec'])
                ks = [min(k, kern.rank) for k in q['ks']]
                q = dict(q, ks=[kern.rank] if kern.projection else ks)
            yield q
        for j in range(len(plan.get('ks', ()))):
            if len(plan['ks']) > 1:
                yield dict(plan, ks=plan['ks'][:j] + plan['ks'][j + 1:])

    @staticmethod
    def size(kern, plan):
        return None

    def exact_law(self, kern, plan):
        return None

    def target(self, dpp, plan, rng):
        k = plan['ks'][self.t % len(plan['ks'])]
        self.t += 1
        try:
            S = dpp.sample_exact_k_dpp(size=k, mode=plan['mode'], random_state=rng)
        except Exception as e:
            if plan['spec']['kind'] == 'decay':
                lo = kdpp_singles(self.kern.l_vals / self.kern.l_vals.max(), self.kern.U, k)[1]
                raise Violation('feasible-k-fails', 'k=%d of N=%d, rank %d, log10 e_k of the kernel scaled '
                                'to largest eigenvalue 1 is %.0f: %s: %s'
                                % (k, self.kern.N, self.kern.rank, lo / np.log(10), type(e).__name__, e),
                                regime='underflow' if lo < -700 else 'normal')
            raise
        self.last_k = k
        return S

    def prepare(self, plan, ctx, stream):
        self.t = 0
        self.kern = kern = Kernel(plan['spec'])
        laws = KLaws(kern, plan['ks']) if plan['spec']['kind'] != 'decay' else None
        draw0, _, bucket = super().prepare(plan, ctx, stream)
        small = kern.N <= 6

        def draw(t):
            x = draw0(t)
            k = self.last_k
            if len(x) != k:
                raise Violation('wrong-size', '%d items instead of %d: %r' % (len(x), k, x))
            return k, (mask_of(x) if small else x)

        def judge(xs):
            if plan.get('bias'):
                ctx.stats.add('fault:biased_randomness', len(xs))
            if laws is None:
                return 0.0, 0, 1.0
            return laws.judge(xs, plan.get('bias'))
        ctx.state('ks', plan['rep'], plan['mode'], tuple(plan['ks']), machine.flags_of(kern))
        if kern.rank > 1 and kern.N > 1:
            ctx.nontrivial = '%s-%s-%r-%d' % (bucket, plan['spec']['kind'], plan['ks'], plan['spec']['seed'])
        return draw, judge, bucket


CHECK = C02()
