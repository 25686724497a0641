"""C18: K and L computed from any representation after any history."""
import numpy as np

from .. import machine
from ..core import Check, Violation
from ..kernels import NONPROJ_KINDS, Kernel, make_dpp

KINDS = NONPROJ_KINDS + ['Lproj', 'huge', 'tiny', 'null', 'rounding', 'Kone', 'Kone', 'K01', 'nearone',
                         'projgen', 'projgen', 'projgraph', 'projdiag', 'projzero']


class C18(Check):
    id = 'C18'
    title = 'kernel conversions'
    runs = {'quick': 60000, 'thorough': 400000}
    rule = ('seeded (kernel, parametrisation, call history) tuples; both kernels requested, in both '
            'orders, and compared with the reference; non-trivial = at least one kernel computed')
    state_measure = 'distinct (parametrisation, cached-representation flags, history shape) tuples'

    def gen(self, r, tier, i):
        spec = {'N': r.choice([1, 2, 3, 4, 5, 6, 9, 15, 26]), 'kind': r.choice(KINDS),
                'seed': r.getrandbits(30)}
        kern = Kernel(spec)
        rep = r.choice(kern.reps())
        if spec['kind'] in ('huge',) and rep[0] == 'K':
            rep = 'L'
        kinds = ['exact', 'exact', 'kexact', 'mcmc', 'kmcmc', 'flush', 'str', 'badmode', 'badk']
        if spec['kind'] in ('Kone', 'K01', 'null', 'rounding', 'projzero', 'huge', 'tiny', 'nearone'):
            kinds = ['exact', 'flush', 'str', 'badmode']
        hist = [machine.gen_op(r, kern, rep, kinds) for _ in range(r.choice([0, 0, 1, 2, 4]))]
        return {'spec': spec, 'rep': rep, 'history': hist,
                'req': r.choice([['K'], ['L'], ['K', 'L'], ['L', 'K'], ['K', 'K', 'L'], ['L', 'L', 'K']])}

    def shrinks(self, p):
        yield from super().shrinks(p)
        for N in range(1, p['spec']['N']):
            yield dict(p, spec=dict(p['spec'], N=N))
        for j in range(len(p['req'])):
            if len(p['req']) > 1:
                yield dict(p, req=p['req'][:j] + p['req'][j + 1:])

    def run(self, p, ctx):
        from dppy.finite_dpps import FiniteDPP
        kern = Kernel(p['spec'])
        dpp, params = make_dpp(FiniteDPP, kern, p['rep'])
        for op in p['history']:
            try:
                machine.call(dpp, kern, op)
            except Exception as e:
                if machine.expectation(kern, p['rep'], op) == 'ok':
                    raise Violation('history-op-failed', '%r: %s: %s' % (op, type(e).__name__, e))
        for what in p['req']:
            before = machine.flags(dpp)
            no_L = what == 'L' and (kern.projection or p['spec']['kind'] in ('Kone', 'K01'))
            try:
                machine.call(dpp, kern, [what])
            except Exception as e:
                if not no_L:
                    raise Violation('conversion-failed', 'compute_%s on %s (%s) failed: %s: %s'
                                    % (what, p['rep'], p['spec']['kind'], type(e).__name__, e))
                if not isinstance(e, (ValueError, FloatingPointError)):
                    raise Violation('wrong-error', 'compute_L raised %r' % e)
                ctx.stats.add('probe:L_refused')
                self.usable(dpp, kern, p)
                continue
            if no_L:
                raise Violation('no-error', 'compute_L returned for a kernel with eigenvalue one (%s)' % p['rep'])
            M = getattr(dpp, what)
            ref = kern.K if what == 'K' else kern.L
            # conditioning: rounding errors of size eps*|L| move small eigenvalues
            # of L, hence K, by that much in absolute terms
            lmax = 1.0 if kern.l_vals is None else np.max(kern.l_vals, where=np.isfinite(kern.l_vals), initial=1.0)
            self.compare(M, ref, what, p, 1e-6 + 1e3 * kern.N * 2.2e-16 * lmax)
            ctx.stats.add('kernels_compared')
            ctx.state(p['rep'], what, before, len(p['history']))
            ctx.ev(what, before, machine.flags(dpp))
            ctx.nontrivial = '%s-%s-%s-%d' % (p['rep'], what, p['spec']['kind'], p['spec']['seed'])
        self.usable(dpp, kern, p)

    def compare(self, M, ref, what, p, rtol):
        if not isinstance(M, np.ndarray) or M.shape != ref.shape:
            raise Violation('wrong-kernel', 'compute_%s left %r' % (what, type(M)))
        scale = max(np.abs(ref).max(), 1e-300)
        err = np.abs(M - ref).max() / scale
        if not err <= rtol:
            raise Violation('wrong-kernel', '%s from %s (%s) is off by %.3g relative'
                            % (what, p['rep'], p['spec']['kind'], err))
        if not np.abs(M - M.T).max() <= 1e-9 * scale:
            raise Violation('asymmetric', 'computed %s is not symmetric' % what)

    @staticmethod
    def usable(dpp, kern, p):
        n = len(dpp.list_of_samples)
        mode = machine.exact_modes(kern, p['rep'])[0]
        S = dpp.sample_exact(mode=mode, random_state=p['spec']['seed'] % 1000)
        ok = isinstance(S, list) and len(set(S)) == len(S) and all(0 <= x < kern.N for x in S)
        if kern.projection and ok:
            ok = len(S) == kern.rank
        if not ok or len(dpp.list_of_samples) != n + 1:
            raise Violation('not-usable', 'after conversions sample_exact returned %r' % (S,))


CHECK = C18()
