"""C19: invalid kernels are rejected every time, valid ones never."""
import numpy as np

from .. import machine
from ..core import Check, Violation
from ..kernels import NONPROJ_KINDS, EvalL, Kernel, haar, make_dpp
from ..seams import rs

INVALID = ['asym_K', 'asym_L', 'asym_eval', 'K_above', 'K_below', 'Kd_above', 'Kd_below',
           'L_neg', 'Ld_neg', 'eval_neg', 'K_nonorth', 'L_nonorth', 'nonproj_K', 'nonproj_K2',
           'nonproj_Kd', 'nonproj_L', 'nonproj_Ld', 'zono_rank', 'zono_tall', 'nonsquare_K', 'nonsquare_L',
           'proj_scaled', 'no_params', 'bad_type', 'bad_projection',
           # defects that cancel in sums, norms, absolute values, traces or along the diagonal
           'asym_balanced', 'asym_sign', 'asym_oblique', 'asym_obliqueL', 'asym_scale', 'K_trace', 'Kd_trace',
           'L_trace', 'Ld_trace', 'dup_col', 'dup_col_L', 'row_orth', 'nonproj_cancel', 'zono_dup',
           'nan_K', 'nan_Kd', 'nan_vec', 'nan_Ld', 'nan_L', 'Kd_proj_count']
VALID = NONPROJ_KINDS + ['huge', 'tiny', 'null', 'rounding', 'Kone', 'nearone', 'K01', 'Lproj', 'projgen', 'projgraph',
                         'projdiag', 'projzero']


class FnKernel:
    """A matrix disguised as a likelihood function on row indices."""

    def __init__(self, M):
        self.M = M

    def __call__(self, X, Y=None):
        i = np.atleast_2d(X)[:, 0].astype(int)
        j = i if Y is None else np.atleast_2d(Y)[:, 0].astype(int)
        return self.M[np.ix_(i, j)].copy()


def build_invalid(kind, N, seed, amp):
    """(kernel_type, projection, params): amp > 0 controls how invalid."""
    g = rs('invalid', kind, N, seed)
    U = haar(N, g)
    kv = g.uniform(.1, .9, size=N)
    lv = g.gamma(1., 2., size=N) + .1
    j = g.randint(N)

    def mat(v):
        M = (U * v).dot(U.T)
        return .5 * (M + M.T)
    if kind == 'asym_K':
        M = mat(kv)
        a, b = g.permutation(N)[:2]
        M[a, b] += .2 + amp
        return 'correlation', False, {'K': M}
    if kind in ('asym_L', 'asym_eval'):
        M = mat(lv)
        a, b = g.permutation(N)[:2]
        M[a, b] += .2 + amp
        if kind == 'asym_L':
            return 'likelihood', False, {'L': M}
        return 'likelihood', False, {'L_eval_X_data': (FnKernel(M), np.arange(N)[:, None].astype(float))}
    if kind in ('K_above', 'Kd_above'):
        kv[j] = 1 + amp
    if kind in ('K_below', 'Kd_below'):
        kv[j] = -amp
    if kind in ('K_above', 'K_below'):
        return 'correlation', False, {'K': mat(kv)}
    if kind in ('Kd_above', 'Kd_below'):
        return 'correlation', False, {'K_eig_dec': (kv, U)}
    if kind in ('L_neg', 'Ld_neg', 'eval_neg'):
        lv[j] = -amp
        if kind == 'L_neg':
            return 'likelihood', False, {'L': mat(lv)}
        if kind == 'Ld_neg':
            return 'likelihood', False, {'L_eig_dec': (lv, U)}
        return 'likelihood', False, {'L_eval_X_data': (FnKernel(mat(lv)), np.arange(N)[:, None].astype(float))}
    if kind == 'K_nonorth':
        V = U.copy()
        V[:, 0] *= 1 + amp
        return 'correlation', False, {'K_eig_dec': (kv, V)}
    if kind == 'L_nonorth':
        V = U.copy()
        V[:, min(1, N - 1)] += amp * (U[:, 0] if N > 1 else 1.0)
        return 'likelihood', False, {'L_eig_dec': (lv, V)}
    r = 1 + g.randint(N)
    ones = np.r_[np.ones(r), np.zeros(N - r)]
    if kind == 'nonproj_K':
        v = ones.copy()
        v[j] = .5
        return 'correlation', True, {'K': mat(v)}
    if kind == 'nonproj_K2':      # diagonal of K^2 equals that of K
        a = .5 + g.uniform(.1, .45)
        b = np.sqrt(a - a * a)
        M = np.zeros((N, N))
        M[:2, :2] = [[a, b], [b, a]]
        return 'correlation', True, {'K': M}
    if kind == 'nonproj_L':
        v = ones.copy()
        v[j] = .5
        return 'likelihood', True, {'L': mat(v)}
    if kind == 'nonproj_Kd':
        v = ones.copy()
        v[j] = g.choice([.5, 1 + amp, -amp])
        return 'correlation', True, {'K_eig_dec': (v, U)}
    if kind == 'nonproj_Ld':
        v = ones.copy()
        v[j] = g.choice([.5, 1 + amp])
        return 'likelihood', True, {'L_eig_dec': (v, U)}
    if kind == 'proj_scaled':
        return 'correlation', True, {'K': mat(ones) * (1 + .3 + amp)}
    if kind == 'zono_rank':
        d = 2 + g.randint(max(1, N - 1))
        d = min(d, N)
        A = g.randn(d, N)
        A[-1] = A[0] * 2.0
        return 'correlation', True, {'A_zono': A}
    if kind == 'zono_tall':
        return 'correlation', True, {'A_zono': g.randn(N + 1, N)}
    if kind == 'nonsquare_K':
        return 'correlation', False, {'K': g.rand(N, N + 1)}
    if kind == 'nonsquare_L':
        return 'likelihood', False, {'L': g.rand(N, N + 1)}
    if kind == 'asym_balanced':       # normal matrix: rows and columns have equal sums and norms
        c = g.uniform(.0, .2 / N, size=N)
        c[0] = .5
        c[1] += .2 + min(amp, .2)
        if N == 2:                    # circulant matrices of size 2 are symmetric: use a rotation
            t = .3 + min(amp, .5)
            return 'correlation', False, {'K': .6 * np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])}
        M = np.array([np.roll(c, i) for i in range(N)])
        return ('correlation', False, {'K': M}) if g.rand() < .5 else ('likelihood', False, {'L': M})
    if kind == 'asym_sign':           # |M| is symmetric
        M = mat(kv)
        a, b = g.permutation(N)[:2]
        M[a, b] = -.1 - amp
        M[b, a] = .1 + amp
        return ('correlation', False, {'K': M}) if g.rand() < .5 else ('likelihood', False, {'L': M})
    if kind == 'asym_scale':          # similar to a symmetric matrix: same spectrum, same minors
        s = np.ones(N)
        s[j] = 1.5 + amp
        M = (mat(kv) + .02) * s[:, None] / s
        return ('correlation', False, {'K': M}) if g.rand() < .5 else ('likelihood', False, {'L': M})
    if kind in ('asym_oblique', 'asym_obliqueL'):      # M^2 = M but M^T != M
        r = 1 + g.randint(N - 1)
        P = mat(np.r_[np.ones(r), np.zeros(N - r)])
        X = g.randn(N, N) * (.5 + amp)
        M = P + P.dot(X).dot(np.eye(N) - P)
        if kind == 'asym_oblique':
            return 'correlation', True, {'K': M}
        return 'likelihood', True, {'L': M}
    if kind in ('K_trace', 'Kd_trace'):      # sum and mean of the spectrum are unsuspicious
        a, b = g.permutation(N)[:2]
        kv[a], kv[b] = 1 + amp, -amp
        return 'correlation', False, ({'K': mat(kv)} if kind == 'K_trace' else {'K_eig_dec': (kv, U)})
    if kind in ('L_trace', 'Ld_trace'):
        a, b = g.permutation(N)[:2]
        lv[a], lv[b] = 2 + 2 * amp, -amp
        return 'likelihood', False, ({'L': mat(lv)} if kind == 'L_trace' else {'L_eig_dec': (lv, U)})
    if kind in ('dup_col', 'dup_col_L'):     # unit columns, two of them equal
        V = U.copy()
        a, b = g.permutation(N)[:2]
        V[:, a] = V[:, b]
        if kind == 'dup_col':
            return 'correlation', bool(g.rand() < .3), {'K_eig_dec': (np.ones(N) if g.rand() < .5 else np.round(kv), V)}
        return 'likelihood', False, {'L_eig_dec': (lv, V)}
    if kind == 'row_orth':            # columns orthogonal but of lengths balanced around one
        V = U.copy()
        a, b = g.permutation(N)[:2]
        t = .3 + min(amp, .3)
        V[:, a] *= np.sqrt(1 + t)
        V[:, b] *= np.sqrt(1 - t)
        return ('correlation', False, {'K_eig_dec': (kv, V)}) if g.rand() < .5 else (
            'likelihood', False, {'L_eig_dec': (lv, V)})
    if kind == 'nonproj_cancel':      # trace of a projection, spectrum inside [0, 1]
        a, b = g.permutation(N)[:2]
        v = ones.copy()
        v[a], v[b] = .5, .5
        return ('correlation', True, {'K': mat(v)}) if g.rand() < .5 else ('likelihood', True, {'L': mat(v)})
    if kind == 'Kd_proj_count':
        v = ones.copy()
        a, b = g.permutation(N)[:2]
        v[a], v[b] = .3, .7
        return 'correlation', True, {'K_eig_dec': (v, U)}
    if kind == 'zono_dup':            # dependent rows without a repeated one
        d = 2 + g.randint(max(1, N - 1))
        d = min(d, N)
        A = g.randn(d, N)
        A[-1] = g.randn(d - 1).dot(A[:-1])
        return 'correlation', True, {'A_zono': A}
    if kind in ('nan_K', 'nan_L'):
        M = mat(kv)
        a, b = g.randint(N, size=2)
        M[a, b] = M[b, a] = np.nan
        return ('correlation', bool(g.rand() < .3), {'K': M}) if kind == 'nan_K' else ('likelihood', False, {'L': M})
    if kind in ('nan_Kd', 'nan_Ld'):
        kv[j] = np.nan
        return ('correlation', False, {'K_eig_dec': (kv, U)}) if kind == 'nan_Kd' else (
            'likelihood', False, {'L_eig_dec': (kv, U)})
    if kind == 'nan_vec':
        V = U.copy()
        V[j, g.randint(N)] = np.nan
        return 'correlation', False, {'K_eig_dec': (kv, V)}
    if kind == 'no_params':
        return 'likelihood', False, {'K': mat(kv)}
    if kind == 'bad_type':
        return 'other', False, {'K': mat(kv)}
    if kind == 'bad_projection':
        return 'correlation', 'yes', {'K': mat(kv)}
    raise ValueError(kind)


# calls that need the spectrum, per parametrisation (others are not judged)
NEEDS = {'K': {'GS', 'GS_bis', 'KuTa12', 'k', 'L', 'AED', 'AD', 'E', 'kE'},
         'L': {'GS', 'GS_bis', 'KuTa12', 'Chol', 'k', 'K'},
         'L_eval_X_data': {'GS', 'GS_bis', 'KuTa12', 'Chol', 'k', 'K'}}
ASYM_EVAL = NEEDS['L_eval_X_data'] | {'L', 'AED', 'AD', 'E', 'kE'}


class C19(Check):
    id = 'C19'
    title = 'invalid kernels are rejected every time'
    runs = {'quick': 80000, 'thorough': 400000}
    rule = ('half the runs build an invalid kernel and issue a seeded sequence of calls with retries, '
            'half a valid one (including extreme scales and rounding-level defects); non-trivial = at '
            'least one rejection, or a valid sequence of at least two calls')
    state_measure = 'distinct (invalidity kind or parametrisation, call, outcome, attempt) tuples'
    crash_is_violation = True

    def gen(self, r, tier, i):
        if i % 2:
            ops = []
            for _ in range(r.choice([1, 2, 3, 5])):
                o = r.choice(['GS', 'GS', 'GS_bis', 'KuTa12', 'Chol', 'k', 'k', 'K', 'L', 'AED', 'AD', 'E', 'kE', 'flush'])
                ops += [o] * r.choice([1, 2, 2, 3])
            return {'kind': r.choice(INVALID), 'N': r.choice([2, 3, 4, 5]), 'history': ops,
                    'amp': r.choice([.01, .1, .5, 2.0]), 'kseed': r.getrandbits(30)}
        spec = {'N': r.choice([1, 2, 3, 4, 5, 6, 9, 21, 30]), 'kind': r.choice(VALID), 'seed': r.getrandbits(30)}
        kern = Kernel(spec)
        rep = r.choice(kern.reps())
        if spec['kind'] == 'huge' and rep[0] == 'K':
            rep = 'L'
        return {'spec': spec, 'rep': rep,
                'history': [machine.gen_op(r, kern, rep, None if kern.rank else ['exact', 'K', 'flush'])
                            for _ in range(r.choice([1, 2, 4, 7]))]}

    def shrinks(self, p):
        yield from super().shrinks(p)
        if 'N' in p and p['N'] > 2:
            yield dict(p, N=p['N'] - 1)

    def run(self, p, ctx):
        if 'kind' in p:
            self.invalid(p, ctx)
        else:
            self.valid(p, ctx)

    def valid(self, p, ctx):
        from dppy.finite_dpps import FiniteDPP
        kern = Kernel(p['spec'])
        kind = p['spec']['kind']
        dpp, _ = make_dpp(FiniteDPP, kern, p['rep'])
        for op in p['history']:
            exp = machine.expectation(kern, p['rep'], op)
            if kind in ('Kone', 'K01', 'null', 'rounding', 'projzero') and op[0] not in ('exact', 'K', 'flush', 'str'):
                exp = 'any'
            if kind in ('huge', 'tiny') and op[0] in ('mcmc', 'kmcmc'):
                exp = 'any'
            try:
                machine.call(dpp, kern, op)
            except Exception as e:
                if exp == 'ok':
                    raise Violation('valid-rejected', '%r on a valid %s kernel given as %s: %s: %s'
                                    % (op, kind, p['rep'], type(e).__name__, e))
                ctx.ev(op, type(e).__name__)
                continue
            if exp not in ('ok', 'any'):
                raise Violation('should-have-failed', '%r on %s should raise %s' % (op, p['rep'], exp))
            ctx.ev(op, 'ok')
            ctx.state(p['rep'], op[0], machine.flags(dpp))
        if len(p['history']) > 1:
            ctx.nontrivial = 'valid-%s-%s-%d' % (kind, p['rep'], p['spec']['seed'])

    def call(self, dpp, o, N, seed):
        if o in ('GS', 'GS_bis', 'KuTa12', 'Chol'):
            return dpp.sample_exact(mode=o, random_state=seed)
        if o == 'k':
            return dpp.sample_exact_k_dpp(size=1 + seed % N, random_state=seed)
        if o == 'K':
            return dpp.compute_K()
        if o == 'L':
            return dpp.compute_L()
        if o == 'kE':
            return dpp.sample_mcmc_k_dpp(size=1, s_init=[0], nb_iter=3, random_state=seed)
        if o == 'flush':
            return dpp.flush_samples()
        return dpp.sample_mcmc(o, s_init=[0], size=1, nb_iter=3, random_state=seed)

    def invalid(self, p, ctx):
        from dppy.finite_dpps import FiniteDPP
        kt, proj, params = build_invalid(p['kind'], p['N'], p['kseed'], p['amp'])
        try:
            dpp = FiniteDPP(kt, projection=proj, **params)
        except Exception as e:
            if not isinstance(e, ValueError):
                raise Violation('wrong-error', 'constructor raised %s: %s' % (type(e).__name__, e))
            ctx.stats.add('probe:rejected_at_construction')
            ctx.state(p['kind'], 'constructor')
            ctx.nontrivial = '%s-%d' % (p['kind'], p['kseed'])
            return
        rep = list(params)[0]
        needs = NEEDS.get(rep) if p['kind'] != 'asym_eval' else ASYM_EVAL
        if needs is None or proj:
            raise Violation('accepted', 'constructor accepted an invalid kernel (%s, N=%d)' % (p['kind'], p['N']))
        seen = {}
        for t, o in enumerate(p['history']):
            n = len(dpp.list_of_samples)
            try:
                out = self.call(dpp, o, p['N'], p['kseed'] + t)
            except Exception as e:
                ctx.ev(o, type(e).__name__)
                if o in needs:
                    if not isinstance(e, (ValueError, FloatingPointError)):
                        raise Violation('wrong-error', '%s on %s raised %s: %s' % (o, p['kind'], type(e).__name__, e))
                    ctx.stats.add('rejections')
                    seen[o] = seen.get(o, 0) + 1
                    ctx.state(p['kind'], o, min(seen[o], 3))
                    ctx.nontrivial = '%s-%d' % (p['kind'], p['kseed'])
                    if len(dpp.list_of_samples) != n:
                        raise Violation('recorded-failure', 'rejected call recorded an entry')
                continue
            if o in needs:
                raise Violation('accepted', 'call %d (%s) on an invalid kernel (%s) returned %r instead of an '
                                'error; earlier calls: %r' % (t, o, p['kind'], out, p['history'][:t]))


CHECK = C19()
