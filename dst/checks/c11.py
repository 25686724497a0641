"""C11: vfx and alpha rejection samplers keep the exact law over any history."""
import random

import numpy as np

from .. import machine
from ..core import Violation
from ..kernels import kdpp_singles, law_L, mask_of
from ..law import LawCheck, MarginalLaw, SetLaw, check_set, swap_test
from ..seams import (FAULTS, INJECTED, BudgetRandomState, CallFaults, InjectedUserError, SimRandomState,
                     load_dppy, seed_of)
from ..stat import binom_p_vec, g_test
from .c17 import FrozenEvalL, data, exact_rls
from ..kernels import EvalL

load_dppy()
from dppy.finite_dpps import FiniteDPP                                   # noqa: E402

DATA = ['gauss', 'gauss', 'gauss', 'cluster', 'dups', 'zero_row', 'int', 'outlier']


def instance(p):
    """(X, eval_L, L): the kernel scaled to a chosen expected size."""
    X = data(p['kind'], p['N'], p['d'], p['dseed'])
    f = EvalL(p['kernel'], p['gamma'], 1, p['diag'], p['memo'])
    L = np.asarray(f(X, X), float)
    if p['kind'] == 'int' and p['kernel'] == 'linear':
        return X, f, L                       # integer-valued kernel
    ev = np.maximum(np.linalg.eigvalsh(L), 0)
    rank = int((ev > 1e-8 * max(ev.max(), 1e-300)).sum())
    want = min(p['esize'], .8 * rank)
    lo, hi = -40.0, 40.0
    for _ in range(80):
        m = .5 * (lo + hi)
        s = np.exp(m) * ev
        lo, hi = (m, hi) if (s / (1 + s)).sum() < want else (lo, m)
    f.scale = float(np.exp(lo))
    if f.memo is not None:
        f.memo.clear()
    return X, f, f.scale * L


class C11(LawCheck):
    id = 'C11'
    title = 'law of the vfx and alpha samplers after any history'
    level = 'fault_enumeration'
    runs = {'quick': 500, 'thorough': 8000}
    n_draws = {'quick': 1200, 'thorough': 6000}
    rule = ('seeded (data, kernel function, algorithm cycle, approximation parameters, history with failing '
            'and interrupted calls) configurations; all draws of a run come from one object and are judged, '
            'per target, against the enumerated (k-)DPP law; non-trivial = at least two sets possible')
    stub = ['user kernel function (harness code, may fail)', 'random source (seeded, optionally biased)']

    # -- generation -----------------------------------------------------------
    def gen_call(self, r, p, kinds=('dpp', 'kdpp', 'edpp')):
        kind, mode = r.choice(kinds), r.choice(['vfx', 'alpha'])
        kw = {}
        if r.random() < .3:
            kw['rls_oversample_bless'] = r.choice([1., 2., 6.])
        if r.random() < .3:
            kw['rls_oversample_dppvfx' if mode == 'vfx' else 'rls_oversample_alphadpp'] = r.choice([1., 2., 8.])
        if r.random() < .15:
            kw['nb_iter_bless'] = r.choice([1, 2, 5])
        if r.random() < .2:
            kw['func'] = r.choice(['big', 'small'])
        if r.random() < .1:
            kw['max_iter'] = r.choice([1, 3, 10])
        if kind == 'kdpp' and r.random() < .15:
            kw['max_iter_size_rejection'] = r.choice([1, 3, 20])
        if kind == 'kdpp' and mode == 'alpha' and r.random() < .4:
            kw['early_stop'] = True
        size = None
        if kind == 'kdpp':
            size = r.choice([1, 1, 2, 2, 2, 3, 4])
            if r.random() < .8:
                if mode == 'alpha':
                    p['esize'] = max(p['esize'], 2.4)
                size = r.randint(1 + (mode == 'alpha'), max(1, int(p['esize'])))
        if kind == 'edpp':
            size = r.choice([.4, .8, 1.2, 1.6, 2.3])
        return [kind, mode, size, kw]

    def gen_hist(self, r, p):
        c = r.random()
        if c < .55:
            op = self.gen_call(r, p)
            if r.random() < .3:
                op[3]['fail'] = [r.choice(['user', 'value', 'linalg', 'memory']), r.randint(1, 12)]
            elif r.random() < .3:
                op[3]['boundary'] = [r.choice(['memory', 'interrupt']), r.random()]
            return op
        return [r.choice(['exact', 'kexact', 'mcmc', 'K', 'flush', 'bad']), r.choice([1, 2]), r.getrandbits(31)]

    def gen_law(self, r, tier, i):
        big = r.random() < .12
        p = {'N': r.choice([15, 25]) if big else r.choice([1, 2, 3, 4, 4, 5, 5, 6, 6]), 'd': r.choice([2, 3, 5]),
             'kind': r.choice(DATA), 'kernel': r.choice(['linear', 'poly', 'rbf', 'rbf']),
             'gamma': r.choice([.3, 1.]), 'esize': r.choice([.6, 1.2, 1.8, 2.4, 3.]), 'dseed': r.getrandbits(30),
             'diag': r.random() < .3, 'memo': r.random() < .2, 'frozen': r.random() < .2,
             'bias': r.random() < .1}
        p['targets'] = [self.gen_call(r, p) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        kinds = set(t[0] for t in p['targets'])
        if len(p['targets']) > 1 and 'edpp' in kinds:
            # a rescaled target keeps its rescaling only while it is repeated
            p['targets'] = [t if t[0] != 'edpp' else ['dpp', t[1], None, t[3]] for t in p['targets']]
        p['history'] = [self.gen_hist(r, p) for _ in range(r.choice([0, 0, 1, 2, 4]))]
        p['inter'] = self.gen_hist(r, p) if r.random() < .3 and 'edpp' not in kinds else None
        p['every'] = r.choice([1, 7, 50])
        p['fresh'] = r.random() < .35            # a new object for every draw
        if p['fresh']:
            p.update(history=[], inter=None)
        if len(p['targets']) > 1 or p['inter'] or p['fresh'] or 'kdpp' in kinds:
            p['n'] = self.n_draws[tier] // 3
        return p

    def shrinks(self, plan):
        if 'members' in plan:
            return
        yield from super().shrinks(plan)
        if len(plan['targets']) > 1:
            for t in plan['targets']:
                yield dict(plan, targets=[t])
        for j, t in enumerate(plan['targets']):
            if t[3]:
                yield dict(plan, targets=plan['targets'][:j] + [[t[0], t[1], t[2], {}]] + plan['targets'][j + 1:])
        for k, v in (('bias', False), ('memo', False), ('frozen', False), ('diag', False), ('kind', 'gauss'),
                     ('kernel', 'rbf')):
            if plan[k] != v:
                yield dict(plan, **{k: v})

    # -- execution --------------------------------------------------------------
    trace = 0.0

    def kwargs(self, mode, kind, size, kw):
        out = {k: v for k, v in kw.items() if k not in ('func', 'fail', 'boundary')}
        if 'func' in kw:
            c = 3.0 if kw['func'] == 'big' else .4
            if mode == 'vfx':
                out['q_func'] = lambda s: c * min(s * s, 400.0) + .2
            else:
                out['r_func'] = lambda s: c * s + .2
        elif mode == 'vfx' and self.trace > 20:
            # the default s**2 only costs time on a dominant eigenvalue
            out['q_func'] = lambda s: min(s * s, 400.0)
        if kind == 'edpp':
            out['desired_expected_size'] = size
        out['verbose'] = False
        return out

    def invoke(self, dpp, op, rng):
        kind, mode, size, kw = op
        a = self.kwargs(mode, kind, size, kw)
        if kind == 'kdpp':
            return dpp.sample_exact_k_dpp(size, mode=mode, random_state=rng, **a)
        return dpp.sample_exact(mode=mode, random_state=rng, **a)

    def history_op(self, ctx, st, op):
        dpp, f, rng, N = st['dpp'], st['f'], st['rng'], st['N']
        n0 = len(dpp.list_of_samples)
        exc = cf = None
        kind = op[0]
        grown = 1
        try:
            if kind in ('dpp', 'kdpp', 'edpp'):
                kw = op[3]
                if 'fail' in kw:
                    f.calls, f.fail_at = 0, kw['fail'][1]
                    f.exc = InjectedUserError('kernel') if kw['fail'][0] == 'user' else ValueError('kernel') \
                        if kw['fail'][0] == 'value' else FAULTS[kw['fail'][0]]('kernel')
                    f.exc.injected = True
                    ctx.stats.add('armed:callback_' + kw['fail'][0])
                    self.invoke(dpp, op, rng)
                elif 'boundary' in kw:
                    cf = CallFaults(kw['boundary'][0], int(10 ** (1 + 3 * kw['boundary'][1])))
                    ctx.stats.add('armed:' + kw['boundary'][0])
                    with cf:
                        self.invoke(dpp, op, rng)
                else:
                    self.invoke(dpp, op, rng)
            elif kind == 'exact':
                dpp.sample_exact('GS', random_state=rng)
            elif kind == 'kexact':
                dpp.sample_exact_k_dpp(op[1], 'GS', random_state=rng)
            elif kind == 'mcmc':
                dpp.sample_mcmc('AD', s_init=[0], nb_iter=2, random_state=rng)
            elif kind == 'K':
                dpp.compute_K()
                grown = 0
            elif kind == 'flush':
                dpp.flush_samples()
                grown = -n0
            elif kind == 'bad':
                dpp.sample_exact('nope', random_state=rng)
        except (ValueError, np.linalg.LinAlgError) as e:
            exc = e
        except INJECTED as e:
            exc = e
        injected = cf is not None and cf.fired or (f.fail_at is None and getattr(f.exc, 'injected', False)
                                                   and exc is f.exc)
        if kind in ('dpp', 'kdpp', 'edpp') and 'fail' in op[3]:
            if f.fail_at is None:
                ctx.stats.add('fault:callback_' + op[3]['fail'][0])
                if exc is not f.exc:
                    raise Violation('callback-error-changed', 'kernel function raised %r, caller saw %r'
                                    % (f.exc, exc))
            f.fail_at = None
        if cf is not None and cf.fired:
            ctx.stats.add('fault:' + op[3]['boundary'][0])
        if exc is None:
            if len(dpp.list_of_samples) != n0 + grown:
                raise Violation('record-length', '%r: record went from %d to %d' % (op, n0, len(dpp.list_of_samples)))
            if kind in ('dpp', 'kdpp', 'edpp'):
                check_set(dpp.list_of_samples[-1], N, op[2] if kind == 'kdpp' else None, op[1])
        elif len(dpp.list_of_samples) != n0 and not (cf is not None and cf.fired):
            raise Violation('record-length', '%r failed with %r but the record went from %d to %d'
                            % (op, exc, n0, len(dpp.list_of_samples)))
        ctx.stats.add('ops')
        ctx.ev(op[0], type(exc).__name__, len(dpp.list_of_samples), injected)
        ctx.state(op[0], op[1], type(exc).__name__, 'info' if dpp.intermediate_sample_info is not None else '')

    def prepare(self, plan, ctx, stream):
        X, f, L = instance(plan)
        N = len(X)
        self.trace = float(np.trace(L))
        if plan['frozen']:
            f.__class__ = FrozenEvalL
            X.flags.writeable = False
        ev, U = np.linalg.eigh(L)
        ev = np.maximum(ev, 0)
        small = N <= 8
        lawful = {}
        if 'edpp' in [t[0] for t in plan['targets']] and plan['fresh']:
            plan = dict(plan, fresh=False)     # each object has its own rescaling
        if plan['bias']:
            rng = SimRandomState(seed_of(plan['seed'], stream))
            rng.bias, rng.bias_rate = random.Random(seed_of('b', plan['seed'], stream)), .2
        else:
            rng = BudgetRandomState(seed_of(plan['seed'], stream))
        dpp = FiniteDPP('likelihood', L_eval_X_data=(f, X))
        st = {'dpp': dpp, 'f': f, 'rng': rng, 'N': N}

        def budget():
            if plan['bias']:
                rng.reset(400000)
            else:
                rng.left = 400000
        for op in plan['history']:
            budget()
            self.history_op(ctx, st, op)
        T = plan['targets']
        dead = set()
        esum = float((ev / (1 + ev)).sum())

        def draw(t):
            op = T[t % len(T)]
            j = t % len(T)
            if j in dead:
                return j, None
            if plan['inter'] and t % plan['every'] == 0:
                budget()
                self.history_op(ctx, st, plan['inter'])
            if plan['fresh']:
                st['dpp'] = FiniteDPP('likelihood', L_eval_X_data=(f, X))
            dpp = st['dpp']
            for attempt in range(25 if st.get('work', 0) < 50000 else 3):
                budget()
                n0 = len(dpp.list_of_samples)
                try:
                    S = self.invoke(dpp, op, rng)
                except ValueError as e:
                    ctx.stats.add('probe:value_error')
                    st['err'] = str(e)
                    st['work'] = st.get('work', 0) + (rng.draws if plan['bias'] else 400000 - rng.left)
                    if len(dpp.list_of_samples) != n0:
                        raise Violation('record-length', 'a failed call recorded a sample: %s' % e)
                    if 'This is unusual' in str(e) and op[0] == 'kdpp' and attempt > 3 and op[2] > esum:
                        break
                    continue
                check_set(S, N, op[2] if op[0] == 'kdpp' else None, op[1])
                if len(dpp.list_of_samples) != n0 + 1 or sorted(dpp.list_of_samples[-1]) != sorted(S):
                    raise Violation('record-length', 'the returned sample is not the last record')
                return j, (mask_of(S) if small else S)
            dead.add(j)
            ctx.stats.add('unreach:%s %s %s' % (op[1], op[0], st.get('err','')[:30]))
            ctx.stats.add('probe:target_unreachable')
            kw = op[3]
            easy = (not plan['bias'] and N >= 4 and esum >= 1.5 and not kw and plan['kind'] in ('gauss', 'cluster')
                    and plan['kernel'] in ('rbf', 'poly')
                    and (op[2] is None or (op[0] == 'kdpp' and 2 <= op[2] <= .7 * esum)))
            if easy:
                raise Violation('never-succeeds', '%s %s %r: 25 attempts all raised ValueError (last: %s)'
                                % (op[1], op[0], op[2], st.get('err')))
            return j, None

        def judge(xs):
            S = D = 0
            P = 1.0
            for j, op in enumerate(T):
                v = [x for i, x in xs if i == j and x is not None]
                if not v:
                    continue
                s, d, p = self.judge_target(op, v, L, ev, U, small, N)
                S, D, P = S + s, D + d, min(P, p)
            if plan['bias']:
                ctx.stats.add('fault:biased_randomness', len(xs))
                return 0.0, 0, 1.0
            return S, D, min(1.0, P * len(T))
        bucket = '+'.join(sorted(set('%s-%s' % (t[1], t[0]) for t in T))) + ('-hist' if plan['history'] or plan['inter'] else '') + ('-fresh' if plan['fresh'] else '')
        for t in T:
            ctx.state(t[0], t[1], t[2], sorted(t[3]), plan['kernel'], plan['kind'], N)
        if N > 1:
            ctx.nontrivial = '%s-%d-%d' % (bucket, N, plan['dseed'])
        return draw, judge, bucket

    @staticmethod
    def judge_target(op, v, L, ev, U, small, N):
        if not small:
            if op[0] != 'dpp':                   # given its size, each set follows the k-DPP
                p = swap_test(L, v)
                if op[0] == 'kdpp':
                    c = np.zeros(N)
                    for S in v:
                        c[S] += 1
                    p1 = np.clip(kdpp_singles(ev, U, op[2])[0], 0, 1)
                    p = min(1.0, 2 * p, 2 * N * float(binom_p_vec(c, len(v), p1).min()))
                return 0.0, 0, p
            K = (U * (ev / (1 + ev))).dot(U.T)
            return MarginalLaw(K, ev / (1 + ev)).judge(v)
        if op[0] == 'dpp':
            return SetLaw(law_L(L), N).judge(np.asarray(v))
        if op[0] == 'kdpp':
            return SetLaw(law_L(L, op[2]), N).judge(np.asarray(v))
        # DPP(alpha L) for an unknown alpha: every size has its k-DPP law, and
        # the sizes follow the law of the alpha matching their mean
        v = np.asarray(v)
        sizes = np.array([bin(m).count('1') for m in v])
        S = D = 0
        P, tests = 1.0, 1
        for k in sorted(set(sizes)):
            s, d, p = SetLaw(law_L(L, k), N).judge(v[sizes == k])
            S, D, P, tests = S + s, D + d, min(P, p), tests + 1
        m = sizes.mean()
        if not 0 < m < .98 * (ev > 0).sum():
            return S, D, min(1.0, P * tests)
        lo, hi = -40., 40.
        for _ in range(80):
            c = .5 * (lo + hi)
            a = np.exp(c) * ev
            lo, hi = (c, hi) if (a / (1 + a)).sum() < m else (lo, c)
        a = np.exp(lo) * ev / (1 + np.exp(lo) * ev)
        pm = np.array([1.0])
        for x in a:
            pm = np.convolve(pm, [1 - x, x])
        s, d, p = g_test(np.bincount(sizes, minlength=N + 1), np.clip(pm, 0, 1))
        if d > 1:
            from scipy import stats as sst
            d -= 1
            S, D, P = S + s, D + d, min(P, float(sst.chi2.sf(s, d)))
        return S, D, min(1.0, P * tests)


CHECK = C11()
