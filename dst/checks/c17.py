"""C17: BLESS dictionaries are consistent, unbiased, accurate - or an explicit error."""
import contextlib
import random

import numpy as np

from ..core import Check, Violation
from ..kernels import EvalL
from ..seams import (INJECTED, CallFaults, InjectedLinAlgError, InjectedMemoryError, InjectedUserError,
                     SimRandomState, StepBudget, load_dppy, rs, seed_of)
from ..stat import z_p

load_dppy()
from dppy import bless as B                                              # noqa: E402

DATA = ['gauss', 'gauss', 'gauss', 'cluster', 'dups', 'zero_row', 'zero', 'int', 'tiny', 'big', 'outlier']
KERNELS = ['linear', 'poly', 'rbf', 'rbf']


def data(kind, n, d, seed):
    g = rs('blessdata', kind, n, d, seed)
    X = g.randn(n, d)
    if kind == 'cluster':
        X = .1 * X + 3.0 * g.randn(3, d)[g.randint(3, size=n)]
    elif kind == 'dups':
        X = X[g.randint(max(1, n // 2), size=n)]
    elif kind == 'zero_row':
        X[g.randint(n)] = 0.0
    elif kind == 'zero':
        X = np.zeros((n, d))
    elif kind == 'int':
        X = np.rint(3 * X).astype(int)
    elif kind == 'tiny':
        X *= 1e-3
    elif kind == 'big':
        X *= 30.0
    elif kind == 'outlier':
        X[g.randint(n)] *= 30.0
    return X


def kernel(p):
    return EvalL(p['kernel'], p['gamma'], p['scale'], p['diag'], p['memo'])


def exact_rls(L, lam):
    return np.diagonal(np.linalg.solve(L + lam * np.eye(len(L)), L)).copy()


def own_rls(D, X, f, lam):
    """Leverage scores implied by a dictionary (direct formula)."""
    A = f(D.X, D.X) + lam * np.diag(D.probs)
    C = f(D.X, X)
    d = np.array([f(x[None], x[None])[0, 0] for x in X])
    return (d - (C * np.linalg.solve(A, C)).sum(0)) / lam


class FrozenEvalL(EvalL):
    """Hands out read-only arrays (a caller's cache)."""

    def _k(self, X, Y):
        G = super()._k(X, Y)
        G.flags.writeable = False
        return G


class C17(Check):
    id = 'C17'
    title = 'BLESS returns a consistent, unbiased and accurate dictionary or raises'
    runs = {'quick': 700, 'thorough': 12000}
    level = 'fault_enumeration'
    rule = ('seeded (data, kernel function, routine, regularisation, oversampling, iterations, fault) '
            'configurations; struct: every returned dictionary checked; fault: the kernel function or '
            'any call boundary fails; ht: Horvitz-Thompson weights over repeated draws; acc: leverage '
            'scores against the exact ones')
    stub = ['user kernel function (harness code, may fail)', 'random source (seeded, optionally biased '
            'towards rare outcomes)']

    def gen(self, r, tier, i):
        mode = ['struct', 'struct', 'fault', 'ht', 'acc', 'struct', 'fault'][i % 7]
        p = {'mode': mode, 'kernel': r.choice(KERNELS), 'gamma': r.choice([.05, .3, 1., 3.]),
             'scale': r.choice([1., 1., 1., 5., .2, 30.]), 'diag': r.random() < .3, 'memo': r.random() < .2,
             'kind': r.choice(DATA), 'n': r.choice([1, 2, 3, 5, 8, 15, 30, 60]), 'd': r.choice([1, 2, 4]),
             'dseed': r.getrandbits(30), 'lam': r.choice([1e-3, .05, .5, 1., 1., 2, 10., 1e3, 1e5]),
             'q': r.choice([.5, 1, 2., 4., 4, 10., 40.]), 'nb_iter': r.choice([None, None, None, 1, 2, 3, 8]),
             'size': r.choice([.5, 1, 1.5, 2, 3, 5, 8, 20, 100]),
             'fn': r.choice(['bless', 'bless', 'bless', 'bless_size']),
             'bias': r.choice([0, 0, 0, .1, .4]), 'frozen': r.random() < .3, 'verbose': r.random() < .15,
             'seed': r.getrandbits(31), 'faults': []}
        if mode in ('ht', 'acc'):
            p.update(kind=r.choice(['gauss', 'gauss', 'cluster', 'dups', 'zero_row', 'outlier']), bias=0,
                     n=r.choice([25, 40, 60]), gamma=r.choice([.1, .3, 1.]), scale=1., frozen=False,
                     lam=r.choice([.2, .5, 1., 1., 3.]), q=r.choice([3., 5., 8.]), fn='bless', verbose=False,
                     memo=False, nb_iter=r.choice([None, None, 2, 5, 1]))
        if mode == 'ht':
            if r.random() < .6:
                p.update(n=60, scale=r.choice([.1, .2, .4]), lam=1., q=3., kernel='rbf')
            p['reps'] = 400 if tier == 'quick' else 2000
        if mode == 'acc':
            p['acc'] = r.choice(['exact', 'ratio', 'ratio', 'size'])
            if p['acc'] == 'exact':
                p['q'] = 1e4
            else:
                p.update(n=r.choice([300, 500]), q=r.choice([40., 60.]), d=r.choice([1, 2, 3]),
                         gamma=r.choice([.05, .1, .3]))
            if p['acc'] == 'size':
                p.update(kernel='rbf', scale=r.choice([1., 10., 30.]), gamma=r.choice([.3, 1.]), d=r.choice([2, 3]),
                         size=r.choice([2.5, 4, 8, 15]))
        if mode == 'fault':
            p['faults'] = [[r.choice(['user', 'user', 'linalg', 'memory', 'interrupt', 'value', 'boundary',
                                      'boundary']), r.random()] for _ in range(3)]
            p['bias'] = 0
        return p

    # -- one call -----------------------------------------------------------
    def call(self, p, X, f, rng, fn=None):
        fn = fn or p['fn']
        with StepBudget(20000 + 400 * len(X)) if p['mode'] != 'ht' else contextlib.nullcontext():
            if fn == 'bless':
                return B.bless(X, f, p['lam'], p['q'], random_state=rng, nb_iter_bless=p['nb_iter'],
                               verbose=p['verbose'])
            return B.bless_size(X, f, p['size'], p['q'], random_state=rng, nb_iter_bless=p['nb_iter'],
                                verbose=p['verbose'])

    def rng(self, p, s):
        rng = SimRandomState(seed_of(p['seed'], s))
        if p['bias']:
            rng.bias, rng.bias_rate = random.Random(seed_of('b', p['seed'], s)), p['bias']
        rng.reset(100000)
        return rng

    def structure(self, p, X, D, fn, out):
        n = len(X)
        idx = np.asarray(D.idx)
        if idx.ndim != 1 or idx.size == 0 or not np.issubdtype(idx.dtype, np.integer):
            raise Violation('bad-indices', '%s: %r' % (fn, D.idx))
        if idx.min() < 0 or idx.max() >= n or not (np.diff(idx) > 0).all():
            raise Violation('bad-indices', '%s: not distinct sorted indices below %d: %r' % (fn, n, idx))
        if np.shape(D.X) != (len(idx), X.shape[1]) or not np.array_equal(D.X, X[idx]):
            raise Violation('points-mismatch', '%s: X is not X_data[idx]' % fn)
        pr = np.asarray(D.probs, float)
        if pr.shape != idx.shape or not (pr > 0).all():
            raise Violation('bad-probs', '%s: %d indices, probabilities %r' % (fn, len(idx), pr))
        if fn == 'bless':
            if pr.max() > 1 + 1e-9:
                raise Violation('bad-probs', 'probability above one: %r' % pr.max())
            if not np.isclose(D.lam, p['lam'], rtol=1e-9):
                raise Violation('wrong-lam', 'dictionary at lam=%r, requested %r (n=%d, nb_iter=%r)'
                                % (D.lam, p['lam'], n, p['nb_iter']))
        else:
            lmax, lmin = out[0], out[1]
            if not lmin <= lmax * (1 + 1e-9) or not lmin > 0 or not np.isfinite(lmax):
                raise Violation('bad-bracket', 'lam_min=%r lam_max=%r' % (lmin, lmax))
        if D.rls_oversample != p['q']:
            raise Violation('wrong-oversample', '%r, requested %r' % (D.rls_oversample, p['q']))

    @staticmethod
    def content(out):
        D = out[2] if len(out) == 3 else out
        return (np.asarray(D.idx).tobytes(), np.asarray(D.probs).tobytes(), float(D.lam),
                tuple(map(float, out[:2])) if len(out) == 3 else None)

    def run(self, p, ctx):
        X = data(p['kind'], p['n'], p['d'], p['dseed'])
        if p['frozen']:
            X.flags.writeable = False
        keep = X.tobytes()
        f = kernel(p)
        if p['frozen']:
            f.__class__ = FrozenEvalL
        try:
            getattr(self, 'run_' + p['mode'])(p, ctx, X, f)
        finally:
            if X.tobytes() != keep:
                raise Violation('data-modified', 'X_data was modified by %s' % p['fn'])
            if f.memo:
                g = EvalL(p['kernel'], p['gamma'], p['scale'])
                for key, v in f.memo.items():
                    if key[0] == 'diag':
                        if not np.allclose(v, np.diag(g(np.frombuffer(key[1], X.dtype).reshape(key[2])))):
                            raise Violation('kernel-values-modified', 'a diagonal returned by the kernel '
                                            'function was modified')
                        continue
                    a, b, sa, sb = key
                    A, C = (np.frombuffer(t, X.dtype).reshape(s) for t, s in ((a, sa), (b, sb)))
                    if not np.allclose(v, g(A, C)):
                        raise Violation('kernel-values-modified', 'an array returned by the kernel function '
                                        'was modified')

    def run_struct(self, p, ctx, X, f):
        ok = err = 0
        for s in range(4):
            try:
                out = self.call(p, X, f, self.rng(p, s))
            except ValueError as e:
                err += 1
                ctx.ev('value-error', str(e)[:30])
                ctx.state(p['fn'], 'err', str(e)[:14], p['kernel'], p['kind'])
                continue
            D = out if p['fn'] == 'bless' else out[2]
            self.structure(p, X, D, p['fn'], out)
            ok += 1
            ctx.ev(self.content(out)[0], len(D.idx))
            ctx.state(p['fn'], p['kernel'], p['kind'], len(D.idx), len(X), p['nb_iter'])
        if p['bias']:
            ctx.stats.add('fault:biased_randomness', 4)
        ctx.stats.add('evaluations', 4)
        ctx.stats.add('dictionaries', ok)
        ctx.stats.add('probe:value_error', err)
        L = f(X, X)
        easy = (p['fn'] == 'bless' and not p['bias'] and p['q'] >= 4 and len(X) >= 5 and .05 <= p['lam'] <= len(X)
                and exact_rls(L.astype(float), p['lam']).sum() >= 2)
        if easy and not ok and self.cond_ok(L, p):
            raise Violation('never-succeeds', 'all 4 attempts raised ValueError on an ordinary input')

    @staticmethod
    def cond_ok(L, p):
        return np.abs(L).max() < 1e6 * p['lam']

    def run_fault(self, p, ctx, X, f):
        def attempt(fn):
            try:
                return 'ok', self.content(fn())
            except ValueError as e:
                if isinstance(e, INJECTED) or getattr(e, 'injected', False):
                    raise
                return 'ValueError', str(e)[:40]
        f.calls = 0
        ref = attempt(lambda: self.call(p, X, f, self.rng(p, 0)))
        total = f.calls
        cf0 = CallFaults()
        with cf0:
            attempt(lambda: self.call(p, X, f, self.rng(p, 0)))
        for kind, u in p['faults']:
            ctx.stats.add('armed:callback_' + kind if kind != 'boundary' else 'armed:boundary')
            if kind == 'boundary':
                # faults of the runtime itself (memory, signals) at any call boundary
                k2 = 'memory' if u * 1000 % 1 < .5 else 'interrupt'
                cf = CallFaults(k2, int(u * cf0.count))
                try:
                    with cf:
                        res = self.call(p, X, f, self.rng(p, 0))
                    if cf.fired:
                        raise Violation('fault-swallowed', '%s at %s did not surface' % (k2, cf.where))
                except INJECTED as e:
                    ctx.stats.add('fault:' + k2)
                except ValueError as e:
                    if cf.fired:
                        raise Violation('fault-replaced', '%s at %s became %r' % (k2, cf.where, e))
            else:
                exc = {'user': InjectedUserError('kernel'), 'linalg': InjectedLinAlgError('kernel'),
                       'memory': InjectedMemoryError(), 'interrupt': KeyboardInterrupt('sim'),
                       'value': ValueError('kernel')}[kind]
                exc.injected = True
                f.calls, f.fail_at, f.exc = 0, 1 + int(u * total), exc
                got = None
                try:
                    self.call(p, X, f, self.rng(p, 0))
                except BaseException as e:
                    got = e
                fired, f.fail_at = f.fail_at is None, None
                if fired:
                    ctx.stats.add('fault:callback_' + kind)
                if fired and got is not exc:
                    raise Violation('callback-error-changed', 'the kernel function raised %r at call %d of %d, '
                                    'the caller saw %r' % (exc, 1 + int(u * total), total, got))
                ctx.ev('cb', kind, int(u * total), fired)
            again = attempt(lambda: self.call(p, X, f, self.rng(p, 0)))
            ctx.stats.add('evaluations')
            if again != ref:
                raise Violation('fault-leaves-trace', 'after a %s failure the same call gives a different '
                                'result' % kind)
            ctx.state(p['fn'], kind, ref[0], int(u * total))

    def run_ht(self, p, ctx, X, f):
        n, R = len(X), p['reps']
        L = f(X, X).astype(float)
        tau = exact_rls(L, p['lam'])
        w = np.minimum(1.0, p['q'] * tau)

        def collect(stream):
            A, err = np.zeros((R, n)), 0
            for t in range(R):
                try:
                    D = self.call(p, X, f, self.rng(p, (stream, t)))
                except ValueError:
                    err += 1
                    continue
                self.structure(p, X, D, 'bless', D)
                A[t, D.idx] = w[D.idx] / D.probs
            return A, err

        def judge(stream):
            A, err = collect(stream)
            if err:
                return None
            g = rs('proj', p['dseed'])
            V = np.column_stack([np.ones(n), tau, g.rand(n, 6) < .3, np.eye(n)[:, w * R >= 25][:, :15]])
            m = w.dot(V)
            Y = A.dot(V) - m
            # rare omissions of an item kept almost surely may not have been seen
            sd = np.sqrt(Y.var(0, ddof=1) + (.15 * (w[:, None] * V).max(0)) ** 2)
            z = np.abs(Y.mean(0)) / sd * np.sqrt(R)
            # heavy tails: an item kept rarely carries a large weight
            if np.abs(Y).max() > 40 * sd.max():
                return None
            return min(1.0, z_p(z.max()) * len(z))
        p1 = judge(0)
        ctx.stats.add('evaluations', R)
        ctx.ev('ht', p1 is not None and '%.3g' % p1)
        ctx.state('ht', p['kernel'], p['kind'], n, p['q'], p['lam'], p1 is None)
        if p1 is None:
            ctx.stats.add('probe:ht_skipped')
        elif p1 < 1e-4:
            p2 = judge(1)
            ctx.stats.add('probe:escalated')
            if p2 is not None and p2 < 1e-7:
                raise Violation('biased-probabilities', 'inverse-probability weights over %d dictionaries are '
                                'biased: p=%.3g then %.3g' % (R, p1, p2))

    def run_acc(self, p, ctx, X, f):
        L = f(X, X).astype(float)
        lam = p['lam']
        ctx.state('acc', p['acc'], p['kernel'], p['kind'], len(X), lam, p['nb_iter'])
        if p['acc'] == 'size':
            return self.acc_size(p, ctx, X, f, L)
        tau = exact_rls(L, lam)
        worst = []
        for s in range(5):
            try:
                D = self.call(p, X, f, self.rng(p, s))
            except ValueError as e:
                ctx.stats.add('probe:value_error')
                worst.append('ValueError %s' % e)
                continue
            self.structure(p, X, D, 'bless', D)
            ctx.stats.add('evaluations')
            ests = [('dictionary', own_rls(D, X, f, lam))]
            if hasattr(B, 'estimate_rls_bless'):
                try:
                    ests.append(('estimate_rls_bless', np.asarray(B.estimate_rls_bless(D, X, f, lam))))
                except ValueError as e:
                    ests.append(('estimate_rls_bless', str(e)))
            bad = None
            big = tau > 1e-4
            for name, e in ests:
                if isinstance(e, str):
                    bad = (name, e)
                    continue
                if e.shape != tau.shape:
                    raise Violation('bad-estimate', '%s has shape %r' % (name, e.shape))
                if p['acc'] == 'exact':
                    # every item whose score is not negligible is kept with
                    # probability one, so the estimate is the exact score
                    if len(D.idx) == len(X) and (D.probs >= 1).all() and \
                            np.abs(e - tau).max() > 1e-6 * (1 + np.abs(L).max() / lam):
                        raise Violation('inexact-full-dictionary', '%s with every item kept with probability '
                                        'one: estimate %r exact %r' % (name, e[:5], tau[:5]))
                ratio = e[big] / tau[big]
                if ratio.size and (ratio.max() > 3 or ratio.min() < 1 / 3.):
                    bad = (name, float(ratio.min()), float(ratio.max()))
            size = len(D.idx)
            if p['acc'] == 'ratio' and size > 6 * p['q'] * max(1.0, tau.sum()) + 20:
                bad = ('size', size, float(tau.sum()))
            if bad is None:
                return
            worst.append(bad)
        if tau.sum() > 1.5:
            raise Violation('inaccurate', 'five independent dictionaries (oversampling %g, %d points, effective '
                            'dimension %.1f) are all inaccurate: %r' % (p['q'], len(X), tau.sum(), worst[:3]))

    def acc_size(self, p, ctx, X, f, L):
        ev = np.maximum(np.linalg.eigvalsh(L), 0)
        deff = lambda lam: float((ev / (ev + lam)).sum())
        if ev.sum() <= p['size'] or deff(1.0) < 1:
            return
        worst = []
        for s in range(5):
            try:
                lmax, lmin, D = self.call(p, X, f, self.rng(p, s), 'bless_size')
            except ValueError as e:
                ctx.stats.add('probe:value_error')
                worst.append('ValueError %s' % e)
                continue
            self.structure(p, X, D, 'bless_size', (lmax, lmin, D))
            ctx.stats.add('evaluations')
            a, b = deff(lmax), deff(lmin)
            if a <= 1.25 * p['size'] and (lmin <= 1.0 + 1e-9 or b >= p['size'] / 1.1):
                return
            worst.append((lmax, lmin, a, b))
        ctx.stats.add('probe:bracket_bad_five_times')
        if p['nb_iter'] is None and deff(1.0) > 2 * p['size'] + 2:
            raise Violation('wrong-bracket', 'five independent brackets of the regularisation for size %g are '
                            'all wrong (lam_max, lam_min, sizes there): %r' % (p['size'], worst[:3]))

    def shrinks(self, plan):
        yield from super().shrinks(plan)
        for k, v in (('bias', 0), ('frozen', False), ('memo', False), ('verbose', False), ('nb_iter', None),
                     ('kind', 'gauss')):
            if plan[k] != v and not (k == 'nb_iter' and plan['mode'] == 'struct'):
                yield dict(plan, **{k: v})
        if plan['mode'] in ('struct', 'fault'):
            for n in (1, 2, 3, 5, 8, 15):
                if n < plan['n']:
                    yield dict(plan, n=n)


CHECK = C17()
