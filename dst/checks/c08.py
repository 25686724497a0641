"""C08: an interrupted or failed call leaves the DPP object fully usable."""
import numpy as np

from .. import world
from ..core import Check, Violation
from ..kernels import law_dpp, law_L, mask_of
from ..law import SetLaw, check_set
from ..seams import FAULTS, seed_of
from ..stat import ALPHA_FINAL, ALPHA_SCREEN
from ..world import canon

KINDS = ['interrupt', 'interrupt', 'interrupt', 'memory', 'linalg', 'linalg', 'stdout', 'callback', 'callback',
         'warnings', 'fperr']
ASYNC = ('interrupt', 'memory')


def exact_law(h, op):
    """(probabilities of the 2^N subsets, size or None) of an exact sampling call, or None."""
    if h.spec['kind'] == 'eval':
        L = h.L_ref
        if len(L) > 9:
            return None
        if op[0] == 'exact':
            return law_L(L)
        if op[0] == 'kexact':
            return law_L(L, op[1])
        return None
    kern = h.kern
    if op[0] == 'exact':
        return law_dpp(kern.K)
    if op[0] == 'kexact' and 0 < op[1] <= kern.rank:
        return law_dpp(kern.K) if kern.projection else law_L(kern.L, op[1])
    return None


def two_sample(a, b):
    """p-value of equality of the laws of two lists of hashables."""
    from scipy import stats as st
    keys = sorted(set(a) | set(b))
    A = np.array([[x.count(k) for k in keys] for x in (a, b)], float)
    small = A.sum(0) < 20
    T = A[:, ~small]
    if small.any():
        T = np.hstack([T, A[:, small].sum(1, keepdims=True)])
    if T.shape[1] < 2 or (T.sum(0) == 0).any():
        return 1.0
    return st.chi2_contingency(T, correction=False)[1]


class C08(Check):
    id = 'C08'
    title = 'failures leave the object usable'
    runs = {'quick': 26000, 'thorough': 250000}
    rule = ('seeded histories on one finite DPP in which one or more calls are cut short at a seeded call '
            'boundary; every later call is compared with objects that never saw the failure, and where it '
            'differs its exact law is tested on fresh draws from the damaged object')
    stub = ['zonotope LP solver (cvxopt is not installed)']
    assumptions = ['failures strike at call boundaries of library code: where CPython delivers signals and '
                   'where callees fail']

    def gen(self, r, tier, i):
        if i % 6 == 5:
            p = world.gen_history(r, 1, r.choice([2, 3, 5]), kinds=['tree', 'tree', 'beta', 'jacobi', 'poly', 'proc'])
            p['ops'] = [op for _, op in p['ops']]
            p['faults'] = {str(t): world.gen_fault(r, KINDS) for t in range(len(p['ops']) - 1) if r.random() < .5}
            return p
        spec = world.gen_obj(r, ['finite'] * 3 + ['eval'])
        n = r.choice([2, 3, 4, 5, 7])
        ops = []
        only = r.choice([None] * 5 + [('kexact', 'kvfx', 'kalpha'), ('kexact',), ('exact', 'K', 'L'),
                                      ('mcmc', 'kmcmc', 'zonotope', 'L', 'K')])
        if only and 'kexact' in only:           # several sizes on one object
            n = r.choice([4, 5, 7, 8])
            for _ in range(40):
                if spec['kind'] == 'eval' or spec['spec']['kind'] in world.NONPROJ_KINDS and \
                        world.Kernel(spec['spec']).rank > 2:
                    break
                spec = world.gen_obj(r, ['finite'] * 5 + ['eval'])
        while len(ops) < n:
            if only:
                for _ in range(30):
                    op = world.gen_op(r, spec, bad=False)
                    if op[0] in only:
                        break
                ops.append(op)
                continue
            op = world.gen_op(r, spec, bad=r.random() < .1)
            if op[0] in ('mcmc', 'kmcmc') and r.random() < .4:
                op = world.gen_op(r, spec, bad=False)
            ops.append(op)
        faults = {}
        last = r.randrange(n - 1) if n > 1 else 0
        for t in range(n - 1):
            if t == last or r.random() < .15:
                faults[str(t)] = world.gen_fault(r, KINDS)
                if r.random() < .3:            # retry the very same call
                    ops[t + 1] = list(ops[t])
        return {'objs': [spec], 'ops': ops, 'faults': faults, 'info': r.random() < .2}

    def shrinks(self, plan):
        n = len(plan['ops'])
        for t in range(n):
            f = {str(int(k) - (int(k) > t)): v for k, v in plan['faults'].items() if int(k) != t}
            yield dict(plan, ops=plan['ops'][:t] + plan['ops'][t + 1:], faults=f)
        for k in plan['faults']:
            yield dict(plan, faults={q: v for q, v in plan['faults'].items() if q != k})

    @staticmethod
    def make(p):
        h = world.make(p['objs'][0])
        if h.spec['kind'] not in ('finite', 'eval'):
            return h
        if h.spec['kind'] == 'eval':
            X = h.inputs['L_eval_X_data'][1]
            h.L_ref = np.array(h.f._k(np.atleast_2d(X), np.atleast_2d(X)), float)
            h.K_ref = h.L_ref.dot(np.linalg.inv(np.eye(len(X)) + h.L_ref))
        else:
            h.L_ref, h.K_ref = h.kern.L, h.kern.K
        h.N = len(h.K_ref)
        return h

    def where(self, p, t):
        return '%s after %s on %s' % (p['ops'][t], [(o, p['faults'].get(str(s))) for s, o in enumerate(p['ops'][:t])],
                                      p['objs'][0])

    # -- kernels ------------------------------------------------------------
    def check_kernels(self, p, t, h):
        for name, ref in (('K', h.K_ref), ('L', h.L_ref)):
            M = getattr(h.obj, name, None)
            if M is None or ref is None:
                continue
            M = np.asarray(M)
            tol = 1e-6 * max(1.0, np.abs(ref).max()) * (1 + np.abs(h.L_ref).max() if h.L_ref is not None else 1.)
            if M.shape != ref.shape or not np.abs(M - ref).max() <= tol:
                raise Violation('wrong-kernel', '%s computed at %s is wrong: %.200r instead of %.200r'
                                % (name, self.where(p, t), M, ref), attr=name)

    def valid_entry(self, h, op, e):
        what = 'record of %s' % (op,)
        for S in (e if op[0] in ('mcmc', 'kmcmc', 'zonotope') else [e]):
            check_set(list(S), h.N, None, what)

    def run_other(self, p, ctx):
        """Objects without a choice of representation: later results are exactly the same."""
        h, g, g2 = self.make(p), self.make(p), self.make(p)
        for t, op in enumerate(p['ops']):
            fault = p['faults'].get(str(t))
            n0 = len(h.record() or [])
            res, exc, fired, allowed = world.attempt(h, op, fault, seed_of(p['seed'], t), ctx.stats)
            ctx.stats.add('evaluations')
            new = [canon(x) for x in (h.record() or [])[n0:]] if op[0] != 'flush' else []
            ctx.state(p['objs'][0]['kind'], op[:2], fault and fault[0], fired, type(exc).__name__)
            ctx.ev(t, op, fault and fault[0], fired, type(exc).__name__)
            b = world.outcome(g2, op)
            if fired:
                if exc is None or fault[0] in FAULTS and not self.carries(exc, fault[0]):
                    raise Violation('swallowed', 'an injected %s disappeared in %s (%r)' % (
                        fault[0], self.where(p, t), exc), op=op[0])
                if new and not (fault[0] in ASYNC and new == allowed and len(new) == 1):
                    raise Violation('partial-record', '%s failed but recorded %.200r' % (self.where(p, t), new))
                continue
            a = world.outcome(g, op)
            mine = ('exc', type(exc).__name__) if exc is not None else ('ok', canon(res))
            if op[0] not in ('str', 'norm') and mine not in (a, b) and not (fault and exc is not None):
                raise Violation('changed-after-failure', '%s gives %.200r, without the failure %.200r'
                                % (self.where(p, t), mine, a), op=op[0])
            if a[0] == 'ok' and exc is None and new and canon(h.record()[-1]) != canon(g.record()[-1]):
                raise Violation('changed-after-failure', '%s records another sample than without the failure'
                                % self.where(p, t), op=op[0])

    def run(self, p, ctx):
        if p['objs'][0]['kind'] not in ('finite', 'eval'):
            return self.run_other(p, ctx)
        h, g, g2 = self.make(p), self.make(p), self.make(p)
        seen = False
        for t, op in enumerate(p['ops']):
            fault = p['faults'].get(str(t))
            n0 = len(h.record())
            res, exc, fired, allowed = world.attempt(h, op, fault, seed_of(p['seed'], t), ctx.stats)
            ctx.stats.add('evaluations')
            new = [canon(x) for x in h.record()[n0:]] if op[0] != 'flush' else []
            ctx.state(p['objs'][0].get('rep', 'eval'), op[:2], fault and fault[0], fired, type(exc).__name__, h.state())
            ctx.ev(t, op, fault and fault[0], fired, type(exc).__name__, canon(res) if exc is None else None)
            if fired:
                if exc is None:
                    raise Violation('swallowed', 'an injected %s disappeared in %s' % (fault[0], self.where(p, t)),
                                    op=op[0])
                if fault[0] in FAULTS and not self.carries(exc, fault[0]):
                    raise Violation('replaced-error', 'an injected %s came out of %s as %s: %s' % (
                        fault[0], self.where(p, t), type(exc).__name__, exc), op=op[0])
                if new and not (fault[0] in ASYNC and new == allowed and len(new) == 1):
                    raise Violation('partial-record', '%s failed with %s but recorded %.200r'
                                    % (self.where(p, t), type(exc).__name__, h.record()[n0:]), op=op[0])
                seen = True
                world.outcome(g2, op)
                self.check_kernels(p, t, h)
                continue
            a, b = world.outcome(g, op), world.outcome(g2, op)
            mine = ('exc', type(exc).__name__) if exc is not None else ('ok', canon(res))
            if op[0] == 'str':
                if exc is not None:
                    raise Violation('broken-after-failure', 'str fails at %s: %s' % (self.where(p, t), exc))
                continue
            if not seen:
                if mine != a and not (fault and exc is not None):
                    raise Violation('not-reproducible', '%s: %.100r / %.100r' % (self.where(p, t), mine, a))
                continue
            if exc is None and h.recording(op):
                self.valid_entry(h, op, h.record()[-1])
            self.check_kernels(p, t, h)
            if mine == a or mine == b:
                ctx.stats.add('probe:same_as_unfaulted')
                continue
            if exc is not None:
                if h.expect(op) == 'any' and 'ok' not in (a[0], b[0]):
                    continue
                raise Violation('broken-after-failure', '%s fails with %s: %s (without the failure: %.80r)'
                                % (self.where(p, t), type(exc).__name__, exc, a), op=op[0])
            if a[0] == 'exc' and h.expect(op) != 'any':
                raise Violation('accepted-after-failure', '%s succeeds, without the failure it raises %s'
                                % (self.where(p, t), a[1]), op=op[0])
            if op[0] in ('K', 'L'):
                continue                        # values judged above
            ctx.stats.add('probe:law_escalation')
            self.law(p, t, ctx)

    @staticmethod
    def carries(exc, kind):
        if kind == 'interrupt':
            return isinstance(exc, FAULTS[kind])
        seen = 0
        while exc is not None and seen < 10:
            if isinstance(exc, FAULTS[kind]):
                return True
            exc, seen = exc.__cause__ or exc.__context__, seen + 1
        return False

    # -- law of a call on the damaged object ----------------------------------
    def damaged(self, p, t):
        h = self.make(p)
        for s in range(t):
            world.attempt(h, p['ops'][s], p['faults'].get(str(s)), seed_of(p['seed'], s), _NOSTATS)
        return h

    def clean(self, p, t):
        h = self.make(p)
        for s in range(t):
            if str(s) not in p['faults']:
                world.outcome(h, p['ops'][s])
        return h

    def draws(self, h, op, n, seed):
        obj, out = h.obj, []
        for i in range(n):
            h.obj = world.clone_obj(obj)
            rnd = np.random.RandomState(seed_of(seed, i))
            out.append(tuple(sorted(int(x) for x in h.do(op, rnd))))
        h.obj = obj
        return out

    def law(self, p, t, ctx):
        op = p['ops'][t]
        h = self.damaged(p, t)
        if h.N > 9:
            return
        law = exact_law(h, op)
        for stage, n, alpha in ((0, 800, ALPHA_SCREEN), (1, 4000, ALPHA_FINAL)):
            xs = self.draws(h, op, n, ('c08', p['seed'], t, stage))
            ctx.stats.add('law_draws', n)
            if law is not None:
                _, dof, pv = SetLaw(law, h.N).judge(np.array([mask_of(S) for S in xs]))
            else:
                g = self.clean(p, t)
                ys = self.draws(g, op, n, ('c08b', p['seed'], t, stage))
                pv = two_sample(xs, ys)
            ctx.ev('law', stage, '%.3g' % pv)
            if pv >= alpha:
                ctx.stats.add('probe:law_ok')
                return
        raise Violation('law-after-failure', '%s: law wrong, p=%.3g on %d draws' % (self.where(p, t), pv, n), op=op[0])


class _No(dict):
    def add(self, *a):
        pass


_NOSTATS = _No()


CHECK = C08()
