"""C09: user data and already returned results are never modified."""
import random

from .. import world
from ..core import Check, Violation
from ..seams import Scheduler, seed_of
from ..world import canon, snap

KINDS = ['interrupt', 'interrupt', 'memory', 'linalg', 'callback', 'warnings', 'fperr']
WEIGHTS = ['finite'] * 6 + ['eval'] * 4 + ['tree', 'beta', 'beta', 'jacobi', 'poly', 'proc', 'func', 'lib', 'lib']


def small(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + '...'


class C09(Check):
    id = 'C09'
    title = 'inputs and returned results unmodified'
    runs = {'quick': 12000, 'thorough': 150000}
    rule = ('seeded histories over objects built from (possibly shared) caller data in several memory layouts, '
            'with failures injected half-way, plots and thread schedules; all caller data and all earlier '
            'results are re-read bit by bit after every call')
    stub = ['thread scheduler (seeded, one thread at a time)', 'zonotope LP solver (cvxopt is not installed)']

    def gen(self, r, tier, i):
        nobj = r.choice([1, 1, 2, 3])
        p = world.gen_history(r, nobj, r.choice([3, 5, 8, 12]), kinds=WEIGHTS, plots=.04)
        p['mode'] = r.choice(['seq'] * 7 + ['threads', 'readonly', 'readonly'])
        p['share'] = {}
        if nobj > 1 and r.random() < .7:
            # the last object is built from the very same arrays as the first
            p['objs'][-1] = p['objs'][0]
            p['share'][str(nobj - 1)] = 0
            p['ops'] = [[j, world.gen_op(r, p['objs'][j], plots=.04) if j == nobj - 1 else op] for j, op in p['ops']]
        p['faults'] = {}
        if p['mode'] == 'readonly':
            p['objs'] = [dict(o, layout='ro', out='ro') for o in p['objs']]
        elif p['mode'] == 'seq' and r.random() < .6:
            for t, (j, op) in enumerate(p['ops']):
                if op[0] not in ('flush', 'plot') and r.random() < .35:
                    p['faults'][str(t)] = world.gen_fault(r, KINDS)
        if p['mode'] == 'threads':
            p['ops'] = [[j, op] for j, op in p['ops'] if op[0] != 'plot']
        return p

    def shrinks(self, plan):
        n = len(plan['ops'])
        for t in range(n):
            f = {str(int(k) - (int(k) > t)): v for k, v in plan['faults'].items() if int(k) != t}
            yield dict(plan, ops=plan['ops'][:t] + plan['ops'][t + 1:], faults=f)
        for k in plan['faults']:
            yield dict(plan, faults={q: v for q, v in plan['faults'].items() if q != k})
        if plan['share']:
            yield dict(plan, share={})

    @staticmethod
    def build(p):
        hs = []
        for j, s in enumerate(p['objs']):
            i = p['share'].get(str(j))
            hs.append(world.make(s, hs[i].inputs if i is not None else None))
        return hs

    def where(self, p, t):
        j, op = p['ops'][t]
        f = p['faults'].get(str(t))
        return '%s%s on %s' % (op, ' (fault %s)' % f if f else '', p['objs'][j])

    def run(self, p, ctx):
        if p['mode'] == 'threads':
            return self.run_threads(p, ctx)
        hs = self.build(p)
        data = [list(h.given) for h in hs]
        for j, ds in enumerate(data):      # the constructor is a library call too
            for q, (k, v, s) in enumerate(ds):
                now = snap(v)
                if now != s:
                    if not self.grown(v, s, now):
                        raise Violation('input-modified', 'building %s modified %s' % (p['objs'][j], k))
                    ds[q] = (k, v, now)
        held = []                          # (what, object returned, its content then)
        outs = []
        for t, (j, op) in enumerate(p['ops']):
            h = hs[j]
            h.last_inputs = []
            fault = p['faults'].get(str(t))
            fn = world.Watch(h)
            res, exc, fired, _ = fn.attempt(op, fault, seed_of(p['seed'], t), ctx.stats)
            ctx.stats.add('evaluations')
            ctx.state(p['objs'][j]['kind'], op[:2], p['objs'][j].get('layout'), fault and fault[0], fired,
                      type(exc).__name__, bool(p['share']))
            ctx.ev(t, j, op[0], type(exc).__name__)
            outs.append(('exc', type(exc).__name__) if exc is not None else ('ok', canon(res)))
            for what, old, now in fn.changes():
                raise Violation('argument-modified', '%s modified its argument %s: %s -> %s'
                                % (self.where(p, t), what, small(old), small(now)), op=op[0])
            for i, ds in enumerate(data):
                for q, (k, v, s) in enumerate(ds):
                    now = snap(v)
                    if now != s:
                        if self.grown(v, s, now):
                            ds[q] = (k, v, now)
                            continue
                        raise Violation('input-modified', '%s modified %s given to build %s'
                                        % (self.where(p, t), k, p['objs'][i]), op=op[0])
            for what, x, c in held:
                if canon(x) != c:
                    raise Violation('result-modified', '%s modified what %s had returned: now %s'
                                    % (self.where(p, t), what, small(x)), op=op[0])
            if exc is None and res is not None and not isinstance(res, str):
                held.append((self.where(p, t), res, canon(res)))
            for i, g in enumerate(hs):
                for k in ('K', 'L'):
                    M = getattr(g.obj, k, None)
                    if isinstance(M, world.np.ndarray) and not any(x is M for _, x, _ in held):
                        held.append(('%s of %s' % (k, p['objs'][i]), M, canon(M)))
            ctx.stats.add('held_checked', len(held))
        if p['share'] and not p['faults']:
            # sharing the arrays makes no difference
            self.alone(p, outs, 'the arrays are shared with another object', ctx)
        if p['mode'] == 'readonly':
            q = dict(p, objs=[dict(o, layout='C', out='') for o in p['objs']], share={})
            self.alone(q, outs, 'the arrays are read-only', ctx)

    def alone(self, p, outs, what, ctx):
        ref = world.run_sequence(dict(p, ops=[[j, op] for j, op in p['ops']]))
        for t, (a, b) in enumerate(zip(outs, ref)):
            if a != b and p['ops'][t][1][0] not in ('plot',):
                raise Violation('influenced', '%s gives %.150r when %s, otherwise %.150r'
                                % (self.where(p, t), a, what, b), op=p['ops'][t][1][0])
        ctx.stats.add('probe:compared_alone')

    @staticmethod
    def grown(v, s, now):
        """A memoising likelihood function may have answered new questions."""
        f = v[0] if isinstance(v, tuple) else v
        if not isinstance(f, world.EvalL):
            return False
        if isinstance(v, tuple):
            if s[0] != now[0] or s[2:] != now[2:]:
                return False
            s, now = s[1], now[1]
        return s is not None and now[:len(s)] == s

    def run_threads(self, p, ctx):
        """Objects on shared arrays used by concurrent threads."""
        hs = self.build(p)
        data = [[(k, v, snap(v)) for k, v in sorted(h.inputs.items())] for h in hs]
        by = {}
        for t, (j, op) in enumerate(p['ops']):
            by.setdefault(j, []).append((t, op))
        raw, then = [None] * len(p['ops']), [None] * len(p['ops'])

        def body(j):
            def f():
                for t, op in by[j]:
                    try:
                        raw[t] = hs[j].perform(op)
                        then[t] = 'ok', canon(raw[t])
                    except Exception as e:
                        then[t] = 'exc', type(e).__name__
            return f
        s = Scheduler(seed_of(p['seed'], 'sched'), switch_rate=random.Random(p['seed']).choice([.02, .2, .6]))
        s.run([body(j) for j in sorted(by)])
        ctx.stats.add('fault:preemption', s.switches)
        ctx.stats.add('evaluations', len(p['ops']))
        ctx.state('sched', tuple(s.trace))
        ctx.ev('sched', s.switches)
        for i, ds in enumerate(data):
            for k, v, c in ds:
                now = snap(v)
                if now != c and not self.grown(v, c, now):
                    raise Violation('input-modified', 'concurrent calls modified %s given to build %s' % (k, p['objs'][i]))
        for t, x in enumerate(raw):
            if then[t] and then[t][0] == 'ok' and canon(x) != then[t][1]:
                raise Violation('result-modified', 'concurrent calls modified what %s had returned' % self.where(p, t))
        self.alone(p, then, 'other threads use the same arrays', ctx)


CHECK = C09()
