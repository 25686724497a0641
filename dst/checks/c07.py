"""C07: every sampling call records exactly its own result; flush empties."""
import random

from .. import world
from ..core import Check, Violation
from ..seams import Scheduler, seed_of
from ..world import canon

ASYNC = ('interrupt', 'memory')


class C07(Check):
    id = 'C07'
    title = 'records of sampling calls'
    runs = {'quick': 10000, 'thorough': 120000}
    rule = ('seeded histories over 1-3 live objects of every kind, with rejected calls, injected failures, '
            'flushes, plots and thread schedules; the record of every object is compared with a model list '
            'after every call')
    stub = ['thread scheduler (seeded, one thread at a time)', 'zonotope LP solver (cvxopt is not installed)']
    assumptions = ['a call interrupted between recording and returning may leave its complete sample recorded']

    def gen(self, r, tier, i):
        p = world.gen_history(r, r.choice([1, 1, 2, 3]), r.choice([3, 6, 9, 14]), plots=.03)
        p['mode'] = r.choice(['seq'] * 8 + ['threads'])
        p['faults'] = {}
        if p['mode'] == 'seq' and r.random() < .6:
            for t, (j, op) in enumerate(p['ops']):
                if op[0] not in ('flush', 'plot') and r.random() < .3:
                    p['faults'][str(t)] = world.gen_fault(r, ['interrupt', 'interrupt', 'memory', 'linalg', 'callback'])
        if p['mode'] == 'threads':
            p['ops'] = [[j, op] for j, op in p['ops'] if op[0] != 'plot']
        return p

    def shrinks(self, plan):
        n = len(plan['ops'])
        for t in range(n):
            f = {str(int(k) - (int(k) > t)): v for k, v in plan['faults'].items() if int(k) != t}
            yield dict(plan, ops=plan['ops'][:t] + plan['ops'][t + 1:], faults=f)
        for k in plan['faults']:
            yield dict(plan, faults={q: v for q, v in plan['faults'].items() if q != k})

    # -- helpers ------------------------------------------------------------
    @staticmethod
    def recs(h):
        return None if h.record() is None else [canon(x) for x in h.record()]

    @staticmethod
    def where(p, t):
        j, op = p['ops'][t]
        return '%s on %s' % (op, {k: v for k, v in p['objs'][j].items() if k != 'seed'})

    def check_str(self, h, n, txt, p, t):
        m = world.COUNT.search(txt)
        if m and int(m.group(1)) != n:
            raise Violation('wrong-count', '%s says %s samples, %d recorded' % (self.where(p, t), m.group(1), n))

    def run(self, p, ctx):
        if p['mode'] == 'threads':
            return self.run_threads(p, ctx)
        hs = [world.make(s) for s in p['objs']]
        model = [self.recs(h) for h in hs]
        twin = None
        if not p['faults'] and any(op[0] == 'flush' for _, op in p['ops']):
            twin = [world.make(s) for s in p['objs']]
            history = [[] for _ in hs]
            flushed = [False] * len(hs)
        for t, (j, op) in enumerate(p['ops']):
            h = hs[j]
            fault = p['faults'].get(str(t))
            h.n_diag = len(getattr(h.obj, 'list_of_young_diag', ()))
            res, exc, fired, allowed = world.attempt(h, op, fault, seed_of(p['seed'], t), ctx.stats)
            ctx.stats.add('evaluations')
            ctx.state(p['objs'][j]['kind'], op[0], type(exc).__name__, fault and fault[0], fired,
                      len(model[j] or []) > 0)
            ctx.ev(t, j, op[0], type(exc).__name__, len(h.record() or []))
            self.judge(p, t, hs, model, res, exc, fired and fault[0], allowed)
            if twin:
                self.twin(p, t, twin, history, flushed, h, op, res, exc)
        if twin:
            for j, h in enumerate(hs):
                if twin[j].record() is not None and self.recs(twin[j]) != history[j]:
                    raise Violation('flush-changes-results', 'records of %s differ when flush calls are '
                                    'left out: %s' % (p['objs'][j], [o for i, o in p['ops'] if i == j]))
            ctx.stats.add('probe:flush_twin')

    def judge(self, p, t, hs, model, res, exc, fault, allowed):
        j, op = p['ops'][t]
        h = hs[j]
        what = self.where(p, t)
        for i, g in enumerate(hs):
            now = self.recs(g)
            if model[i] is None:
                continue
            old = model[i]
            if i != j:
                if now != old:
                    raise Violation('record-of-other-object', '%s changed the record of %s' % (what, p['objs'][i]))
                continue
            if op[0] == 'flush' and exc is None:
                if now:
                    raise Violation('flush-leaves-entries', '%s left %d entries' % (what, len(now)))
                model[i] = now
                continue
            if now[:len(old)] != old:
                raise Violation('earlier-entry-changed', '%s changed earlier entries (%d recorded before, %d now)'
                                % (what, len(old), len(now)))
            new = now[len(old):]
            if exc is not None:
                if new and not (fault in ASYNC and new == allowed and len(new) == 1):
                    raise Violation('failed-call-recorded', '%s failed with %s but recorded %.200r'
                                    % (what, type(exc).__name__, g.record()[len(old):]), op=op[0])
            elif not g.recording(op):
                if new:
                    raise Violation('extra-record', '%s is no sampling call but recorded %d entries' % (what, len(new)))
            elif fault and not new:
                # a swallowed failure must still be a complete call
                raise Violation('not-recorded', '%s swallowed an injected %s and recorded nothing' % (what, fault))
            else:
                if len(new) != 1:
                    raise Violation('not-one-record', '%s recorded %d entries' % (what, len(new)), op=op[0])
                if res is not None and canon(res) != canon(g.returned_part(op, g.record()[-1])):
                    raise Violation('record-differs', '%s returned %.200r but recorded %.200r'
                                    % (what, res, g.record()[-1]), op=op[0])
                if not fault:
                    self.own(p, t, op, new[0])
                young = getattr(g.obj, 'list_of_young_diag', None)
                if young is not None and len(young) != g.n_diag + 1:
                    raise Violation('diagram-count', '%s added %d diagrams' % (what, len(young) - g.n_diag))
            model[i] = now
        if op[0] == 'str' and exc is None and model[j] is not None:
            self.check_str(h, len(model[j]), res, p, t)

    def own(self, p, t, op, entry):
        """Objects whose samplers keep no state: the entry of a fresh object."""
        j, op = p['ops'][t]
        sp = p['objs'][j]
        if not (sp['kind'] in ('beta', 'proc') or sp['kind'] == 'tree' and op[1] in ('Wilson', 'Aldous-Broder')):
            return
        g = world.make(sp)
        g.perform(op)
        if canon(g.record()[-1]) != entry:
            raise Violation('record-of-another-call', '%s recorded %.200r; the same call on a fresh object '
                            'records %.200r' % (self.where(p, t), entry, g.record()[-1]))

    def twin(self, p, t, twin, history, flushed, h, op, res, exc):
        j, op = p['ops'][t]
        if op[0] == 'flush':
            flushed[j] = True
            return
        if h.record() is not None and exc is None and h.recording(op):
            history[j].append(canon(h.record()[-1]))
        out = world.outcome(twin[j], op)
        mine = ('exc', type(exc).__name__) if exc is not None else ('ok', canon(res))
        if op[0] in ('str', 'norm', 'plot') and flushed[j]:
            return                             # these look at the record
        if out != mine:
            raise Violation('flush-changes-results', '%s gives %.200r, but %.200r when the earlier flush calls are '
                            'left out' % (self.where(p, t), mine, out))

    def run_threads(self, p, ctx):
        """The records of objects used in different threads are those of a sequential run."""
        def fresh():
            hs = [world.make(s) for s in p['objs']]
            by = {}
            for j, op in p['ops']:
                by.setdefault(j, []).append(op)

            def body(j):
                return lambda: [world.outcome(hs[j], op)[0] for op in by[j]]
            return hs, [body(j) for j in sorted(by)]
        hs, fns = fresh()
        for f in fns:
            f()
        ref = [self.recs(h) for h in hs]
        hs, fns = fresh()
        s = Scheduler(seed_of(p['seed'], 'sched'), switch_rate=random.Random(p['seed']).choice([.02, .2, .6]))
        s.run(fns)
        ctx.stats.add('fault:preemption', s.switches)
        ctx.stats.add('evaluations', len(p['ops']))
        ctx.state('sched', tuple(s.trace))
        ctx.ev('sched', s.switches, len(ref))
        got = [self.recs(h) for h in hs]
        for j, (a, b) in enumerate(zip(ref, got)):
            if a != b:
                raise Violation('record-mixed-by-threads', 'record of %s has %d entries under concurrency, differs '
                                'from the sequential %d' % (p['objs'][j], len(b), len(a)))


CHECK = C07()
