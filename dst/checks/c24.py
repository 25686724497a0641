"""C24: successive samples are independent of each other and of history."""
import numpy as np
from scipy import stats as st

from .. import world
from ..core import Check, Violation
from ..seams import CallFaults, InjectedKeyboardInterrupt, InjectedMemoryError, quiet, seed_of
from ..stat import ALPHA_FINAL, ALPHA_SCREEN

KINDS = ['finite'] * 5 + ['eval', 'tree', 'tree', 'beta', 'beta', 'jacobi', 'poly', 'proc', 'proc', 'func']
CYCLES = {'finite': 500, 'eval': 120, 'tree': 400, 'beta': 500, 'jacobi': 200, 'poly': 250, 'proc': 500, 'func': 150}
SEEDING = ['shared', 'shared', 'shared', 'global', 'ints', 'ints', 'module', 'mixed']
NOISE = ('flush', 'str', 'K', 'L', 'kernel', 'vecs', 'norm', 'info')


def draws(op):
    return world.uses_randomness(op) and op[0] not in ('K', 'w', 'norm')


def simple(x, nodes):
    """(discrete label or None, {feature name: value})"""
    if hasattr(x, 'edges'):
        x = sorted(tuple(sorted((nodes[a], nodes[b]))) for a, b in x.edges())
        return tuple(x), {'e%d-%d' % e: 1 for e in x}
    if isinstance(x, tuple) and x and any(isinstance(v, np.ndarray) for v in x):       # bless
        ind = x[1] if not np.isscalar(x[0]) else x[0]
        for v in x:
            if isinstance(v, np.ndarray) and v.dtype.kind in 'iu' and v.ndim == 1:
                ind = v
        ind = sorted(int(v) for v in np.ravel(ind))
        return tuple(ind), dict({'i%d' % v: 1 for v in ind}, size=len(ind))
    a = np.asarray(x)
    if a.size and a.dtype.kind in 'fc':
        v = np.ravel(a)
        v = np.r_[v.real, v.imag] if a.dtype.kind == 'c' else v
        f = {'c%d' % i: float(y) for i, y in enumerate(v[:6])}
        f.update(n=len(v), sum=float(v.sum()), max=float(v.max()), min=float(v.min()), sq=float((v ** 2).sum()))
        return None, f
    v = [int(y) for y in np.ravel(a)]
    if v and len(set(v)) == len(v):
        return tuple(sorted(v)), dict({'i%d' % y: 1 for y in v}, size=len(v), first=v[0])
    return tuple(v), {'size': len(v)}


class C24(Check):
    id = 'C24'
    title = 'successive samples are independent'
    runs = {'quick': 700, 'thorough': 9000}
    rule = ('seeded (objects, cycle of sampling calls, other calls and failures in between, way of seeding) '
            'configurations; the cycle is repeated some hundred times and every pair of calls of a cycle, and of '
            'consecutive cycles, is tested for independence (exact hypergeometric tests on binary features, two '
            'stages); a continuous sample may never come twice')
    assumptions = ['MCMC calls draw from one start state per call: distinct calls are independent chains']
    state_measure = 'distinct (class, calls of the cycle, seeding, object sharing, disturbance) tuples'

    def gen(self, r, tier, i):
        nobj = r.choice([1, 1, 1, 2])
        k0 = r.choice(KINDS)
        objs = []
        for _ in range(nobj):
            objs.append(world.gen_obj(r, [k0 if r.random() < .7 else r.choice(KINDS)]))
        if nobj == 2 and objs[0]['kind'] == objs[1]['kind'] and r.random() < .4:
            objs[1] = dict(objs[0])
        ops = []
        want = r.choice([1, 2, 2, 3])
        for _ in range(60):
            if len(ops) >= want:
                break
            j = r.randrange(nobj)
            op = world.gen_op(r, objs[j], bad=False)
            if draws(op):
                ops.append([j, op])
                if len(ops) < want and r.random() < .4:
                    ops.append([j, list(op)])
        noise = []
        for _ in range(r.choice([0, 0, 1, 2])):
            j = r.randrange(nobj)
            op = world.gen_op(r, objs[j], bad=True)
            noise.append([r.randrange(len(ops) + 1), j, op, r.choice([None, 'interrupt', 'memory']), r.randrange(80)])
        return {'objs': objs, 'ops': ops, 'noise': noise, 'seeding': r.choice(SEEDING),
                'fresh': r.random() < .25, 'n': min([CYCLES[o['kind']] for o in objs]) * (2 if tier == 'thorough' else 1)}

    def shrinks(self, p):
        yield from super().shrinks(p)
        for j in range(len(p['noise'])):
            yield dict(p, noise=p['noise'][:j] + p['noise'][j + 1:])
        if p['fresh']:
            yield dict(p, fresh=False)
        if p['seeding'] != 'shared':
            yield dict(p, seeding='shared')

    # ----------------------------------------------------------------------
    def simulate(self, p, ctx, stage, n):
        s = seed_of(p['seed'], 'c24', stage)
        hs = [world.make(o) for o in p['objs']]
        gen = np.random.RandomState(s % 2 ** 32)
        np.random.seed((s + 1) % 2 ** 32)
        base = s % 10 ** 6
        count = [0]

        def rnd(slot):
            how = p['seeding']
            if how == 'mixed':
                how = ['shared', 'global', 'ints'][(slot + count[0]) % 3]
            count[0] += 1
            return {'shared': gen, 'global': 'none', 'module': np.random, 'ints': base + count[0]}[how]

        out = [[] for _ in p['ops']]
        for t in range(n):
            if p['fresh'] and t:
                hs = [world.make(o) for o in p['objs']]
            for slot in range(len(p['ops']) + 1):
                for at, j, op, kind, where in p['noise']:
                    if at == slot:
                        self.disturb(hs[j], op, kind, where + t % 7, rnd(slot), ctx)
                if slot == len(p['ops']):
                    break
                j, op = p['ops'][slot]
                h = hs[j]
                try:
                    x = h.do(op, rnd(slot))
                except Exception as e:
                    out[slot].append(None)           # an explicit error: no sample (which errors are allowed is C01-C17's business)
                    continue
                if x is None and h.record():
                    x = h.record()[-1]
                nodes = {v: k for k, v in enumerate(h.G.nodes())} if hasattr(h, 'G') else None
                out[slot].append(simple(x, nodes))
                rec = h.record()
                if isinstance(rec, list) and len(rec) > 40:
                    h.obj.flush_samples() if h.has_flush and hasattr(h.obj, 'flush_samples') else None
        ctx.stats.add('evaluations', n * len(p['ops']))
        return out

    @staticmethod
    def disturb(h, op, kind, where, rnd, ctx):
        rnd = rnd if world.uses_randomness(op) else None
        try:
            if kind:
                with CallFaults(kind, where) as c:
                    h.perform(op, rnd)
            else:
                h.perform(op, rnd)
        except (Exception, InjectedKeyboardInterrupt, InjectedMemoryError):
            pass
        if kind and c.fired:
            ctx.stats.add('fault:' + kind)

    @staticmethod
    def columns(res):
        """Binary feature columns (name, 0/1 array) of one slot's results."""
        ok = np.array([x is not None for x in res])
        n = int(ok.sum())
        if n < 40:
            return ok, []
        res = [x if x is not None else (None, {}) for x in res]
        labels = [l for l, _ in res]
        names = sorted({k for _, f in res for k in f})
        if len(names) > 24:
            freq = {k: sum(k in f for _, f in res) for k in names}
            names = sorted(sorted(names, key=lambda k: (abs(freq[k] - n / 2), k))[:24])
        cols = []
        for k in names:
            v = np.array([f.get(k, 0) for _, f in res], float)
            m = np.median(v[ok])
            for b in ((v > m) & ok, (v < m) & ok):
                if 10 <= b.sum() <= n - 10:
                    cols.append((k, b))
                    break
        if any(l is not None for l in labels):
            c = {}
            for l in labels:
                if l is not None:
                    c[l] = c.get(l, 0) + 1
            for l in sorted(sorted(c, key=repr), key=lambda l: -c[l])[:3]:
                b = np.array([x == l for x in labels])
                if 10 <= b.sum() <= n - 10:
                    cols.append(('=%s' % (l,), b))
        return ok, cols

    def judge(self, p, out):
        """(smallest corrected p-value, description)"""
        best, tests, n = (1.0, ''), 0, len(out[0])
        C = [self.columns(res) for res in out]
        pairs = []
        for a in range(len(out)):
            for b in range(a + 1, len(out)):
                pairs.append((a, b, slice(0, n), slice(0, n), 'in one cycle'))
            for b in range(len(out)):
                if a >= b:
                    m = n - n % 2
                    if a == b:
                        pairs.append((a, b, slice(0, m, 2), slice(1, m, 2), 'in consecutive cycles'))
                    else:
                        pairs.append((a, b, slice(0, n - 1), slice(1, n), 'in consecutive cycles'))
        for a, b, sa, sb, when in pairs:
            keep = C[a][0][sa] & C[b][0][sb]
            for ka, fa in C[a][1]:
                for kb, fb in C[b][1]:
                    x, y = fa[sa][keep], fb[sb][keep]
                    N, K, M, both = len(x), int(x.sum()), int(y.sum()), int((x & y).sum())
                    tests += 1
                    q = min(1.0, 2 * min(st.hypergeom.cdf(both, N, K, M), st.hypergeom.sf(both - 1, N, K, M)))
                    if q < best[0]:
                        best = (q, 'calls %d and %d %s: features %s and %s agree %d times, %d x %d of %d'
                                % (a, b, when, ka, kb, both, K, M, N))
        return min(1.0, best[0] * max(tests, 1)), best[1], tests

    def run(self, p, ctx):
        with quiet():
            self.inner(p, ctx)

    def inner(self, p, ctx):
        out = self.simulate(p, ctx, 0, p['n'])
        self.twice(p, out)
        q, what, tests = self.judge(p, out)
        ctx.stats.add('independence_tests', tests)
        ctx.ev('%.4g' % q, tests)
        desc = [o['kind'] for o in p['objs']], [op[0] for _, op in p['ops']]
        ctx.state(*desc, p['seeding'], p['fresh'], [(x[2][0], x[3]) for x in p['noise']])
        if tests:
            ctx.nontrivial = '%s-%s' % (desc, p['seed'])
        if q < ALPHA_SCREEN:
            ctx.stats.add('probe:escalated')
            q2, what, _ = self.judge(p, self.simulate(p, ctx, 1, 4 * p['n']))
            if q2 < ALPHA_FINAL:
                raise Violation('dependent', '%s %s, %s seeding: %s (p=%.3g then p=%.3g)'
                                % (desc + (p['seeding'], what, q, q2)))

    @staticmethod
    def twice(p, out):
        """A continuous law never gives the same sample twice."""
        seen = {}
        for slot, res in enumerate(out):
            j, op = p['ops'][slot]
            o = p['objs'][j]
            if not (o['kind'] in ('beta', 'jacobi') or o['kind'] == 'poly' and op[3]):
                continue
            for t, x in enumerate(res):
                if x is None:
                    continue
                lab, f = x
                v = tuple(f.get('c%d' % i) for i in range(6))
                if lab is not None or not any(y is not None and 1e-9 < abs(y) and abs(abs(y) - 1) > 1e-9 for y in v):
                    continue
                key = (repr(o), repr(v))
                if key in seen and seen[key] != (slot, t):
                    raise Violation('same-sample-twice', '%s %s: call %d of cycle %d and call %d of cycle %d return '
                                    'the same points' % (o['kind'], op[0], *seen[key], slot, t))
                seen[key] = (slot, t)


CHECK = C24()
