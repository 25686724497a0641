"""C06: same seed, same sample, whatever else happens in the process."""
import json
import os
import random
import subprocess

import numpy as np

from .. import hashchild, world
from ..core import PY, VERIF, Check, Violation
from ..seams import Scheduler, SimClock, SimRandomState, seed_of

VARIANTS = ['repeat', 'repeat', 'interleave', 'interleave', 'threads', 'threads', 'types', 'stream', 'advance']


class C06(Check):
    id = 'C06'
    title = 'randomness is reproducible and isolated'
    runs = {'quick': 6000, 'thorough': 120000}
    rule = ('seeded (objects, calls, variant) configurations: the same calls are repeated with other global '
            'generators and clock, interleaved with other objects, in concurrently scheduled threads, with '
            'other ways of passing the seed, under other hash seeds; every result must be identical bit by bit')
    stub = ['clock (simulated)', 'thread scheduler (seeded, one thread at a time)']
    assumptions = ['MCMC calls with a time limit are excluded here (their length depends on the clock: C05)']

    def gen(self, r, tier, i):
        if i % 130 == 7:
            return {'mode': 'hashseed', 'hash': r.randrange(1, 1000), 'ops': [],
                    'plans': [world.gen_history(r, 2, 4, kinds=world.WEIGHTS + ['tree'] * 8) for _ in range(30)]}
        p = world.gen_history(r, r.choice([1, 2, 2, 3]), r.choice([2, 3, 5, 8]))
        p['mode'] = r.choice(VARIANTS)
        if p['mode'] == 'threads' and len(p['objs']) == 1:
            p['objs'] = p['objs'] * 2
            p['ops'] = p['ops'] + [[1, op] for _, op in p['ops']]
        p['noise'] = world.gen_history(r, 2, 6) if p['mode'] in ('repeat', 'interleave') and r.random() < .6 else None
        return p

    def shrinks(self, plan):
        yield from super().shrinks(plan)
        if plan.get('noise'):
            yield dict(plan, noise=None)
        if plan['mode'] == 'hashseed' and len(plan['plans']) > 1:
            for q in plan['plans']:
                yield dict(plan, plans=[q])

    # -- comparisons --------------------------------------------------------
    @staticmethod
    def compare(plan, ref, got, what):
        for t, (a, b) in enumerate(zip(ref, got)):
            if a != b:
                j, op = plan['ops'][t]
                o = plan['objs'][j]
                raise Violation('not-reproducible:' + what, '%s on %s gives a different result %s: %.200r / %.200r'
                                % (op, {k: v for k, v in o.items() if k != 'seed'}, what, a, b),
                                kind=o['kind'], op=op[0])

    def run(self, p, ctx):
        if p['mode'] == 'hashseed':
            return self.run_hash(p, ctx)
        np.random.seed(seed_of(p['seed'], 'g1'))
        random.seed(seed_of(p['seed'], 'g1'))
        ref = world.run_sequence(p)
        for (j, op), res in zip(p['ops'], ref):
            ctx.ev(j, op[0], hash_(res))
            ctx.state(p['mode'], p['objs'][j]['kind'], op[:2], res[0])
            ctx.stats.add('op:' + p['objs'][j]['kind'])
        ctx.stats.add('evaluations', len(ref))
        ctx.stats.add('variant_' + p['mode'])
        getattr(self, 'run_' + p['mode'])(p, ctx, ref)

    def run_repeat(self, p, ctx, ref):
        r = random.Random(seed_of(p['seed'], 'rep'))
        if p['noise']:
            world.run_sequence(p['noise'])
        state = {}

        def around(t, op, after):
            if not world.uses_randomness(op):
                return
            now = (np.random.get_state()[1].tobytes(), np.random.get_state()[2:], random.getstate())
            if after:
                if now != state['s']:
                    raise Violation('global-generator-touched', '%r consumed the global random state although '
                                    'given an explicit one' % op, op=op[0])
            else:
                np.random.seed(r.getrandbits(32))
                np.random.rand(r.randrange(3))
                random.seed(r.getrandbits(32))
                state['s'] = (np.random.get_state()[1].tobytes(), np.random.get_state()[2:], random.getstate())
        clock = SimClock(wall0=r.uniform(0, 2e9), read_cost=10 ** r.uniform(-6, 1))
        with clock:
            got = world.run_sequence(p, around=around)
        ctx.sim_time += clock.mono - 1000.0
        ctx.stats.add('fault:global_state_perturbed')
        self.compare(p, ref, got, 'when repeated with another global state and clock')

    def run_interleave(self, p, ctx, ref):
        r = random.Random(seed_of(p['seed'], 'il'))
        # a random merge of the per-object sequences
        queues = {}
        for t, (j, op) in enumerate(p['ops']):
            queues.setdefault(j, []).append(t)
        order = []
        while queues:
            j = r.choice(sorted(queues))
            order.append(queues[j].pop(0))
            if not queues[j]:
                del queues[j]
        ctx.state('order', tuple(p['ops'][t][0] for t in order))
        if p['noise']:
            hs = [world.make(s) for s in p['noise']['objs']]
            ns = list(p['noise']['ops'])

            def around(t, op, after):
                if not after and ns:
                    j, o = ns.pop(0)
                    world.outcome(hs[j], o)
        else:
            around = None
        got = world.run_sequence(p, order=order, around=around)
        self.compare(p, ref, got, 'when other objects are used in between')

    def run_threads(self, p, ctx, ref):
        by = {}
        for t, (j, op) in enumerate(p['ops']):
            by.setdefault(j, []).append((t, op))
        got = [None] * len(ref)
        hs = {j: world.make(p['objs'][j]) for j in by}

        def body(j):
            def f():
                for t, op in by[j]:
                    got[t] = world.outcome(hs[j], op)
            return f
        s = Scheduler(seed_of(p['seed'], 'sched'), switch_rate=random.Random(p['seed']).choice([.02, .2, .6]))
        res = s.run([body(j) for j in sorted(by)])
        for x in res:
            if x[0] != 'ok':
                raise Violation('thread-failed', x[1])
        ctx.stats.add('thread_switches', s.switches)
        ctx.stats.add('fault:preemption', s.switches)
        ctx.state('sched', hash_(tuple(s.trace)))
        ctx.ev('sched', s.switches)
        self.compare(p, ref, got, 'under another thread interleaving')

    def run_types(self, p, ctx, ref):
        r = random.Random(seed_of(p['seed'], 'ty'))

        def rnd(t, j, op):
            s = op[-1]
            return r.choice([lambda: np.random.RandomState(s), lambda: np.int64(s), lambda: np.uint32(s),
                             lambda: SimRandomState(s)])()
        self.compare(p, ref, world.run_sequence(p, rnd_of=rnd), 'when the seed is passed as a generator')

    def run_stream(self, p, ctx, ref):
        outs = []
        for rep in range(2):
            gens = {j: np.random.RandomState(seed_of(p['seed'], 'st', j)) for j in range(len(p['objs']))}
            outs.append((world.run_sequence(p, rnd_of=lambda t, j, op: gens[j]),
                         [g.get_state()[1].tobytes() for g in gens.values()]))
            np.random.seed(rep)
        self.compare(p, outs[0][0], outs[1][0], 'when one generator is used for the whole sequence')
        if outs[0][1] != outs[1][1]:
            raise Violation('generator-state-differs', 'same calls leave the passed generator in another state')

    def run_advance(self, p, ctx, ref):
        """A generator is advanced by exactly the calls that use randomness."""
        moved = {}

        def rnd(t, j, op):
            moved[t] = [np.random.RandomState(op[-1])]
            moved[t].append(world.canon(moved[t][0].get_state()[1:3]))
            return moved[t][0]
        got = world.run_sequence(p, rnd_of=rnd)
        self.compare(p, ref, got, 'when the seed is passed as a generator')
        for t, (g, s0) in sorted(moved.items()):
            if got[t][0] != 'ok' or world.canon(g.get_state()[1:3]) != s0:
                continue
            for alt in range(3):
                q = json.loads(json.dumps(p))
                q['ops'][t][1][-1] = seed_of('alt', alt)
                if p['ops'][t][1][0] in ('mcmc', 'kmcmc', 'zonotope', 'K', 'w'):
                    break                      # the harness derives the start from it
                if world.run_sequence(q)[t] != ref[t]:
                    raise Violation('generator-not-advanced', '%r is random but leaves the passed generator '
                                    'untouched' % p['ops'][t][1], op=p['ops'][t][1][0])
            ctx.stats.add('probe:no_draw')

    def run_hash(self, p, ctx):
        mine = [hashchild.digest(q) for q in p['plans']]
        env = dict(os.environ, PYTHONHASHSEED=str(p['hash']))
        c = subprocess.run([PY, '-W', 'ignore', '-m', 'dst.hashchild'], cwd=VERIF, env=env, text=True,
                           input=json.dumps(p['plans']), capture_output=True, timeout=200)
        if c.returncode:
            raise RuntimeError(c.stderr[-2000:])
        got = json.loads(c.stdout)
        ctx.stats.add('evaluations', len(got))
        ctx.stats.add('fault:hash_seed_changed', len(got))
        for q, a, b in zip(p['plans'], mine, got):
            ctx.ev('hash', a)
            if a != b:
                raise Violation('hash-seed-dependence', 'calls %r on %r give different results under '
                                'PYTHONHASHSEED=%d' % (q['ops'], q['objs'], p['hash']))


def hash_(x):
    import hashlib
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


CHECK = C06()
