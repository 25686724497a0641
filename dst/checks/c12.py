"""C12: uniform spanning trees, every mode, root and call history."""
import itertools
import random

import networkx as nx
import numpy as np

from ..core import Violation
from ..law import LawCheck, MarginalLaw
from ..seams import BudgetRandomState, SimRandomState, rs, seed_of
from ..stat import g_test

MODES = ['Wilson', 'Aldous-Broder', 'GS', 'Schur', 'Chol']
WALK = ('Wilson', 'Aldous-Broder')


def build(spec):
    g = rs('graph', spec['seed'])
    kind, n = spec['kind'], spec['n']
    if kind == 'path':
        E = [(i, i + 1) for i in range(n - 1)]
    elif kind == 'star':
        E = [(0, i) for i in range(1, n)]
    elif kind == 'cycle':
        E = [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(0, 1)]
    elif kind == 'complete':
        E = list(itertools.combinations(range(n), 2))
    elif kind == 'wheel':
        E = [(0, i) for i in range(1, n)] + [(i, i + 1) for i in range(1, n - 1)]
        if n > 3:
            E.append((1, n - 1))
    elif kind == 'bipartite':
        h = max(1, n // 2)
        E = [(i, j) for i in range(h) for j in range(h, n)]
    elif kind == 'lollipop':
        h = max(2, n - n // 3)
        E = list(itertools.combinations(range(h), 2)) + [(i, i + 1) for i in range(h - 1, n - 1)]
    else:                               # random connected
        E = [(i, int(g.randint(i))) for i in range(1, n)]
        extra = [e for e in itertools.combinations(range(n), 2)
                 if e not in E and e[::-1] not in E]
        for j in g.permutation(len(extra))[:spec.get('extra', 3)]:
            E.append(extra[j])
    perm = g.permutation(n) if spec['relabel'] else np.arange(n)
    names = {'int': lambda i: int(i), 'shift': lambda i: int(i) + 3,
             'str': lambda i: 'v%d' % i, 'tuple': lambda i: (int(i) // 2, int(i) % 2)}[spec['labels']]
    G = nx.Graph()
    if spec['relabel'] and g.rand() < .5:
        G.add_nodes_from(names(i) for i in g.permutation(n))
    order = g.permutation(len(E)) if spec['relabel'] else range(len(E))
    for t in order:
        a, b = E[t]
        a, b = names(perm[a]), names(perm[b])
        if spec['relabel'] and g.rand() < .5:
            a, b = b, a
        G.add_edge(a, b)
    if spec['loops']:
        vs = list(G.nodes())
        for j in g.permutation(len(vs))[:1 + len(vs) // 3]:
            G.add_edge(vs[j], vs[j])
    return G


def key(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


class TreeLaw:
    def __init__(self, G, enum):
        self.nodes = list(G.nodes())
        self.edges = sorted({key(a, b) for a, b in G.edges() if a != b}, key=repr)
        self.idx = {e: i for i, e in enumerate(self.edges)}
        n, m = len(self.nodes), len(self.edges)
        vi = {v: i for i, v in enumerate(self.nodes)}
        B = np.zeros((n, m))
        for j, (a, b) in enumerate(self.edges):
            B[vi[a], j], B[vi[b], j] = 1, -1
        self.B, self.n, self.m = B, n, m
        self.trees = None
        ntrees = round(np.linalg.det(B[1:].dot(B[1:].T)))
        if enum and ntrees <= 400:
            self.trees = {}
            for T in itertools.combinations(range(m), n - 1):
                if abs(np.linalg.det(B[1:][:, T])) > .5:
                    self.trees[T] = len(self.trees)
            assert len(self.trees) == ntrees
        else:
            K = np.linalg.pinv(B).dot(B)
            self.marg = MarginalLaw(K, np.r_[np.ones(n - 1), np.zeros(m - n + 1)])

    def check(self, T, where):
        """-> sorted tuple of edge indices of a spanning tree."""
        if not isinstance(T, nx.Graph):
            raise Violation('not-a-graph', '%s produced %s' % (where, type(T)))
        if set(T.nodes()) != set(self.nodes):
            raise Violation('wrong-nodes', '%s: nodes %r, graph has %r' % (where, sorted(T.nodes(), key=repr)[:10], sorted(self.nodes, key=repr)[:10]))
        es = []
        for a, b in T.edges():
            j = self.idx.get(key(a, b))
            if j is None:
                raise Violation('not-an-edge', '%s: (%r, %r) is no edge of the graph' % (where, a, b))
            es.append(j)
        if len(es) != self.n - 1 or not nx.is_connected(T):
            raise Violation('not-a-tree', '%s: %d edges on %d nodes, connected=%s'
                            % (where, len(es), self.n, nx.is_connected(T)))
        return tuple(sorted(es))

    def judge(self, xs):
        if self.trees is not None:
            c = np.zeros(len(self.trees))
            for t in xs:
                c[self.trees[t]] += 1
            return g_test(c, np.full(len(c), 1.0 / len(c)))
        return self.marg.judge([list(x) for x in xs])


class C12(LawCheck):
    id = 'C12'
    title = 'uniform spanning trees'
    runs = {'quick': 900, 'thorough': 12000}
    n_draws = {'quick': 1500, 'thorough': 6000}
    rule = ('seeded (graph, labels, mode, root, call history, interleaved calls) configurations, '
            'n trees each, judged structurally and against the uniform law (enumeration up to 400 '
            'trees, transfer-current marginals beyond); one run in eight biases the walk to rare '
            'outcomes; non-trivial = at least two spanning trees')
    state_measure = 'distinct (graph kind, size, labels, loops, mode, root kind, history shape) tuples'
    stub = ['random source wrapper (draw budget, bias)']
    real = ['dppy.exotic_dpps.UST and the samplers it uses', 'networkx', 'numpy', 'scipy']

    def gen_law(self, r, tier, i):
        big = i % 7 == 6
        n = r.choice([8, 12, 20, 30]) if big else r.choice([2, 3, 3, 4, 4, 5, 5, 6])
        kind = r.choice(['path', 'star', 'cycle', 'complete', 'complete', 'wheel', 'bipartite', 'lollipop',
                         'random', 'random', 'random'])
        if big and n > 12 and kind in ('complete', 'lollipop', 'bipartite'):
            kind = 'random'
        spec = {'n': n, 'kind': kind, 'seed': r.getrandbits(30), 'extra': r.choice([0, 1, 2, 3, 5]),
                'labels': r.choice(['int', 'int', 'int', 'shift', 'str', 'tuple']),
                'relabel': r.random() < .5, 'loops': r.random() < .2}
        mode = r.choice(MODES)
        root = r.choice([None, 0, 0, r.randrange(n)])
        p = {'spec': spec, 'mode': mode, 'root': root,
             'history': [self.gen_op(r, n) for _ in range(r.choice([0, 0, 1, 3, 6]))],
             'inter': self.gen_op(r, n) if r.random() < .3 else None,
             'bias': i % 8 == 5, 'seeds': r.choice(['inst', 'inst', 'inst', 'int'])}
        if big:
            p['n'] = self.n_draws[tier] // 3
        elif mode in WALK:
            p['n'] = self.n_draws[tier] // (2 if n > 4 else 1)
        return p

    @staticmethod
    def gen_op(r, n):
        k = r.choice(['sample', 'sample', 'sample', 'badmode', 'badroot', 'kernel', 'eig', 'flush', 'str'])
        if k == 'sample':
            return [k, r.choice(MODES), r.choice([None, 0, r.randrange(n)]), r.getrandbits(31)]
        return [k]

    def apply(self, u, law, op, ctx):
        n0 = len(u.list_of_samples)
        ctx.stats.add('history_ops')
        if op[0] == 'sample':
            u.sample(op[1], root=None if op[2] is None else law.nodes[op[2]], random_state=op[3])
            law.check(u.list_of_samples[-1], 'history ' + op[1])
        elif op[0] in ('badmode', 'badroot'):
            try:
                if op[0] == 'badmode':
                    u.sample('nope', random_state=0)
                else:
                    u.sample('Wilson', root='no such node', random_state=0)
            except ValueError:
                ctx.stats.add('fault:rejected_call')
            except Exception as e:
                if op[0] == 'badmode':
                    raise Violation('wrong-error', 'unknown mode raised %s: %s' % (type(e).__name__, e))
            else:
                if op[0] == 'badmode':
                    raise Violation('no-error', 'unknown mode accepted')
            if op[0] == 'badmode' and len(u.list_of_samples) != n0:
                raise Violation('recorded-failure', 'rejected call recorded a tree')
        elif op[0] == 'kernel':
            u.compute_kernel()
        elif op[0] == 'eig':
            u.compute_kernel_eig_vecs()
        elif op[0] == 'flush':
            u.flush_samples()
        else:
            str(u)

    def prepare(self, plan, ctx, stream):
        from dppy.exotic_dpps import UST
        G = build(plan['spec'])
        law = TreeLaw(G, plan['spec']['n'] <= 6)
        u = UST(G)
        for op in plan['history']:
            self.apply(u, law, op, ctx)
        mode, root = plan['mode'], plan['root']
        where = mode + ('' if root is None else '/root0' if root == 0 else '/root')
        rootv = None if root is None else law.nodes[root]
        seed = seed_of('ust', plan['seed'], stream)
        bias = plan.get('bias')
        if bias:
            rng = SimRandomState(seed)
            rng.bias, rng.bias_rate = random.Random(seed), .2
        else:
            rng = BudgetRandomState(seed)
        as_int = plan['seeds'] == 'int' and not bias

        def draw(t):
            if plan['inter'] and t % 97 == 13:
                self.apply(u, law, plan['inter'], ctx)
            if bias:
                rng.reset(200000)
            elif not as_int:
                rng.left = 200000
            if len(u.list_of_samples) > 64:
                u.flush_samples()
            n0 = len(u.list_of_samples)
            u.sample(mode, root=rootv, random_state=(seed + 7919 * t) % 2 ** 32 if as_int else rng)
            if len(u.list_of_samples) != n0 + 1:
                raise Violation('not-recorded', '%d entries appended' % (len(u.list_of_samples) - n0))
            return law.check(u.list_of_samples[-1], where)

        def judge(xs):
            if bias:
                ctx.stats.add('fault:biased_randomness', len(xs))
                return 0.0, 0, 1.0
            return law.judge(xs)
        s = plan['spec']
        ctx.state(s['kind'], s['n'], s['labels'], s['loops'], where, len(plan['history']))
        if law.trees is None or len(law.trees) > 1:
            ctx.nontrivial = '%s-%s-%d' % (where, s['kind'], s['seed'])
        return draw, judge, where

    def shrinks(self, plan):
        if 'members' in plan:
            return
        sp = plan['spec']
        for k, v in (('loops', False), ('relabel', False), ('labels', 'int')):
            if sp[k] != v:
                yield dict(plan, spec=dict(sp, **{k: v}))
        for n in range(2, sp['n']):
            yield dict(plan, spec=dict(sp, n=n), root=plan['root'] and min(plan['root'], n - 1),
                       history=[], inter=None)
        if plan['history']:
            yield dict(plan, history=[])
        if plan['inter']:
            yield dict(plan, inter=None)
        if plan['n'] > 500:
            yield dict(plan, n=500)


CHECK = C12()
