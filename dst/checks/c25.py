"""C25: copies and restored objects behave like the original."""
import copy
import os
import pickle
import subprocess

import numpy as np

from .. import world
from ..core import PY, VERIF, Check, Violation
from ..restorechild import plain, raw, record
from ..seams import quiet, seed_of

HOW = ['deepcopy', 'deepcopy', 'pickle', 'pickle', 'pickle-2', 'twice']
FAULT = ['interrupt', 'memory', 'linalg', 'callback', 'stdout']


def same(a, b):
    if type(a) is not type(b) and not (isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer))):
        return isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)) and same_num(a, b)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and (bool(np.all(a == b)) if a.dtype.kind not in 'fc' else same_num(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (float, np.floating, complex)):
        return same_num(a, b)
    return callable(a) or a == b


def same_num(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == object or b.dtype == object:
        return a.dtype == b.dtype
    s = float(np.max(np.abs(b), initial=0.0, where=np.isfinite(b)))
    return np.allclose(a, b, rtol=1e-7, atol=1e-9 * s, equal_nan=True)


class C25(Check):
    id = 'C25'
    title = 'copied and restored objects behave like the original'
    runs = {'quick': 6000, 'thorough': 90000}
    rule = ('seeded histories (with rejected, failing and interrupted calls); at a seeded point the object is '
            'copied or saved and restored - in this process, or after a restart in a fresh one - and original and '
            'copy both finish the history, in a seeded order of turns; results and records must be those of an '
            'object that was never copied')
    state_measure = 'distinct (class, cached state at the copy, way of copying, remaining calls) tuples'
    real = ['dppy (all modules, unmodified)', 'numpy', 'scipy', 'networkx', 'pickle, copy']

    def gen(self, r, tier, i):
        if i % 150 == 11:
            return {'mode': 'restart', 'hash': r.randrange(1, 1000), 'plans': [q for q in (self.one(r) for _ in range(30)) if q['objs'][0]['kind'] != 'poly']}
        return self.one(r)

    @staticmethod
    def one(r):
        n = r.choice([2, 3, 5, 7])
        p = world.gen_history(r, 1, n)
        if p['objs'][0]['kind'] in ('lib', 'func'):
            p = world.gen_history(r, 1, n, kinds=['finite', 'finite', 'tree', 'beta', 'eval'])
        p['ops'] = [op for _, op in p['ops']]
        p['at'] = r.randrange(n)
        p['faults'] = {str(t): world.gen_fault(r, FAULT) for t in range(p['at']) if r.random() < .25}
        p['how'], p['turns'] = r.choice(HOW), r.getrandbits(16)
        if p['objs'][0]['kind'] == 'poly':      # its densities are local functions: copies only
            p['how'] = 'deepcopy'
        return p

    def shrinks(self, p):
        if 'plans' in p:
            if len(p['plans']) > 1:
                for q in p['plans']:
                    yield dict(p, plans=[q])
            return
        for t in range(len(p['ops'])):
            if len(p['ops']) > 1:
                f = {str(int(k) - (int(k) > t)): v for k, v in p['faults'].items() if int(k) != t}
                yield dict(p, ops=p['ops'][:t] + p['ops'][t + 1:], faults=f, at=max(0, min(p['at'] - (t < p['at']), len(p['ops']) - 2)))
        for k in p['faults']:
            yield dict(p, faults={q: v for q, v in p['faults'].items() if q != k})

    # ----------------------------------------------------------------------
    @staticmethod
    def prefix(p, ctx):
        h = world.make(p['objs'][0])
        for t, op in enumerate(p['ops'][:p['at']]):
            f = p['faults'].get(str(t))
            world.attempt(h, op, f, seed_of(p.get('seed', 0), t), ctx.stats)
        return h

    def clone(self, h, how):
        try:
            if how == 'deepcopy':
                return copy.deepcopy(h.obj)
            if how == 'twice':
                return pickle.loads(pickle.dumps(copy.deepcopy(h.obj)))
            return pickle.loads(pickle.dumps(h.obj, protocol=2 if how == 'pickle-2' else pickle.HIGHEST_PROTOCOL))
        except Exception as e:
            raise Violation('cannot-copy', '%s of a %s object after its history: %s: %s'
                            % (how, type(h.obj).__name__, type(e).__name__, e))

    def run(self, p, ctx):
        with quiet():
            self.restart(p, ctx) if 'plans' in p else self.inner(p, ctx)

    def inner(self, p, ctx):
        ref, h = self.prefix(p, ctx), self.prefix(p, ctx)
        rest = p['ops'][p['at']:]
        want = [raw(ref, op) for op in rest]
        g = world.make(p['objs'][0])
        g.obj = self.clone(h, p['how'])
        if type(g.obj) is not type(h.obj):
            raise Violation('wrong-type', '%s of %r is %r' % (p['how'], type(h.obj), type(g.obj)))
        if not same(record(g), record(h)):
            raise Violation('record-lost', '%s of a %s object has another record' % (p['how'], type(h.obj).__name__))
        ctx.stats.add('fault:restart' if p['how'] != 'deepcopy' else 'copies')
        done = {0: [], 1: []}
        turns = p['turns']
        while min(len(done[0]), len(done[1])) < len(rest):
            who = turns & 1 if max(len(done[0]), len(done[1])) < len(rest) else int(len(done[0]) == len(rest))
            turns = (turns >> 1) | (turns & 1) << 15
            k = len(done[who])
            if k == len(rest):
                who, k = 1 - who, len(done[1 - who])
            done[who].append(raw((h, g)[who], rest[k]))
        kind = p['objs'][0]['kind']
        ctx.state(kind, ref.state(), p['how'], tuple(op[0] for op in rest))
        ctx.ev(kind, repr(want)[:200])
        ctx.nontrivial = '%s-%s-%s' % (kind, p['how'], p['seed'])
        self.compare(p, want, record(ref), done[1], record(g), 'the copy (%s)' % p['how'], rest)
        self.compare(p, want, record(ref), done[0], record(h), 'the original, after being copied (%s),' % p['how'], rest)

    @staticmethod
    def compare(p, want, wrec, got, grec, who, rest):
        for op, a, b in zip(rest, want, got):
            if not same(a, b):
                raise Violation('behaves-differently', '%s: %r of %s gives %.150r, without a copy %.150r'
                                % ({k: v for k, v in p['objs'][0].items() if k != 'seed'}, op, who, b, a), op=op[0])
        if not same(wrec, grec):
            raise Violation('record-differs', '%s: the record of %s differs' % (p['objs'][0], who))

    def restart(self, p, ctx):
        jobs, want = [], []
        for q in p['plans']:
            q = dict(q, seed=p['seed'])
            ref, h = self.prefix(q, ctx), self.prefix(q, ctx)
            want.append(([raw(ref, op) for op in q['ops'][q['at']:]], record(ref)))
            try:
                jobs.append((q['objs'][0], pickle.dumps(h.obj), q['ops'], q['at']))
            except Exception as e:
                raise Violation('cannot-copy', 'pickle of a %s object: %s: %s' % (type(h.obj).__name__, type(e).__name__, e))
        env = dict(os.environ, PYTHONHASHSEED=str(p['hash']), PYTHONPATH=VERIF)
        c = subprocess.run([PY, '-W', 'ignore', '-m', 'dst.restorechild'], input=pickle.dumps(jobs), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=VERIF, env=env)
        if c.returncode:
            raise Violation('restore-failed', 'a fresh process cannot restore the objects: %s' % c.stderr.decode()[-300:])
        got = pickle.loads(c.stdout)
        ctx.stats.add('fault:process_restart', len(jobs))
        ctx.nontrivial = 'restart-%s' % p['seed']
        for q, (w, wr), (x, xr) in zip(p['plans'], want, got):
            ctx.ev(q['objs'][0]['kind'], repr(w)[:200])
            self.compare(q, w, wr, x, xr, 'the object restored in a fresh process', q['ops'][q['at']:])


CHECK = C25()
