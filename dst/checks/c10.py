"""C10: library calls leave process-wide settings as they found them."""
import gc
import locale
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
from scipy import special

from .. import world
from ..core import Check, Violation
from ..seams import Quiet, Scheduler, seed_of

KINDS = ['interrupt', 'interrupt', 'interrupt', 'memory', 'linalg', 'linalg', 'stdout', 'callback', 'warnings']
WEIGHTS = ['finite'] * 6 + ['eval'] * 4 + ['tree', 'tree', 'beta', 'beta', 'jacobi', 'poly', 'proc', 'func', 'func',
                                           'lib', 'lib', 'lib']
PATCHABLE = [(np, n) for n in ('seterr', 'errstate', 'dot', 'array', 'set_printoptions')] + \
            [(np.random, n) for n in ('seed', 'rand', 'RandomState', 'mtrand')] + \
            [(np.linalg, n) for n in ('det', 'eigh', 'qr', 'svd', 'matrix_rank')] + \
            [(warnings, n) for n in ('warn', 'showwarning', 'formatwarning', 'simplefilter')] + \
            [(sys, n) for n in ('stdout', 'stderr', 'stdin', 'excepthook', 'displayhook', 'unraisablehook')] + \
            [(random, n) for n in ('random', 'seed', 'choice')]


def thread_state():
    """What belongs to the calling thread."""
    return {'numpy floating-point error handling': np.geterr(), 'numpy error callback': id(np.geterrcall()),
            'numpy buffer size': np.getbufsize(), 'scipy.special error handling': special.geterr(),
            'trace hook': id(sys.gettrace()), 'profile hook': id(sys.getprofile())}


def freeze(x):
    return tuple((k, repr(v)) for k, v in sorted(x.items()))


def process_state():
    s = {'numpy print options': freeze(np.get_printoptions()),
         'warning filters': tuple((f[0], repr(f[1]), f[2].__name__, repr(f[3]), f[4]) for f in warnings.filters),
         'python generator': hash(random.getstate()),
         'numpy global generator': (np.random.get_state()[1].tobytes(), np.random.get_state()[2:]),
         'environment': dict(os.environ), 'working directory': os.getcwd(),
         'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
         'module search path': tuple(sys.path), 'locale': locale.setlocale(locale.LC_ALL),
         'signal handlers': tuple(id(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM,
                                                                    signal.SIGFPE)),
         'threads': threading.active_count(), 'garbage collector': (gc.isenabled(), gc.get_threshold()),
         'umask': umask(), 'int digits limit': sys.get_int_max_str_digits()}
    for m, n in PATCHABLE:
        s['%s.%s' % (m.__name__, n)] = id(getattr(m, n))
    return s


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


class Configured:
    """A seeded configuration of the process by its user; restored afterwards."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def __enter__(self):
        r = self.r
        self.stderr, sys.stderr = sys.stderr, Quiet()
        self.err = np.geterr()
        self.call = np.geterrcall()
        self.po = np.get_printoptions()
        self.sp = special.geterr()
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        self.env = dict(os.environ)
        if r.random() < .8:
            np.seterr(**{k: r.choice(['ignore', 'warn', 'warn', 'raise', 'call', 'print', 'log'][:5])
                         for k in ('divide', 'over', 'under', 'invalid') if r.random() < .6})
            np.seterrcall(lambda *a: None)
        if r.random() < .6:
            np.set_printoptions(precision=r.randrange(1, 12), suppress=r.random() < .5, threshold=r.choice([5, 1000]),
                                linewidth=r.choice([40, 75, 200]))
        if r.random() < .7:
            warnings.simplefilter(r.choice(['ignore', 'always', 'default', 'once', 'error']))
        if r.random() < .3:
            warnings.filterwarnings('ignore', message='x%d' % r.randrange(9), category=r.choice([UserWarning, RuntimeWarning]))
        if r.random() < .3:
            special.seterr(all='warn')
        np.random.seed(r.getrandbits(32))
        random.seed(r.getrandbits(32))
        os.environ['DST_MARK'] = str(r.random())
        return self

    def __exit__(self, *exc):
        sys.stderr = self.stderr
        np.seterrcall(self.call)
        np.seterr(**self.err)
        np.set_printoptions(**self.po)
        special.seterr(**self.sp)
        self.w.__exit__(*exc)
        for k in set(os.environ) - set(self.env):
            del os.environ[k]
        os.environ.update(self.env)


class C10(Check):
    id = 'C10'
    title = 'process-wide settings'
    runs = {'quick': 16000, 'thorough': 200000}
    rule = ('seeded user configurations of the process (error handling, print options, warning filters, generators) '
            'and seeded histories of calls, some failing or cut short at a seeded boundary; every setting is '
            'compared before and after every call, in the main and in concurrent threads')
    stub = ['thread scheduler (seeded, one thread at a time)', 'zonotope LP solver (cvxopt is not installed)']
    assumptions = ['no interruption strikes the entry or exit of a context manager or of a setting function itself: '
                   'no caller could make these atomic']

    def gen(self, r, tier, i):
        p = world.gen_history(r, r.choice([1, 1, 2, 3]), r.choice([3, 5, 8]), kinds=WEIGHTS)
        p['mode'] = r.choice(['seq'] * 8 + ['threads'])
        p['faults'] = {}
        if p['mode'] == 'seq' and r.random() < .7:
            for t, (j, op) in enumerate(p['ops']):
                if r.random() < .4:
                    p['faults'][str(t)] = world.gen_fault(r, KINDS)
        return p

    def shrinks(self, plan):
        n = len(plan['ops'])
        for t in range(n):
            f = {str(int(k) - (int(k) > t)): v for k, v in plan['faults'].items() if int(k) != t}
            yield dict(plan, ops=plan['ops'][:t] + plan['ops'][t + 1:], faults=f)
        for k in plan['faults']:
            yield dict(plan, faults={q: v for q, v in plan['faults'].items() if q != k})

    def judge(self, p, what, before, after, modules=0, op=None):
        for k, v in before.items():
            if after[k] != v:
                if modules and k in ('warning filters', 'environment', 'module search path'):
                    continue                     # a module was imported
                raise Violation('setting-changed', '%s changed %s: %.150r -> %.150r' % (what, k, v, after[k]),
                                setting=k)

    def run(self, p, ctx):
        with Configured(seed_of(p['seed'], 'conf')):
            if p['mode'] == 'threads':
                self.run_threads(p, ctx)
            else:
                self.run_seq(p, ctx)

    @staticmethod
    def both():
        return dict(process_state(), **thread_state())

    def run_seq(self, p, ctx):
        hs = []
        for s in p['objs']:
            holder = {}

            def building():
                holder['before'], holder['m'] = self.both(), len(sys.modules)
            try:
                building()
                hs.append(world.make(s))
            except Exception:                    # the configuration made a warning fatal
                hs.append(None)
            self.judge(p, 'building %s' % s, holder['before'], self.both(), len(sys.modules) - holder['m'])
        for t, (j, op) in enumerate(p['ops']):
            h = hs[j]
            if h is None:
                continue
            fault = p['faults'].get(str(t))
            before, m = self.both(), len(sys.modules)
            res, exc, fired, _ = world.attempt(h, op, fault, seed_of(p['seed'], t), ctx.stats)
            after = self.both()
            ctx.stats.add('evaluations')
            ctx.stats.add('probe:failed' if exc is not None else 'probe:succeeded')
            ctx.state(p['objs'][j]['kind'], op[:2], fault and fault[0], fired, type(exc).__name__, np.geterr()['invalid'],
                      len(warnings.filters))
            ctx.ev(t, j, op[0], fired, type(exc).__name__)
            self.judge(p, '%s%s on %s (%s)' % (op, ' (fault %s)' % fault if fault else '', p['objs'][j],
                                               type(exc).__name__ if exc is not None else 'success'),
                       before, after, len(sys.modules) - m, op)

    def run_threads(self, p, ctx):
        hs = []
        for s in p['objs']:
            try:
                hs.append(world.make(s))
            except Exception:
                hs.append(None)
        by = {}
        for t, (j, op) in enumerate(p['ops']):
            if hs[j] is not None:
                by.setdefault(j, []).append(op)
        found = []

        def body(j):
            def f():
                r = random.Random(seed_of(p['seed'], 'th', j))
                np.seterr(**{k: r.choice(['ignore', 'warn', 'raise']) for k in ('divide', 'over', 'under', 'invalid')})
                for op in by[j]:
                    before = thread_state()
                    try:
                        hs[j].perform(op)
                    except Exception:
                        pass
                    found.append((op, j, before, thread_state()))
            return f
        before, m = process_state(), len(sys.modules)
        s = Scheduler(seed_of(p['seed'], 'sched'), switch_rate=random.Random(p['seed']).choice([.02, .2, .6]))
        res = s.run([body(j) for j in sorted(by)])
        for x in res:
            if x[0] != 'ok':
                raise RuntimeError(x[1])
        ctx.stats.add('fault:preemption', s.switches)
        ctx.stats.add('evaluations', len(found))
        ctx.state('sched', tuple(s.trace))
        ctx.ev('sched', s.switches)
        for op, j, a, b in found:
            self.judge(p, '%s on %s in a thread' % (op, p['objs'][j]), a, b)
        self.judge(p, 'concurrent calls %s on %s' % (p['ops'], p['objs']), before, process_state(), len(sys.modules) - m)


CHECK = C10()
