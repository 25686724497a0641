"""The seams: everything nondeterministic that DPPy can meet, under our control.

Importing this module (always before dppy) patches the process clock with
dispatchers.  While no simulated clock is active they behave as the originals.
"""
import builtins
import dis
import importlib
import inspect
import io
import os
import pkgutil
import random
import sys
import threading
import time
import types
import warnings

import numpy as np

REPO = os.environ.get('DST_REPO', '/repo')

# --------------------------------------------------------------------------
# Clock seam
# --------------------------------------------------------------------------
_REAL = {n: getattr(time, n) for n in
         ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time',
          'time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time_ns',
          'sleep')}
real_now = _REAL['monotonic']
_ACTIVE_CLOCK = None


class SimClock:
    """Simulated clock: a monotonic time line plus a wall clock that may jump.

    Monotonic time advances only through `advance` (called by the other seams
    with seeded costs) and by a tiny fixed amount per reading, so that code
    which polls the clock always makes progress.
    """

    def __init__(self, wall0=1.7e9, read_cost=1e-6):
        self.mono = 1000.0
        self.wall_off = wall0 - 1000.0
        self.read_cost = read_cost
        self.reads = 0
        self.jumps = 0
        self.pending_jumps = []     # [(mono time, delta)]

    def advance(self, dt):
        self.mono += dt
        while self.pending_jumps and self.pending_jumps[0][0] <= self.mono:
            self.wall_off += self.pending_jumps.pop(0)[1]
            self.jumps += 1

    def read_mono(self):
        self.reads += 1
        self.advance(self.read_cost)
        return self.mono

    def read_wall(self):
        self.reads += 1
        self.advance(self.read_cost)
        return self.mono + self.wall_off

    def __enter__(self):
        global _ACTIVE_CLOCK
        self._prev = _ACTIVE_CLOCK
        _ACTIVE_CLOCK = self
        return self

    def __exit__(self, *exc):
        global _ACTIVE_CLOCK
        _ACTIVE_CLOCK = self._prev


def _mk(name, wall, ns=False):
    real = _REAL[name]

    def dispatch():
        c = _ACTIVE_CLOCK
        if c is None:
            return real()
        t = c.read_wall() if wall else c.read_mono()
        return int(t * 1e9) if ns else t
    dispatch.__name__ = name
    return dispatch


def _sleep(secs):
    c = _ACTIVE_CLOCK
    if c is None:
        return _REAL['sleep'](secs)
    c.advance(max(0.0, float(secs)))


time.time = _mk('time', True)
time.time_ns = _mk('time_ns', True, True)
for _n in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
    setattr(time, _n, _mk(_n, False))
for _n in ('monotonic_ns', 'perf_counter_ns', 'process_time_ns'):
    setattr(time, _n, _mk(_n, False, True))
time.sleep = _sleep


# --------------------------------------------------------------------------
# Randomness seam
# --------------------------------------------------------------------------
class SimBudgetExceeded(BaseException):
    """A call asked for more random draws than any correct run could need."""


DRAW_METHODS = [
    'rand', 'randn', 'randint', 'random', 'random_sample', 'choice', 'uniform',
    'normal', 'standard_normal', 'gamma', 'standard_gamma', 'beta', 'binomial',
    'poisson', 'exponential', 'standard_exponential', 'chisquare', 'geometric',
    'permutation', 'shuffle', 'multinomial', 'multivariate_normal', 'bytes',
    'random_integers', 'dirichlet', 'hypergeometric', 'laplace', 'logistic',
    'lognormal', 'negative_binomial', 'triangular', 'wald', 'weibull',
    'zipf', 'logseries', 'f', 'gumbel', 'noncentral_chisquare', 'noncentral_f',
    'pareto', 'power', 'rayleigh', 'standard_cauchy', 'standard_t', 'vonmises',
    'tomaxint']


class SimRandomState(np.random.RandomState):
    """A RandomState whose every (outermost) draw passes through the simulator.

    on_draw(name) is called before the draw: it may advance the clock, raise a
    fault, or yield to another simulated thread.  `bias` (a random.Random) makes
    the generator return rare but possible outcomes more often.
    """
    on_draw = None
    budget = None
    bias = None
    bias_rate = 0.0
    draws = 0
    _depth = 0
    log = None

    mass = 1.0              # probability of the forced choices so far
    MASS_FLOOR = 1e-6       # never force a joint event rarer than this

    def reset(self, budget):
        """Start of a call."""
        self.draws, self.budget, self.mass = 0, budget, 1.0

    def _biased(self, name, args, kw, out):
        b = self.bias
        if b is None or b.random() >= self.bias_rate:
            return out
        if name in ('rand', 'random_sample', 'random') and np.isscalar(out):
            u = b.choice([1e-5, 1e-3, 1.0 - 1e-5, 1.0 - 1e-3])
            m = min(u, 1.0 - u)
            if self.mass * m >= self.MASS_FLOOR:
                self.mass *= m
                return u
            return out
        if name == 'randint' and np.isscalar(out):
            lo, hi = args[0], (args[1] if len(args) > 1 else kw.get('high'))
            if hi is None:
                lo, hi = 0, lo
            return type(out)(b.choice([lo, hi - 1]))
        if name == 'choice' and np.ndim(out) == 0:
            p = kw.get('p', args[3] if len(args) > 3 else None)
            a = args[0] if args else kw['a']
            pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
            if p is None:
                return pool[b.choice([0, len(pool) - 1])]
            p = np.asarray(p, float)
            ok = np.flatnonzero(p * self.mass > self.MASS_FLOOR)
            if ok.size:
                j = ok[np.argmin(p[ok])]
                self.mass *= float(p[j])
                return pool[j]
        return out


def _wrap_draw(name):
    base = getattr(np.random.RandomState, name)

    def draw(self, *args, **kw):
        if self._depth:
            return base(self, *args, **kw)
        self._depth = 1
        try:
            self.draws += 1
            if self.budget is not None and self.draws > self.budget:
                raise SimBudgetExceeded(self.draws)
            if self.log is not None:
                self.log.append(name)
            if self.on_draw is not None:
                self.on_draw(name)
            out = base(self, *args, **kw)
            if self.bias is not None:
                out = self._biased(name, args, kw, out)
            return out
        finally:
            self._depth = 0
    draw.__name__ = name
    return draw


for _n in DRAW_METHODS:
    if hasattr(np.random.RandomState, _n):
        setattr(SimRandomState, _n, _wrap_draw(_n))


class BudgetRandomState(np.random.RandomState):
    """Cheap variant for long law runs: only a bound on the number of draws."""
    left = 10 ** 9


def _wrap_budget(name):
    base = getattr(np.random.RandomState, name)

    def draw(self, *args, **kw):
        self.left -= 1
        if self.left < 0:
            raise SimBudgetExceeded(name)
        return base(self, *args, **kw)
    return draw


for _n in ('rand', 'choice', 'randint', 'poisson', 'beta', 'gamma', 'randn',
           'normal', 'binomial', 'random_sample'):
    setattr(BudgetRandomState, _n, _wrap_budget(_n))


def seed_of(*parts):
    """32-bit seed derived from a tuple of parts (stable across processes)."""
    return random.Random(':'.join(map(str, parts))).getrandbits(32)


def rs(*parts):
    return np.random.RandomState(seed_of(*parts))


# --------------------------------------------------------------------------
# Output seam
# --------------------------------------------------------------------------
class Quiet(io.TextIOBase):
    """stdout stand-in: swallows, counts, optionally breaks (EPIPE/ENOSPC)."""

    def __init__(self):
        self.n = 0
        self.fail_from = None
        self.exc = None
        self.failed = 0

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        if self.fail_from is not None and self.n >= self.fail_from:
            self.failed += 1
            raise self.exc
        return len(s)

    def flush(self):
        pass


class quiet:
    """with quiet() as out: no output, no warnings shown (filters restored)."""

    def __enter__(self):
        self.out = Quiet()
        self._so = sys.stdout
        sys.stdout = self.out
        self._w = warnings.catch_warnings()
        self._w.__enter__()
        warnings.simplefilter('ignore')
        return self.out

    def __exit__(self, *exc):
        self._w.__exit__(*exc)
        sys.stdout = self._so


# --------------------------------------------------------------------------
# Fault seam: failures at call boundaries of dppy code
# --------------------------------------------------------------------------
class InjectedKeyboardInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


class InjectedLinAlgError(np.linalg.LinAlgError):
    pass


class InjectedIOError(OSError):
    pass


class InjectedUserError(Exception):
    pass


FAULTS = {'interrupt': InjectedKeyboardInterrupt, 'memory': InjectedMemoryError,
          'linalg': InjectedLinAlgError, 'stdout': InjectedIOError}
INJECTED = tuple(FAULTS.values()) + (InjectedUserError,)

_DPPY_DIR = os.path.join(REPO, 'dppy') + os.sep


def _is_dppy(frame):
    return frame is not None and frame.f_code.co_filename.startswith(_DPPY_DIR)


def _skip(fn):
    return fn.startswith('<frozen') or 'importlib' in fn


# callees whose own entry or exit cannot be made atomic by their caller
_STATE_FUNCS = {'__enter__', '__exit__', 'seterr', 'geterr', 'seterrcall', 'seterrobj', 'geterrobj', 'catch_warnings',
                'simplefilter', 'filterwarnings', 'resetwarnings', 'set_printoptions', 'get_printoptions',
                'printoptions', 'errstate', 'set_state', 'get_state', 'setstate', 'getstate', 'seed', 'chdir',
                'getcwd', 'settrace', 'setprofile', 'gettrace', 'getprofile', 'setrecursionlimit', 'putenv',
                '__setitem__', '__delitem__', 'redirect_stdout', 'acquire', 'release'}


class CallFaults:
    """Counts (and optionally fails) call boundaries made by dppy code.

    A boundary is the entry into, or the return from, any Python or builtin
    callable invoked by a dppy frame (seen by the profile hook), and the entry
    into a ufunc, a type or a matrix product `@` (seen by sys.monitoring): the
    instants at which CPython delivers signals or a callee can fail.
    Deterministic for a given code and seed; `at` is the index of the boundary
    that fails with FAULTS[kind].
    """

    armed = None                    # the instance the monitoring callbacks serve

    def __init__(self, kind=None, at=None, sites=None):
        self.kind, self.at = kind, at
        self.sites = sites          # {code location: [boundary indices]} when counting
        self.count = 0
        self.fired = False
        self.where = None

    def _hit(self, kind_ok, frame, event, name):
        if not kind_ok:
            return
        i = self.count
        self.count += 1
        if self.sites is not None:
            f = frame
            while f is not None and not _is_dppy(f):
                f = f.f_back
            if f is not None:
                self.sites.setdefault((f.f_code.co_name, f.f_lineno, event, name), []).append(i)
        if self.at is not None and i == self.at and not self.fired:
            self.fired = True
            f = frame
            while f is not None and not _is_dppy(f):
                f = f.f_back
            self.where = '%s:%s' % (event, name)
            sys.setprofile(None)
            raise FAULTS[self.kind]('injected at boundary %d' % i)

    def _prof(self, frame, event, arg):
        if self.fired:
            return
        if event == 'c_call' or event == 'c_return':
            if not _is_dppy(frame):
                return
            name = getattr(arg, '__name__', '?')
            mod = getattr(arg, '__module__', None) or ''
            if name in _STATE_FUNCS or name in ('getattr', 'hasattr', 'isinstance'):
                return
            ok = True
            if self.kind == 'stdout':
                ok = event == 'c_call' and arg is builtins.print
            elif self.kind == 'linalg':
                ok = False
            self._hit(ok, frame, event, name)
        elif event == 'call' or event == 'return':
            back = frame.f_back
            if not (_is_dppy(frame) or _is_dppy(back)):
                return
            fn = frame.f_code.co_filename
            if _skip(fn) or not (_is_dppy(back) or event == 'call'):
                return
            if event == 'return' and not _is_dppy(back):
                return
            name = frame.f_code.co_name
            if name in _STATE_FUNCS or name == '__init__' and not fn.startswith(_DPPY_DIR):
                return
            if name in ('<listcomp>', '<genexpr>', '<lambda>', '__init__', '<dictcomp>') and fn.startswith(_DPPY_DIR):
                return
            ok = True
            if self.kind == 'stdout':
                ok = False
            elif self.kind == 'linalg':
                ok = event == 'call' and 'linalg' in fn
            self._hit(ok, frame, event, name)

    # -- what the profile hook does not see -----------------------------------
    def _special(self, event, name):
        if not self.fired and self.kind not in ('stdout', 'linalg'):
            self._hit(True, sys._getframe(2), event, name)

    def __enter__(self):
        _watch_specials()
        self._old = sys.getprofile()
        self._outer, CallFaults.armed = CallFaults.armed, self
        sys.setprofile(self._prof)
        return self

    def __exit__(self, *exc):
        sys.setprofile(self._old)
        CallFaults.armed = self._outer


def _on_call(code, offset, fn, arg0):
    c = CallFaults.armed
    if c is None:
        return
    if isinstance(fn, np.ufunc) or isinstance(fn, type) and fn.__name__ not in _STATE_FUNCS \
            and not issubclass(fn, BaseException):
        c._special('call', fn.__name__)


_MATMULS = {}


def _on_instruction(code, offset):
    offs = _MATMULS.get(code)
    if offs is None:
        offs = _MATMULS[code] = {i.offset for i in dis.get_instructions(code)
                                 if i.opname == 'BINARY_OP' and i.argrepr in ('@', '@=')}
    if offset not in offs:
        return sys.monitoring.DISABLE
    c = CallFaults.armed
    if c is not None:
        c._special('call', '@')


_watched = []


def _watch_specials():
    """Install the monitoring callbacks on all dppy code, once per process."""
    if _watched:
        return
    _watched.append(1)
    mon = sys.monitoring
    if mon.get_tool(3) is not None:
        return
    mon.use_tool_id(3, 'dst')
    mon.register_callback(3, mon.events.CALL, _on_call)
    mon.register_callback(3, mon.events.INSTRUCTION, _on_instruction)
    for m in pkgutil.iter_modules(load_dppy().__path__, 'dppy.'):
        importlib.import_module(m.name)
    seen, todo = set(), []
    for name, m in sorted(sys.modules.items()):
        if name == 'dppy' or name.startswith('dppy.'):
            for v in list(vars(m).values()):
                todo.append(v)
    while todo:
        v = todo.pop()
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            todo += [v.fget, v.fset, v.fdel]
            continue
        if isinstance(v, type) and (v.__module__ or '').startswith('dppy') and id(v) not in seen:
            seen.add(id(v))
            todo += list(vars(v).values())
            continue
        v = inspect.unwrap(v) if isinstance(v, types.FunctionType) else v
        code = v if isinstance(v, types.CodeType) else getattr(v, '__code__', None)
        if not isinstance(code, types.CodeType) or id(code) in seen or not code.co_filename.startswith(_DPPY_DIR):
            continue
        seen.add(id(code))
        todo += [k for k in code.co_consts if isinstance(k, types.CodeType)]
        has = any(i.opname == 'BINARY_OP' and i.argrepr in ('@', '@=') for i in dis.get_instructions(code))
        mon.set_local_events(3, code, mon.events.CALL | (mon.events.INSTRUCTION if has else 0))


class StepBudget:
    """Bounds the number of dppy lines executed: liveness in simulated steps."""

    def __init__(self, n):
        self.left = self.n = n

    def _local(self, frame, event, arg):
        self.left -= 1
        if self.left < 0:
            sys.settrace(None)
            raise SimBudgetExceeded('%d lines of dppy executed without finishing' % self.n)
        return self._local

    def _glob(self, frame, event, arg):
        return self._local if _is_dppy(frame) else None

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._glob)
        return self

    def __exit__(self, *exc):
        sys.settrace(self._old)


# --------------------------------------------------------------------------
# Thread seam: a deterministic cooperative scheduler for real threads
# --------------------------------------------------------------------------
class Scheduler:
    """Runs callables in real threads, exactly one at a time; a seeded PRNG
    decides, at every executed line of dppy code, who runs next."""

    def __init__(self, seed, switch_rate=0.2, max_switches=100000):
        self.r = random.Random(seed)
        self.rate = switch_rate
        self.max_switches = max_switches
        self.switches = 0
        self.trace = []

    def run(self, fns):
        n = len(fns)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.done = [False] * n
        self.res = [None] * n
        self.quota = 0
        ths = [threading.Thread(target=self._body, args=(i, f), daemon=True)
               for i, f in enumerate(fns)]
        for t in ths:
            t.start()
        while not all(self.done):
            live = [i for i in range(n) if not self.done[i]]
            i = self.r.choice(live)
            if self.switches >= self.max_switches:
                self.quota = 10 ** 9
            else:
                u = self.r.random()
                self.quota = (1 + int(self.r.expovariate(self.rate)) if u < .8
                              else self.r.randrange(1, 60))
            self.switches += 1
            if len(self.trace) < 2000:
                self.trace.append(i)
            self.go[i].release()
            self.back.acquire()
        for t in ths:
            t.join()
        return self.res

    def _body(self, i, f):
        self.go[i].acquire()

        def local(frame, event, arg):
            if event == 'line':
                self.quota -= 1
                if self.quota <= 0:
                    self.back.release()
                    self.go[i].acquire()
            return local

        def glob(frame, event, arg):
            return local if _is_dppy(frame) else None
        sys.settrace(glob)
        try:
            self.res[i] = ('ok', f())
        except BaseException as e:       # recorded, judged by the caller
            self.res[i] = ('exc', '%s: %s' % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.back.release()


# --------------------------------------------------------------------------
# dppy import (from REPO, never from site-packages or a cache)
# --------------------------------------------------------------------------
def load_dppy():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import dppy
    assert os.path.realpath(dppy.__file__).startswith(
        os.path.realpath(REPO) + os.sep), dppy.__file__
    import dppy.finite_dpps
    return dppy
