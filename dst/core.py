"""Runner: seeded runs over worker processes, minimisation, replay, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import traceback

from . import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class HarnessTimeout(BaseException):
    pass


class Violation(Exception):
    """cls: stable class of failure (kept by minimisation); detail: for humans."""

    def __init__(self, cls, detail, **info):
        super().__init__(cls + ': ' + detail)
        self.cls, self.detail, self.info = cls, detail, info


class Stats(dict):
    def add(self, key, n=1):
        self[key] = self.get(key, 0) + n

    def merge(self, other):
        for k, v in other.items():
            self[k] = self.get(k, 0) + v


class Ctx:
    """Per-run recorder: counters, distinct-state keys, event log digest."""

    def __init__(self):
        self.stats = Stats()
        self.states = set()
        self._h = hashlib.sha256()
        self.events = []
        self.keep = False
        self.sim_time = 0.0
        self.nontrivial = None
        self.agg = []               # (bucket, statistic, dof) for pooling

    def ev(self, *parts):
        s = repr(parts)
        self._h.update(s.encode())
        if self.keep:
            self.events.append(s)

    def state(self, *parts):
        self.states.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:16])

    def digest(self):
        return self._h.hexdigest()[:16]


class Check:
    id = None
    title = ''
    level = 'exploration'
    runs = {'quick': 100, 'thorough': 2000}
    crash_is_violation = True
    _tier = 'quick'
    cpu_timeout = {'quick': 100, 'thorough': 700}   # CPU seconds per run spent inside the library: a hang
    minimise_budget = 120      # executions
    rule = ''
    real = ['dppy (all modules, unmodified)', 'numpy', 'scipy']
    stub = []

    def gen(self, r, tier, i):
        raise NotImplementedError

    def run(self, plan, ctx):
        """Raise Violation or return."""
        raise NotImplementedError

    def shrinks(self, plan):
        """Yield simpler plans, most aggressive first."""
        for key in ('ops', 'history', 'faults'):
            ops = plan.get(key)
            if isinstance(ops, list) and ops:
                n = len(ops)
                if n > 3:
                    for lo, hi in ((0, n // 2), (n // 2, n)):
                        yield dict(plan, **{key: ops[:lo] + ops[hi:]})
                for j in range(n):
                    yield dict(plan, **{key: ops[:j] + ops[j + 1:]})

    def pooled(self, agg):
        """Judge statistics pooled over all runs; yield (Violation, plan)."""
        return []

    def finish_stats(self, stats):
        return {}


def _alarm(sig, frm):
    """The run hangs; whose fault is it?"""
    inside = False
    for f in [frm] + list(sys._current_frames().values()):
        while f is not None and not inside:
            inside = f.f_code.co_filename.startswith(seams._DPPY_DIR)
            f = f.f_back
    raise HarnessTimeout(sig == signal.SIGPROF and inside)


def execute(check, plan, keep=False):
    """One simulated run. Returns a plain dict."""
    ctx = Ctx()
    ctx.keep = keep
    out = {'violation': None, 'error': None}
    limit = check.cpu_timeout[check._tier]
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 4 * limit)
    signal.setitimer(signal.ITIMER_PROF, limit)
    import numpy as np
    old_err = np.geterr()
    try:
        with seams.quiet():
            check.run(plan, ctx)
    except Violation as v:
        out['violation'] = {'cls': v.cls, 'detail': v.detail[:2000], 'info': v.info}
    except HarnessTimeout as e:
        if e.args[0]:
            out['violation'] = {'cls': 'hang', 'detail': 'a call did not return within %d s of CPU time' % limit,
                                'info': {}}
        else:
            out['error'] = 'run exceeded %d s of CPU time or %d s of real time' % (limit, 4 * limit)
    except seams.SimBudgetExceeded as e:
        out['violation'] = {'cls': 'no-termination',
                            'detail': 'draw budget exhausted: %s' % e, 'info': {}}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if check.crash_is_violation and any(
                fr.filename.startswith(seams._DPPY_DIR) for fr in tb) and \
                not isinstance(e, seams.INJECTED):
            # the system under test failed inside a valid operation
            out['violation'] = {
                'cls': 'unexpected-error:' + type(e).__name__,
                'detail': '%s\n%s' % (e, ''.join(traceback.format_list(tb[-6:]))),
                'info': {}}
        else:
            out['error'] = traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        np.seterr(**old_err)
        sys.setprofile(None)
        sys.settrace(None)
    if out['violation']:
        ctx.ev('violation', out['violation']['cls'])
    out.update(stats=dict(ctx.stats), states=ctx.states, digest=ctx.digest(),
               sim_time=ctx.sim_time, nontrivial=ctx.nontrivial, agg=ctx.agg)
    if keep:
        out['events'] = ctx.events
    return out


def plan_for(check, seed, tier, i):
    r = random.Random('%s:%s:%s:%s' % (seed, check.id, tier, i))
    p = check.gen(r, tier, i)
    p.setdefault('seed', r.getrandbits(32))
    return json.loads(json.dumps(p))


_CHECK = None


def _work(args):
    seed, tier, i = args
    plan = plan_for(_CHECK, seed, tier, i)
    return i, execute(_CHECK, plan)


def load_check(cid):
    mod = importlib.import_module('dst.checks.' + cid.lower())
    return mod.CHECK


def known_findings():
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def matches_known(cid, plan, v):
    for k in known_findings():
        if k.get('status') == 'known' and k['property'] == cid \
                and k['cls'] == v['cls'] and k.get('match', {}).items() <= v['info'].items():
            return k
    return None


def minimise(check, plan, cls):
    budget = [check.minimise_budget]
    best = plan
    t_end = seams.real_now() + 120
    changed = True
    while changed and budget[0] > 0 and seams.real_now() < t_end:
        changed = False
        for cand in check.shrinks(best):
            if budget[0] <= 0 or seams.real_now() > t_end:
                break
            budget[0] -= 1
            try:
                cand = json.loads(json.dumps(cand))
                res = execute(check, cand)
            except Exception:
                continue
            if res['violation'] and res['violation']['cls'] == cls:
                best = cand
                changed = True
                break
    return best, check.minimise_budget - budget[0]


def write_replay(cid, tier, seed, i, plan, viol, extra):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    res = {'digest': None} if viol['cls'] == 'hang' else execute(load_check(cid), plan, keep=True)
    body = {'property': cid, 'verif_seed': seed, 'tier': tier, 'run': i,
            'plan': plan, 'violation': viol, 'event_digest': res['digest'],
            'events': res.get('events', [])[-400:]}
    body.update(extra)
    name = '%s-%s.json' % (cid, hashlib.sha256(
        json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, default=str)
    return path


def fresh_replay(path):
    p = subprocess.run([PY, '-m', 'dst.main', 'replay', path], cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=600)
    return p.returncode, p.stdout


def replay(path):
    body = json.load(open(path))
    check = load_check(body['property'])
    check._tier = body.get('tier', 'quick')
    res = execute(check, body['plan'], keep=True)
    same = bool(res['violation']) and res['violation']['cls'] == body['violation']['cls']
    exact = same and (res['digest'] == body['event_digest'] or body['event_digest'] is None)
    print('replay: violation=%s exact=%s digest=%s' % (
        res['violation'] and res['violation']['cls'], exact, res['digest']))
    if res['violation']:
        print(res['violation']['detail'])
        print('VIOLATION property=%s replay=%s' % (body['property'], path))
        return 1 if same else 4
    if res['error']:
        print(res['error'])
        return 3
    return 0


def run_check(cid, tier, seed, workers=None, runs=None, only=None, digests=None):
    global _CHECK
    t0 = seams.real_now()
    check = load_check(cid)
    _CHECK = check
    check._seed, check._tier = seed, tier
    print('check %s tier=%s VERIF_SEED=%s' % (cid, tier, seed), flush=True)
    n = runs or check.runs[tier]
    idx = list(range(n)) if only is None else only
    workers = workers or int(os.environ.get('DST_WORKERS', 0)) or len(os.sched_getaffinity(0))
    # a wall-clock guard for the whole batch: an error, never a pass
    limit = float(os.environ.get('DST_LIMIT', 820 if tier == 'quick' else 6 * 3600))
    results = {}
    timed_out, hangs = False, 0
    if workers == 1:
        for i in idx:
            results[i] = _work((seed, tier, i))[1]
    else:
        pool = mp.get_context('fork').Pool(workers)
        try:
            it = pool.imap_unordered(_work, [(seed, tier, i) for i in idx],
                                     chunksize=1)
            for _ in idx:
                left = limit - (seams.real_now() - t0)
                try:
                    i, r = it.next(timeout=max(1, left))
                except mp.TimeoutError:
                    timed_out = True
                    break
                results[i] = r
                if r['violation']:
                    if r['violation']['cls'] == 'hang':
                        hangs += 1
                    if hangs >= 3 or seams.real_now() - t0 > .6 * limit:
                        break
        finally:
            pool.terminate()
            pool.join()
    stats, states, nontriv, digs = Stats(), set(), set(), []
    sim_time, errors, viols, agg = 0.0, [], [], []
    for i in sorted(results):
        r = results[i]
        stats.merge(r['stats'])
        states |= r['states']
        sim_time += r['sim_time']
        digs.append((i, r['digest']))
        if r['nontrivial'] is not None:
            nontriv.add(r['nontrivial'])
        if r['error']:
            errors.append((i, r['error']))
        if r['violation']:
            viols.append((i, r['violation']))
        agg += r['agg']
    if digests is not None:
        digests.extend(digs)
    rc = 0
    reported = []
    fresh = []
    for i, v in viols:
        plan = plan_for(check, seed, tier, i)
        k = matches_known(cid, plan, v)
        if k:
            line = 'KNOWN-FINDING: property=%s %s' % (cid, k['what'])
            if line not in reported:
                print(line)
                reported.append(line)
        else:
            fresh.append((i, v, plan))
    # pooled judgements (statistics over all runs), only if nothing else failed
    if not fresh and not timed_out:
        for v, plan in check.pooled(agg):
            res = execute(check, plan)
            if res['violation']:
                fresh.append((-1, res['violation'], res.get('plan', plan)))
            else:
                stats.add('pooled_suspects_cleared')
    extra = {}
    if fresh:
        fresh.sort(key=lambda t: t[0])
        seen = []
        for i, v, plan in fresh:
            if v['cls'] not in [s[1]['cls'] for s in seen]:
                seen.append((i, v, plan))
        # report the first violation of the first class, minimised
        for i, v, plan in seen[:1]:
            small, used = (plan, 0) if os.environ.get('DST_NOMIN') or v['cls'] == 'hang' else minimise(check, plan, v['cls'])
            vv = v if v['cls'] == 'hang' else execute(check, small)['violation'] or v
            path = write_replay(cid, tier, seed, i, small, vv,
                                {'original_plan': plan, 'minimise_runs': used})
            ok = False
            for _ in range(3):
                code, out = fresh_replay(path)
                if code == 1:
                    ok = True
                    break
            if not ok:      # fall back to the unminimised run
                path = write_replay(cid, tier, seed, i, plan, v, {})
                for _ in range(3):
                    code, out = fresh_replay(path)
                    if code == 1:
                        ok = True
                        break
            extra = {'replay_reproduced_in_fresh_process': ok}
            print('violation class %s (run %d): %s' % (vv['cls'], i, vv['detail'][:600]))
            print('replay in a fresh process reproduces: %s' % ok)
            print('VIOLATION property=%s replay=%s' % (cid, path), flush=True)
        for i, v, plan in seen[1:6]:
            print('also: class %s (run %d): %s' % (v['cls'], i, v['detail'][:200]))
        rc = 1
    elif errors or timed_out:
        rc = 3
    for i, e in errors[:3]:
        print('HARNESS ERROR in run %d:\n%s' % (i, e), file=sys.stderr)
    if timed_out:
        print('HARNESS ERROR: batch exceeded %ss' % limit, file=sys.stderr)
    wall = seams.real_now() - t0
    done = len(results)
    cov = {
        'evaluations': int(stats.get('evaluations', done)),
        'distinct_nontrivial': len(nontriv) if nontriv else len(states),
        'rule': check.rule,
        'samples': [plan_for(check, seed, tier, i) for i in sorted(results)[:3]],
        'simulated_runs': done,
        'runs_per_hour': round(done / max(wall, 1e-9) * 3600),
        'seeds_per_hour': round(done / max(wall, 1e-9) * 3600),
        'simulated_seconds': round(sim_time, 6),
        'distinct_states': len(states),
        'state_measure': getattr(check, 'state_measure', 'hash of (operation, outcome class, cached-representation flags)'),
        'faults_fired': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
        'faults_armed': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('armed:')},
        'probes': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe:')},
        'counters': {k: v for k, v in sorted(stats.items()) if ':' not in k},
        'real_components': check.real, 'stub_components': check.stub,
        'harness_errors': len(errors) + int(timed_out), 'workers': workers,
        'digest': hashlib.sha256(repr(digs).encode()).hexdigest()[:16],
    }
    cov.update(check.finish_stats(stats))
    cov.update(extra)
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': check.level,
          'coverage': cov, 'assumptions': getattr(check, 'assumptions', []),
          'wall_s': round(wall, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d runs, %d evaluations, %d states, digest %s, %.1fs, exit %d' % (
        cid, done, cov['evaluations'], len(states), cov['digest'], wall, rc))
    return rc
