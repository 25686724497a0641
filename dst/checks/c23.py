"""C23: what is normalised or displayed is the last recorded sample."""
import math
import re

import numpy as np
from scipy import stats as st

from ..core import Check, Violation
from ..kernels import NONPROJ_KINDS, Kernel, make_dpp
from ..seams import INJECTED, BudgetRandomState, CallFaults, SimBudgetExceeded, rs

SQ2 = math.sqrt(2.0)
KINDS = ['hermite', 'laguerre', 'laguerre', 'jacobi', 'circular', 'ginibre']
OTHER = ['carries', 'descent', 'virtual', 'plancherel', 'plancherel', 'ust', 'finite', 'jacobi_ope', 'poly']


# ------------------------------------------------------ limiting laws (cdf)
def semicircle(x):
    x = np.clip(x, -2, 2)
    return .5 + x * np.sqrt(4 - x * x) / (4 * np.pi) + np.arcsin(x / 2) / np.pi


def by_quadrature(lo, hi, dens):
    """cdf of an unnormalised density on [lo, hi] with inverse square root or square root edges."""
    t = np.linspace(0, np.pi, 20001)
    x = lo + (hi - lo) * (1 - np.cos(t)) / 2
    with np.errstate(all='ignore'):
        f = np.nan_to_num(dens(x) * np.sin(t), posinf=0.0)
    F = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2)])
    return lambda y: np.interp(y, x, F / F[-1], left=0.0, right=1.0)


def marchenko_pastur(c):
    lo, hi = (1 - math.sqrt(c)) ** 2, (1 + math.sqrt(c)) ** 2
    return by_quadrature(lo, hi, lambda x: np.sqrt(np.maximum((hi - x) * (x - lo), 0)) / x)


def wachter(p, q):                    # p = M1 / N, q = M2 / N
    s = math.sqrt(p * (p + q - 1))
    lo, hi = ((s - math.sqrt(q)) / (p + q)) ** 2, ((s + math.sqrt(q)) / (p + q)) ** 2
    return by_quadrature(lo, hi, lambda x: np.sqrt(np.maximum((hi - x) * (x - lo), 0)) / (x * (1 - x)))


def sup_distance(x, F):
    x = np.sort(x)
    n = len(x)
    u = F(x)
    return max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))


# --------------------------------------------------------- what a figure shows
def shown_points(plt):
    out = []
    for f in plt.get_fignums():
        for ax in plt.figure(f).axes:
            for c in ax.collections:
                off = np.asarray(c.get_offsets(), dtype=float) if type(c).__name__ == 'PathCollection' else None
                if off is not None:
                    out.append(off.reshape(-1, 2))
            for l in ax.lines:
                if l.get_marker() not in (None, 'None', '', ' ') and l.get_linestyle() in ('None', ' ', ''):
                    out.append(np.array(l.get_xydata()))
    return out


def shown_bars(plt):
    out = []
    for f in plt.get_fignums():
        for ax in plt.figure(f).axes:
            bars = [p for p in ax.patches if type(p).__name__ == 'Rectangle']
            if len(bars) > 1:
                out.append(([b.get_x() for b in bars] + [bars[-1].get_x() + bars[-1].get_width()],
                            [b.get_height() for b in bars]))
    return out


def close(a, b):
    return np.allclose(a, b, rtol=1e-8, atol=1e-9 * max(1.0, np.max(np.abs(b), initial=0.0)))


def same_points(a, xy):
    if len(a) != len(xy):
        return False
    if not len(a):
        return True
    s = max(1.0, np.abs(xy).max())
    ka, kb = (np.lexsort(np.round(m / s, 7).T) for m in (a, xy))
    return close(a[ka], xy[kb]) or close(np.sort(a, axis=0), np.sort(xy, axis=0))


class C23(Check):
    id = 'C23'
    title = 'normalised and displayed points are those of the last recorded sample'
    runs = {'quick': 5000, 'thorough': 60000}
    rule = ('seeded histories of sampling calls with changing models and parameters, rejected calls, failing '
            'linear algebra, exhausted random sources, flushes and displays on one object; after every step '
            'the last recorded sample is normalised and shown; one run in eight draws a large sample and '
            'compares it, normalised, with the limiting law; non-trivial = a sample judged after a failed call '
            'or a change of parameters')
    state_measure = 'distinct (object kind, model, beta class, what happened since the sample) tuples'
    assumptions = ['limiting laws are compared at sizes where the deviation is far below the threshold']

    # ------------------------------------------------------------- plans
    def gen(self, r, tier, i):
        if i % 8 == 3:
            return self.gen_limit(r)
        kind = r.choice(KINDS) if r.random() < .7 else r.choice(OTHER)
        if kind in ('circular',):
            beta = r.choice([0, 1, 2, 4, 3])
        elif kind == 'ginibre':
            beta = 2
        else:
            beta = r.choice([0, 1, 2, 2, 4, .7, 3])
        ops = []
        for _ in range(r.choice([2, 3, 4, 6])):
            what = r.choice(['sample', 'sample', 'sample', 'reject', 'reject', 'fault', 'budget', 'show', 'flush', 'str'])
            ops.append([what, r.choice(['full', 'banded', 'banded']), r.choice([1, 2, 3, 6, 12]), r.getrandbits(30)])
        return {'kind': kind, 'beta': beta, 'kseed': r.getrandbits(30), 'show': r.random() < .12,
                'history': [['sample', r.choice(['full', 'banded']), r.choice([2, 3, 7]), r.getrandbits(30)]] + ops}

    def gen_limit(self, r):
        kind = r.choice(KINDS)
        model = r.choice(['full', 'banded']) if kind != 'ginibre' else 'full'
        beta = 2 if kind == 'ginibre' else r.choice([1, 2, 4]) if model == 'full' else r.choice([1, 2, 3, 10])
        N = r.choice([100, 150])
        par = {}
        if kind == 'hermite' and model == 'banded':
            par = {'loc': r.choice([0.0, 5.0, -40.0]), 'scale': r.choice([SQ2, .3, 8.0])}
        if kind == 'laguerre':
            M = int(N * r.choice([1.2, 2, 5]))
            par = {'size_M': M}
            if model == 'banded' and r.random() < .6:
                par = {'shape': .5 * beta * (M - N + 1), 'scale': r.choice([2.0, .5, 7.0])}
        if kind == 'jacobi':
            M1, M2 = int(N * r.choice([1.3, 3])), int(N * r.choice([1.5, 2]))
            par = {'size_M1': M1, 'size_M2': M2}
            if model == 'banded' and r.random() < .6:
                par = {'a': .5 * beta * (M1 - N + 1), 'b': .5 * beta * (M2 - N + 1)}
        if kind == 'circular' and model == 'full':
            par = {'haar_mode': r.choice(['Hermite', 'QR']) if beta != 4 else 'Hermite'}
        return {'kind': kind, 'beta': beta, 'limit': N, 'model': model, 'par': par, 'sseed': r.getrandbits(30),
                'history': [['reject', r.choice(['full', 'banded']), 3, r.getrandbits(30)] for _ in range(r.choice([0, 1]))]}

    # --------------------------------------------------------------- runs
    def run(self, p, ctx):
        if p['kind'] in KINDS:
            from .c13 import C13
            obj = C13.make(p['kind'], p['beta'])
            (self.limit if 'limit' in p else self.ensemble)(obj, p, ctx)
        else:
            getattr(self, 'other_' + p['kind'])(p, ctx)

    @staticmethod
    def params(kind, model, N, beta, s):
        g = rs('c23', kind, model, N, s)
        if kind == 'hermite':
            return {} if model == 'full' else {'loc': g.choice([0.0, 3.0, -20.0]), 'scale': g.choice([1.0, .2, 6.0])}
        if kind == 'laguerre':
            if model == 'full' or beta and g.rand() < .3:
                return {'size_M': int(N + g.choice([0, 2, 9]))}
            return {'shape': g.choice([.5, 2.0, 9.0]), 'scale': g.choice([.3, 2.0, 5.0])}
        if kind == 'jacobi':
            if model == 'full' or beta and g.rand() < .3:
                return {'size_M1': int(N + g.choice([0, 3])), 'size_M2': int(N + g.choice([1, 5]))}
            return {'a': g.choice([.5, 3.0]), 'b': g.choice([.6, 4.0])}
        if kind == 'circular' and model == 'full':
            return {'haar_mode': str(g.choice(['Hermite', 'QR'])) if beta != 4 else 'Hermite'}
        return {}

    @staticmethod
    def allowed(kind, model, beta):
        if kind == 'ginibre':
            return model == 'full'
        if model == 'full':
            return beta in (1, 2, 4) or beta == 0 and kind in ('hermite', 'circular')
        return True

    @staticmethod
    def bad_call(kind, model, N, s):
        """Arguments no sampler accepts."""
        g = rs('bad', kind, s)
        bad = [{'size_N': 'three'}, {'size_N': None}, {'size_N': N, 'random_state': 'seed'}, {'size_N': -3}]
        if kind == 'hermite' and model == 'banded':
            bad += [{'size_N': N, 'loc': 'x', 'scale': 3.0}, {'size_N': N, 'scale': -1.0, 'loc': 9.0},
                    {'size_N': N, 'scale': None}]
        if kind == 'laguerre':
            bad += [{'size_N': N + 2, 'size_M': N}] * 2
            if model == 'banded':
                bad += [{'size_N': N, 'shape': -30.0, 'scale': 3.0}, {'size_N': N, 'shape': 2.0, 'scale': None}]
        if kind == 'jacobi':
            bad += [{'size_N': N + 2, 'size_M1': N, 'size_M2': N + 5}, {'size_N': N + 2, 'size_M1': N + 9, 'size_M2': N}]
        if kind == 'circular' and model == 'full':
            bad += [{'size_N': N, 'haar_mode': 'nope'}]
        return bad[g.randint(len(bad))]

    def sample(self, obj, kind, model, **kw):
        return (obj.sample_full_model if model == 'full' or kind == 'ginibre' else obj.sample_banded_model)(**kw)

    @staticmethod
    def normal_form(kind, model, beta, N, par, x):
        """The documented map."""
        x = np.asarray(x)
        if kind == 'hermite':
            y = x if model == 'full' else SQ2 * (x - par['loc']) / par['scale']
            return y / math.sqrt(beta * N) if beta > 0 else y
        if kind == 'laguerre':
            scale = par.get('scale', 2.0)
            y = x if model == 'full' else 2.0 * x / scale
            M = par.get('size_M') or (2.0 / beta * par['shape'] + N - 1 if beta else None)
            return y / (beta * M) if beta > 0 else y
        if kind == 'ginibre':
            return x / math.sqrt(N)
        return x

    def ensemble(self, obj, p, ctx):
        kind, beta = p['kind'], p['beta']
        last = None                         # (model, N, par, copy of the sample)
        since = []
        for what, model, N, s in p['history']:
            n0 = len(obj.list_of_samples)
            ctx.stats.add('history_ops')
            if kind == 'ginibre':
                model = 'full'
            if what in ('sample', 'fault', 'budget'):
                par = self.params(kind, model, N, beta, s)
                ok = self.allowed(kind, model, beta)
                state = np.random.RandomState(s)
                if what == 'budget':
                    state = BudgetRandomState(s)
                    state.left = s % 3
                x = None
                try:
                    if what == 'fault':
                        with CallFaults('linalg', s % 3):
                            x = self.sample(obj, kind, model, size_N=N, random_state=state, **par)
                    else:
                        x = self.sample(obj, kind, model, size_N=N, random_state=state, **par)
                except INJECTED:
                    ctx.stats.add('fault:linalg')
                except SimBudgetExceeded:
                    ctx.stats.add('fault:draw_budget')
                except ValueError:
                    if ok:
                        raise
                    ctx.stats.add('probe:rejected')
                if x is not None:
                    last, since = ((model, N, par, np.array(x)) if ok else None), []
                else:
                    since.append(what)
            elif what == 'reject':
                kw = self.bad_call(kind, model, N, s)
                try:
                    self.sample(obj, kind, model, **kw)
                except Exception:
                    ctx.stats.add('probe:rejected')
                    since.append('reject-' + model)
                else:
                    return                  # accepted after all: nothing to say here
                if len(obj.list_of_samples) != n0:
                    raise Violation('recorded-failure', '%s: rejected call %r recorded a sample' % (kind, kw))
            elif what == 'flush':
                obj.flush_samples()
                since.append('flush')
            elif what == 'str':
                str(obj)
            if last is None:
                continue
            model0, N0, par0, x0 = last
            want = self.normal_form(kind, model0, beta, N0, par0, x0)
            got = np.asarray(obj.normalize_points(x0.copy()))
            if got.shape != want.shape or not close(got, want):
                raise Violation('normalisation', '%s beta=%s %s %r N=%d: after %r normalize_points gives %r instead '
                                'of %r' % (kind, beta, model0, par0, N0, since, got[:3], want[:3]))
            ctx.state(kind, model0, beta > 0, tuple(since)[-3:])
            if since:
                ctx.nontrivial = '%s-%s-%s-%d' % (kind, model0, since, s)
            if (what == 'show' or p['show']) and obj.list_of_samples:
                self.shown(obj, p, last, want, s, ctx)

    def shown(self, obj, p, last, want, s, ctx):
        import matplotlib.pyplot as plt
        kind, (model, N, par, x) = p['kind'], last
        plt.close('all')
        norm = bool(s & 1)
        pts = want if norm else x
        how = 'plot' if s & 2 else 'hist'
        try:
            getattr(obj, how)(normalization=norm)
            where = '%s.%s(normalization=%r) for %s %r N=%d beta=%s' % (kind, how, norm, model, par, N, p['beta'])
            if how == 'plot':
                xy = np.c_[pts.real, pts.imag if np.iscomplexobj(pts) else np.zeros(len(pts))]
                self.expect_points(plt, xy, where, ctx)
            else:
                v = np.angle(pts) if kind == 'circular' else np.abs(pts) if kind == 'ginibre' else pts
                self.expect_bars(plt, v, where, ctx)
            if norm:
                self.expect_curve(plt, self.density(kind, p['beta'], N, par), where, ctx)
            for f in plt.get_fignums():
                for ax in plt.figure(f).axes:
                    m = re.search(r'Realization of (\d+) points', ax.get_title())
                    if m and int(m.group(1)) != N:
                        raise Violation('title', '%s: the title announces %s points, %d shown' % (where, m.group(1), N))
                    told = [float(v) for v in re.findall(r'approx\s*(\d+\.\d+)', ax.get_title())]
                    size = self.ratios(kind, p['beta'], N, par)
                    if size and len(told) == len(size) and not np.allclose(told, size, rtol=1e-3, atol=2e-3):
                        raise Violation('title', '%s: the title announces ratios %r, they are %r' % (where, told, size))
        finally:
            plt.close('all')

    @staticmethod
    def ratios(kind, beta, N, par):
        """M / N (or M1 / N, M2 / N) of the sample."""
        if not beta:
            return None
        if kind == 'laguerre':
            return [(par.get('size_M') or 2.0 / beta * par['shape'] + N - 1) / N]
        if kind == 'jacobi':
            return [(par.get(k) or 2.0 / beta * par[v] + N - 1) / N for k, v in (('size_M1', 'a'), ('size_M2', 'b'))]
        return None

    @staticmethod
    def density(kind, beta, N, par):
        """The documented curve: limiting law, or law of the i.i.d. points, for the parameters of the sample."""
        if kind == 'hermite':
            if beta:
                return lambda x: np.sqrt(np.maximum(4 - x ** 2, 0)) / (2 * np.pi)
            return lambda x: np.exp(-x ** 2 / 4) / math.sqrt(4 * np.pi)
        if kind == 'laguerre':
            if not beta:
                return lambda x: st.gamma.pdf(x, par['shape'], scale=2.0) if 'shape' in par else None
            c = N / (par.get('size_M') or 2.0 / beta * par['shape'] + N - 1)
            if c <= 1:
                lo, hi = (1 - math.sqrt(c)) ** 2, (1 + math.sqrt(c)) ** 2
                return lambda x: np.sqrt(np.maximum((hi - x) * (x - lo), 0)) / (2 * np.pi * c * x)
        if kind == 'jacobi':
            if not beta:
                return lambda x: st.beta.pdf(x, par['a'], par['b']) if 'a' in par else None
            a = (par.get('size_M1') or 2.0 / beta * par['a'] + N - 1) / N
            b = (par.get('size_M2') or 2.0 / beta * par['b'] + N - 1) / N
            if min(a, b) >= 1:
                lo, hi = (((math.sqrt(a * (a + b - 1)) + e * math.sqrt(b)) / (a + b)) ** 2 for e in (-1, 1))
                return lambda x: (a + b) / (2 * np.pi) * np.sqrt(np.maximum((hi - x) * (x - lo), 0)) / (x * (1 - x))
        return None

    @staticmethod
    def expect_curve(plt, f, where, ctx):
        for k in plt.get_fignums():
            for ax in plt.figure(k).axes:
                for l in ax.lines:
                    x, y = (np.asarray(v, float) for v in l.get_data())
                    if f is None or len(x) < 20 or l.get_linestyle() in ('None', ' ', ''):
                        continue
                    with np.errstate(all='ignore'):
                        want = f(x)
                    ok = np.isfinite(y) & np.isfinite(want) if want is not None else np.zeros(len(x), bool)
                    ctx.stats.add('curves')
                    if not np.allclose(y[ok], want[ok], rtol=1e-6, atol=1e-8):
                        raise Violation('curve', '%s: the density drawn is %r at %r, expected %r'
                                        % (where, y[ok][20:23], x[ok][20:23], want[ok][20:23]))

    @staticmethod
    def expect_points(plt, xy, where, ctx):
        seen = shown_points(plt)
        if not seen:
            ctx.stats.add('display_not_understood')
            return
        ctx.stats.add('displays')
        if not any(same_points(a, xy) for a in seen):
            raise Violation('display', '%s: the figure shows %r, not the last sample %r'
                            % (where, [a[:4].tolist() for a in seen], xy[:4].tolist()))

    @staticmethod
    def expect_bars(plt, v, where, ctx):
        seen = shown_bars(plt)
        if not seen:
            ctx.stats.add('display_not_understood')
            return
        ctx.stats.add('displays')
        for edges, heights in seen:
            edges, heights = np.array(edges), np.array(heights)
            if np.isfinite(edges).all() and np.all(np.diff(edges) > 0):
                w_ = edges[-1] - edges[0]
                edges[0] -= 1e-8 * w_
                edges[-1] += 1e-8 * w_
                # points that sit on a bin edge up to rounding may fall on either side
                for t in (0, 1e-9, -1e-9):
                    w = np.histogram(np.asarray(v) + t * max(1.0, np.abs(v).max()), bins=edges)[0]
                    with np.errstate(all='ignore'):
                        w = w / w.sum() / np.diff(edges)
                    if np.allclose(w, heights, rtol=1e-5, atol=1e-6 * np.max(heights, initial=0.0), equal_nan=True):
                        return
            else:
                return
        raise Violation('display', '%s: histogram heights %r are not those of the last sample' % (where, seen[0][1][:6]))

    def limit(self, obj, p, ctx):
        kind, beta, N, model = p['kind'], p['beta'], p['limit'], p['model']
        for what, m, n, s in p['history']:
            if kind == 'ginibre':
                m = 'full'
            try:
                self.sample(obj, kind, m, **self.bad_call(kind, m, n, s))
            except Exception:
                pass
        x = self.sample(obj, kind, model, size_N=N, random_state=p['sseed'], **p['par'])
        y = np.asarray(obj.normalize_points(np.array(x)))
        if kind == 'hermite':
            d = sup_distance(y, semicircle)
        elif kind == 'laguerre':
            M = p['par'].get('size_M') or 2.0 / beta * p['par']['shape'] + N - 1
            d = sup_distance(y, marchenko_pastur(N / M))
        elif kind == 'jacobi':
            M1 = p['par'].get('size_M1') or 2.0 / beta * p['par']['a'] + N - 1
            M2 = p['par'].get('size_M2') or 2.0 / beta * p['par']['b'] + N - 1
            d = sup_distance(y, wachter(M1 / N, M2 / N))
        elif kind == 'circular':
            d = sup_distance(np.mod(np.angle(y), 2 * np.pi), lambda t: t / (2 * np.pi))
        else:
            d = sup_distance(np.abs(y), lambda r: np.clip(r, 0, 1) ** 2)
        ctx.ev('limit', kind, model, beta, N, '%.6f' % d)
        ctx.state('limit', kind, model, beta, sorted(p['par']))
        ctx.nontrivial = 'limit-%s-%s-%s-%d' % (kind, model, beta, p['sseed'])
        if d > .12:
            raise Violation('limit', '%s %s beta=%s N=%d %r: the normalised sample is %.3f away (sup distance of '
                            'distribution functions) from the limiting law' % (kind, model, beta, N, p['par'], d))

    # ------------------------------------------------- other objects: displays
    def history(self, p, ctx, do, bad):
        """Yields the recorded sample after each step."""
        last = None
        for what, model, N, s in p['history']:
            ctx.stats.add('history_ops')
            if what == 'reject':
                try:
                    bad(N, s)
                except Exception:
                    ctx.stats.add('probe:rejected')
                else:
                    return
            elif what == 'budget':
                state = BudgetRandomState(s)
                state.left = s % 3
                try:
                    do(N, s, state)
                except SimBudgetExceeded:
                    ctx.stats.add('fault:draw_budget')
                else:
                    last = True
            elif what in ('sample', 'fault'):
                do(N, s, np.random.RandomState(s))
                last = True
            elif what == 'show' or p['show']:
                if last:
                    yield s
        if last:
            yield s

    def other(self, p, ctx, obj, do, bad, display):
        import matplotlib.pyplot as plt
        for s in self.history(p, ctx, do, bad):
            plt.close('all')
            try:
                display(plt, s)
            finally:
                plt.close('all')
            ctx.state(p['kind'], len(p['history']))
            ctx.nontrivial = '%s-%d' % (p['kind'], p['kseed'])

    def exotic(self, p, ctx, obj):
        def display(plt, s):
            x = np.asarray(obj.list_of_samples[-1], dtype=float)
            kw = {'vs_bernoullis': bool(s & 1)}
            if s & 1:
                kw['random_state'] = s
            obj.plot(**kw)
            seen = shown_points(plt)
            ctx.stats.add('displays')
            if seen and not any(close(np.sort(a[:, 0]), np.sort(x)) for a in seen if len(a) == len(x)):
                raise Violation('display', '%s: the figure does not show the last sample %r' % (p['kind'], x[:8]))
        self.other(p, ctx, obj, lambda N, s, st: obj.sample(size=5 * N, random_state=st),
                   lambda N, s: obj.sample(size='x', random_state=s), display)

    def other_carries(self, p, ctx):
        from dppy.exotic_dpps import CarriesProcess
        self.exotic(p, ctx, CarriesProcess(2 + p['kseed'] % 9))

    def other_descent(self, p, ctx):
        from dppy.exotic_dpps import DescentProcess
        self.exotic(p, ctx, DescentProcess())

    def other_virtual(self, p, ctx):
        from dppy.exotic_dpps import VirtualDescentProcess
        self.exotic(p, ctx, VirtualDescentProcess(x_0=.5))

    def other_plancherel(self, p, ctx):
        from dppy.exotic_dpps import PoissonizedPlancherel
        theta = [10.0, 1.0, .2, 60.0][p['kseed'] % 4]
        obj = PoissonizedPlancherel(theta)

        def display(plt, s):
            x = np.asarray(obj.list_of_samples[-1], dtype=float)
            before = x.copy()
            if s & 1:
                obj.plot()
            else:
                norm = bool(s & 2)
                obj.plot_diagram(normalization=norm)
                x = x / math.sqrt(theta) if norm else x
            ctx.stats.add('displays')
            seen = shown_points(plt)
            if seen and not any(close(np.sort(a[:, 0]), np.sort(x)) for a in seen if len(a) == len(x)):
                raise Violation('display', 'plancherel: the figure does not show the last sample %r' % x[:8])
            if not np.array_equal(np.asarray(obj.list_of_samples[-1], dtype=float), before):
                raise Violation('display-changes-sample', 'plancherel: displaying changed the recorded sample')
        self.other(p, ctx, obj, lambda N, s, st: obj.sample(random_state=st),
                   lambda N, s: obj.sample(random_state='x'), display)

    def other_ust(self, p, ctx):
        import networkx as nx
        from dppy.exotic_dpps import UST
        g = rs('c23ust', p['kseed'])
        n = 3 + g.randint(4)
        G = nx.gnp_random_graph(n, .6, seed=int(g.randint(10 ** 6)))
        G.add_edges_from((i, i + 1) for i in range(n - 1))
        if g.rand() < .5:
            G = nx.relabel_nodes(G, {i: 'v%d' % ((i * 3 + 1) % 97) for i in G})
        obj = UST(G)
        num = {frozenset(e): i for i, e in enumerate(G.edges())}

        def display(plt, s):
            tree = obj.list_of_samples[-1]
            want = sorted(num[frozenset(e)] for e in tree.edges())
            obj.plot()
            ctx.stats.add('displays')
            labels = [re.fullmatch(r'\$e_\{?(\d+)\}?\$', t.get_text()) for f in plt.get_fignums()
                      for ax in plt.figure(f).axes for t in ax.texts]
            got = sorted(int(m.group(1)) for m in labels if m)
            if got and got != want:
                raise Violation('display', 'UST.plot labels edges %r, the last tree has edges %r' % (got, want))
        modes = ['Wilson', 'Aldous-Broder', 'GS', 'Schur', 'Chol']
        self.other(p, ctx, obj, lambda N, s, st: obj.sample(mode=modes[s % 5], random_state=st),
                   lambda N, s: obj.sample(mode='nope', random_state=s), display)

    def other_finite(self, p, ctx):
        from dppy.finite_dpps import FiniteDPP
        g = rs('c23finite', p['kseed'])
        kinds = [k for k in NONPROJ_KINDS if k not in ('nearproj', 'large')]
        kern = Kernel({'N': 2 + int(g.randint(4)), 'kind': kinds[g.randint(len(kinds))], 'seed': p['kseed']})
        rep = kern.reps()[g.randint(len(kern.reps()))]
        obj, _ = make_dpp(FiniteDPP, kern, rep)

        def display(plt, s):
            t = ['correlation', 'likelihood'][s % 2]
            obj.plot_kernel(kernel_type=t, **({'save_path': ''} if s & 4 else {}))
            ctx.stats.add('displays')
            ref = kern.K if t == 'correlation' else kern.L
            for f in plt.get_fignums():
                for ax in plt.figure(f).axes:
                    for c in ax.collections:
                        a = c.get_array()
                        if a is not None and np.size(a) == ref.size:
                            if not np.allclose(np.ravel(a), np.ravel(ref), rtol=1e-6, atol=1e-7 * max(1, np.abs(ref).max())):
                                raise Violation('display', 'plot_kernel(%r) on %s does not show the %s kernel'
                                                % (t, rep, t))
        self.other(p, ctx, obj, lambda N, s, st: obj.sample_exact(random_state=st),
                   lambda N, s: obj.sample_exact(mode='nope', random_state=s), display)

    def other_jacobi_ope(self, p, ctx):
        from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
        d = 1 + p['kseed'] % 2
        N = 2 + p['kseed'] // 2 % 4
        obj = MultivariateJacobiOPE(N, rs('c23jac', p['kseed']).uniform(-.5, .5, (d, 2)))
        box = []

        def do(n, s, st):
            box[:] = [obj.sample(random_state=st)]

        def display(plt, s):
            obj.plot(box[0], weighted=['', '', 'BH'][s % 3])
            ctx.stats.add('displays')
            seen = shown_points(plt)
            xy = np.c_[box[0], np.zeros(N)] if d == 1 else box[0]
            if seen and not any(same_points(a, xy) for a in seen):
                raise Violation('display', 'MultivariateJacobiOPE.plot does not show the given points')
        self.other(p, ctx, obj, do, lambda N, s: obj.sample(random_state='x'), display)

    def other_poly(self, p, ctx):
        from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential
        V = [[.5, 0, 0], [.25, 0, 0, 0, 0], [.25, 0, .5, 0, 0]][p['kseed'] % 3]
        beta = [1.0, 2.0, 4.0][p['kseed'] // 3 % 3]
        obj = BetaEnsemblePolynomialPotential(beta, np.poly1d(V))
        ref = BetaEnsemblePolynomialPotential(beta, np.poly1d(V))
        ref.sample_mcmc(N=1, nb_gibbs_passes=1, sample_exact_cond=True, random_state=0)
        lam = np.array([0.3, 1.9, 2.4])
        unit = np.asarray(ref.rescale_largest_eig_val(lam))
        box = []

        def do(n, s, st):
            box[:] = [n, obj.sample_mcmc(N=n, nb_gibbs_passes=2, sample_exact_cond=True, random_state=st)]

        def bad(n, s):
            # rejected before sampling: nothing about the previous sample changes
            obj.sample_mcmc(N=n + 5, nb_gibbs_passes=1, sample_exact_cond=True, random_state='x')

        def display(plt, s):
            n, x = box
            got = np.asarray(obj.rescale_largest_eig_val(lam))
            if not close(got, unit * n ** (2.0 / 3.0)):
                raise Violation('normalisation', 'rescale_largest_eig_val after a sample of %d points: %r, expected '
                                'N^(2/3) c (x - b) = %r' % (n, got, unit * n ** (2.0 / 3.0)))
            obj.hist(x)
            ctx.stats.add('displays')
        p = dict(p, history=[h for h in p['history'] if h[0] not in ('budget',)])
        self.other(p, ctx, obj, do, bad, display)


CHECK = C23()
