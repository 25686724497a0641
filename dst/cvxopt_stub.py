"""Stand-in for cvxopt (not installable here): just what zonotope_sampler uses.

matrix / spmatrix are thin dense wrappers; solvers.lp solves
min c.x s.t. Gx<=h, Ax=b exactly by enumerating bases when small, else with
scipy's simplex (basic optimal solutions, as glpk).
"""
import itertools
import sys
import types

import numpy as np
from scipy.optimize import linprog


class matrix:
    def __init__(self, data, size=None, tc=None):
        if isinstance(data, matrix):
            a = data.a.copy()
        elif size is not None and not isinstance(data, np.ndarray):
            a = np.full(size, float(data))
        else:
            a = np.array(data, dtype=float)
            if size is not None:
                a = a.reshape(size, order='F')
        if a.ndim == 0:
            a = a.reshape(1, 1)
        if a.ndim == 1:
            a = a.reshape(-1, 1)
        self.a = a

    @property
    def size(self):
        return self.a.shape

    def __len__(self):
        return self.a.size

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)

    def _k(self, k):
        return k if isinstance(k, tuple) else (k, 0) if isinstance(k, int) else k

    def __getitem__(self, k):
        if isinstance(k, tuple):
            out = self.a[k]
            return matrix(out.reshape(-1, 1)) if isinstance(out, np.ndarray) else float(out)
        out = self.a.ravel(order='F')[k]
        return matrix(out) if isinstance(out, np.ndarray) else float(out)

    def __setitem__(self, k, v):
        v = v.a if isinstance(v, matrix) else np.asarray(v, float)
        if isinstance(k, tuple):
            tgt = self.a[k]
            self.a[k] = v.reshape(tgt.shape) if np.size(v) == np.size(tgt) else v
        else:
            f = self.a.ravel(order='F')
            f[k] = v
            self.a = f.reshape(self.a.shape, order='F')

    def __add__(self, o):
        return matrix(self.a + (o.a if isinstance(o, matrix) else o))
    __radd__ = __add__

    def __sub__(self, o):
        return matrix(self.a - (o.a if isinstance(o, matrix) else o))

    def __neg__(self):
        return matrix(-self.a)

    def __mul__(self, o):
        if isinstance(o, matrix):
            return matrix(self.a * float(o.a[0, 0]) if o.a.size == 1 else self.a.dot(o.a))
        return matrix(self.a * float(o))
    __rmul__ = __mul__


class spmatrix(matrix):
    def __init__(self, x, I, J, size=None):
        I, J = list(I), list(J)
        if size is None:
            size = (max(I) + 1, max(J) + 1) if I else (0, 0)
        self.a = np.zeros(size)
        if I:
            self.a[I, J] = x


class LPBudget(BaseException):
    pass


calls = 0
budget = None
_cache = {}


def _bounds(G, h):
    """Box bounds if every row of G has exactly one nonzero."""
    nz = G != 0
    if not (nz.sum(1) <= 1).all():
        return None
    n = G.shape[1]
    lb, ub = np.full(n, -np.inf), np.full(n, np.inf)
    for row, hi in zip(*np.nonzero(nz)):
        g = G[row, hi]
        v = h[row] / g
        if g > 0:
            ub[hi] = min(ub[hi], v)
        else:
            lb[hi] = max(lb[hi], v)
    return lb, ub


def _small(c, lb, ub, A, b):
    """Exact basic optimal solution by enumeration of dual-feasible bases."""
    key = (c.tobytes(), A.tobytes(), lb.tobytes(), ub.tobytes())
    ent = _cache.get(key)
    if ent is None:
        if len(_cache) > 64:
            _cache.clear()
        m, n = A.shape
        free = [j for j in range(n) if not np.isfinite(lb[j])]
        rest = [j for j in range(n) if np.isfinite(lb[j])]
        bases = np.array([free + list(s) for s in
                          itertools.combinations(rest, m - len(free))])
        M = A[:, bases].transpose(1, 0, 2)
        ok = np.abs(np.linalg.det(M)) > 1e-12
        bases, M = bases[ok], M[ok]
        Mi = np.linalg.inv(M)
        Y = np.zeros((len(bases), n))
        for t, B in enumerate(bases):
            z = c[B].dot(Mi[t])
            red = c - z.dot(A)
            for j in rest:
                if j not in B:
                    Y[t, j] = lb[j] if red[j] > 0 else ub[j]
        ent = _cache[key] = (bases, Mi, Y, Y.dot(A.T), rest)
    bases, Mi, Y, R, rest = ent
    sol = np.einsum('tij,tj->ti', Mi, b[None, :] - R)
    lo, hi = lb[bases], ub[bases]
    slack = np.minimum(sol - lo, hi - sol).min(1)
    t = int(np.argmax(slack))
    if slack[t] < -1e-9:
        return None
    y = Y[t].copy()
    y[bases[t]] = sol[t]
    return y


def lp(c, G, h, A, b, solver=None, **kw):
    global calls
    calls += 1
    if budget is not None and calls > budget:
        raise LPBudget(calls)
    cc, bb = c.a.ravel(), b.a.ravel()
    x = None
    if A.a.shape[1] <= 8:
        bd = _bounds(G.a, h.a.ravel())
        if bd is not None:
            x = _small(cc, bd[0], bd[1], A.a, bb)
    if x is not None:
        return {'x': matrix(x), 'status': 'optimal'}
    r = linprog(cc, A_ub=G.a, b_ub=h.a.ravel(), A_eq=A.a,
                b_eq=bb, bounds=(None, None), method='highs-ds')
    return {'x': matrix(r.x) if r.x is not None else None,
            'status': 'optimal' if r.status == 0 else 'unknown'}


def install():
    if 'cvxopt' in sys.modules:
        return
    m = types.ModuleType('cvxopt')
    m.matrix, m.spmatrix = matrix, spmatrix
    s = types.ModuleType('cvxopt.solvers')
    s.options, s.lp = {}, lp
    m.solvers = s
    sys.modules['cvxopt'], sys.modules['cvxopt.solvers'] = m, s
