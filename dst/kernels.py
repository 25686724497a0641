"""Reference models: kernels with every parametrisation, exact subset laws.

Independent of dppy: everything here is direct enumeration of determinants.
"""
import itertools

import numpy as np

from .seams import rs


# --------------------------------------------------------------------------
# user kernel functions (the caller's code; counts calls, may fail)
# --------------------------------------------------------------------------
class EvalL:
    """User-supplied likelihood function with fault injection."""

    def __init__(self, kind, gamma=1.0, scale=1.0, diag_method=False, memo=False):
        self.kind, self.gamma, self.scale = kind, gamma, scale
        self.calls = 0
        self.fail_at = None
        self.exc = None
        self.memo = {} if memo else None
        if diag_method:
            self.diag = self._diag

    out = ''            # 'F': Fortran order, 'ro': read-only arrays

    def _diag(self, X):
        key = ('diag', X.tobytes(), X.shape)
        if self.memo is not None and key in self.memo:
            return self.memo[key]
        return self._keep(key, np.array([self._k(np.atleast_2d(x), np.atleast_2d(x))[0, 0] for x in X]))

    def _keep(self, key, M):
        if self.out == 'F':
            M = np.asfortranarray(M)
        if self.out == 'ro':
            M.flags.writeable = False
        if self.memo is not None:
            self.memo[key] = M
        return M

    def _k(self, X, Y):
        if self.kind == 'linear':
            G = X.dot(Y.T)
        elif self.kind == 'poly':
            G = (1.0 + X.dot(Y.T)) ** 2
        else:
            d2 = ((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1)
            G = np.exp(-self.gamma * d2)
        return self.scale * G

    def __call__(self, X, Y=None):
        self.calls += 1
        if self.fail_at is not None and self.calls >= self.fail_at:
            self.fail_at = None
            raise self.exc
        X = np.atleast_2d(X)
        Y = X if Y is None else np.atleast_2d(Y)
        key = (X.tobytes(), Y.tobytes(), X.shape, Y.shape)
        if self.memo is not None and key in self.memo:
            return self.memo[key]
        return self._keep(key, self._k(X, Y))


# --------------------------------------------------------------------------
# kernel specs
# --------------------------------------------------------------------------
NONPROJ_KINDS = ['generic', 'lowrank', 'diag', 'block', 'dup', 'nearproj',
                 'repeated', 'small', 'large', 'mixed01', 'neg', 'hard', 'zero', 'intL']


def gen_spec(r, N=None, kinds=None, Nmax=6):
    N = N or r.choice([1, 2, 3, 3, 4, 4, 5, 5, 6][:max(1, 9)] if Nmax >= 6 else range(1, Nmax + 1))
    kind = r.choice(kinds or NONPROJ_KINDS)
    return {'N': N, 'kind': kind, 'seed': r.getrandbits(30)}


def haar(N, rng):
    Q, R = np.linalg.qr(rng.randn(N, N))
    return Q * np.sign(np.diagonal(R))


class Kernel:
    """A DPP on N<=~40 items given by eigenpairs of L (or of a projection K)."""

    def __init__(self, spec):
        self.spec = spec
        N, kind = spec['N'], spec['kind']
        rng = rs('kernel', spec['seed'], N, kind)
        self.N = N
        self.projection = kind.startswith('proj')
        self.lproj = kind == 'Lproj'         # projection *likelihood* kernel
        self.eval_L = None
        U = haar(N, rng)
        if self.projection:
            r_ = 0 if kind == 'projzero' else spec.get('rank') or 1 + rng.randint(N)
            self.rank = r_
            if kind == 'projgraph':          # many exact zeros
                B = np.zeros((N, r_))
                for c in range(r_):
                    B[c, c] = 1.0
                    if N > r_:
                        B[r_ + rng.randint(N - r_), c] = 1.0
                U = np.linalg.qr(B, mode='complete')[0]
            elif kind == 'projdiag':
                U = np.eye(N)[:, rng.permutation(N)]
            self.k_vals = np.r_[np.ones(r_), np.zeros(N - r_)]
            p = rng.permutation(N)
            self.k_vals, U = self.k_vals[p], U[:, p]
            self.U = U
            self.l_vals = None
        else:
            if kind in ('generic', 'neg'):
                lv = rng.gamma(1.0, 2.0, size=N) + 0.05
            elif kind == 'lowrank':
                r_ = 1 + rng.randint(max(1, N - 1))
                lv = np.r_[rng.gamma(1.0, 3.0, size=r_) + 0.3, np.zeros(N - r_)]
            elif kind in ('diag', 'block', 'hard'):
                lv = rng.gamma(1.0, 2.0, size=N) + 0.1
            elif kind == 'dup':
                lv = rng.gamma(1.0, 3.0, size=N) + 0.1
            elif kind == 'nearproj':
                lv = np.where(rng.rand(N) < .5, 300.0, 0.003)
                lv[0] = 300.0
            elif kind == 'repeated':
                lv = np.full(N, rng.gamma(2.0, 1.0) + .1)
                if N > 2:
                    lv[0] = 0.2
            elif kind == 'small':
                lv = rng.gamma(1.0, 0.08, size=N) + 0.01
            elif kind == 'large':
                lv = rng.gamma(2.0, 20.0, size=N) + 1.0
            elif kind == 'mixed01':
                lv = np.where(rng.rand(N) < .4, 0.0, rng.gamma(1., 3., size=N) + .2)
                lv[rng.randint(N)] = 50.0
            elif kind == 'zero':
                lv = np.zeros(N)
                lv[rng.randint(N)] = 1.5
            elif kind in ('huge', 'tiny'):
                lv = (rng.gamma(1.0, 2.0, size=N) + .2) * (1e8 if kind == 'huge' else 1e-9)
                if N > 2 and rng.rand() < .5:
                    lv[0] = 0.0
            elif kind == 'nearone':          # correlation eigenvalues just below one
                lv = rng.gamma(1.0, 2.0, size=N) + .2
                lv = np.where(rng.rand(N) < .5, 10.0 ** rng.uniform(2.5, 7.0, size=N), lv)
                lv[0] = 10.0 ** rng.uniform(3.2, 7.0)
            elif kind == 'decay':            # RBF-like spectrum
                lv = 10.0 ** (-12.0 * np.arange(N) / N)
            elif kind == 'null':
                lv = np.zeros(N)
            elif kind == 'rounding':         # invalid only up to rounding errors
                lv = rng.gamma(1.0, 2.0, size=N) + .1
                lv[0] = -1e-10
            elif kind == 'Kone':             # correlation kernel with eigenvalue one
                lv = rng.gamma(1.0, 2.0, size=N) + .1
                lv[rng.rand(N) < .4] = np.inf
                lv[0] = np.inf
            elif kind == 'K01':              # diagonal correlation kernel with entries 0 and 1
                lv = np.where(rng.rand(N) < .5, np.inf, 0.0)
                lv[0] = np.inf
            elif kind == 'intL':             # small integers everywhere
                lv = rng.randint(0, 4, size=N).astype(float)
                lv[0] = 2.0
            elif kind == 'Lproj':
                r_ = 1 + rng.randint(N)
                lv = np.r_[np.ones(r_), np.zeros(N - r_)]
            else:
                raise ValueError(kind)
            if kind in ('diag', 'K01'):
                U = np.eye(N)
            elif kind == 'intL':
                U = np.eye(N)[:, rng.permutation(N)] * rng.choice([-1.0, 1.0], size=N)
            elif kind == 'block':
                h = max(1, N // 2)
                U = np.zeros((N, N))
                U[:h, :h] = haar(h, rng)
                if N > h:
                    U[h:, h:] = haar(N - h, rng)
            elif kind == 'hard':             # integer-ish Gram, exact zeros
                B = rng.randint(-1, 2, size=(N, N)).astype(float)
                if not B.any():
                    B = np.eye(N)
                lv, U = np.linalg.eigh(B.T.dot(B))
                lv = np.where(lv < 1e-9, 0.0, lv)
                self.B = B
            if kind == 'dup' and N > 1:      # two identical items
                B = (U * np.sqrt(lv)).T
                B[:, 1] = B[:, 0]
                lv, U = np.linalg.eigh(B.T.dot(B))
                lv = np.where(lv < 1e-9, 0.0, lv)
            p = rng.permutation(N)
            self.l_vals, self.U = lv[p], U[:, p]
            with np.errstate(invalid='ignore'):
                self.k_vals = np.where(np.isinf(self.l_vals), 1.0, self.l_vals / (1.0 + self.l_vals))
            self.rank = int(np.sum(self.l_vals > min(1e-9, 1e-9 * self.l_vals.max()))) if kind != 'decay' else N
        self.K = (self.U * self.k_vals).dot(self.U.T)
        self.K = 0.5 * (self.K + self.K.T)
        if self.l_vals is not None and np.isfinite(self.l_vals).all():
            self.L = (self.U * self.l_vals).dot(self.U.T)
            self.L = 0.5 * (self.L + self.L.T)
        else:
            self.L = None
        self._rng = rng

    # -- constructor arguments for each parametrisation --------------------
    def reps(self):
        if self.projection and not self.rank:
            return ['K', 'K_eig_dec']
        if self.projection:
            return ['K', 'K_eig_dec', 'K_eig_thin', 'A_zono', 'A_zono_np']
        if self.lproj:
            return ['L', 'L_eig_dec']
        if self.L is None:
            return ['K', 'K_eig_dec']
        if self.spec['kind'] == 'rounding':
            return ['K', 'K_eig_dec', 'L', 'L_eig_dec']
        if self.spec['kind'] == 'null':
            return ['K', 'K_eig_dec', 'L', 'L_eig_dec', 'L_gram_fat']
        return ['K', 'K_eig_dec', 'L', 'L_eig_dec', 'L_eig_thin', 'L_gram_thin',
                'L_gram_fat', 'L_eval_X_data']

    def args(self, rep):
        """(kernel_type, projection, params): fresh arrays each time."""
        kt, proj, params = self._args(rep)
        if rs('ints', self.spec['seed'], rep).rand() < .7:    # integer data stay integers
            def cast(v):
                if isinstance(v, np.ndarray) and v.dtype == float and np.all(v == np.rint(v)):
                    return v.astype(int)
                return v
            params = {k: tuple(map(cast, v)) if isinstance(v, tuple) else cast(v) for k, v in params.items()}
        return kt, proj, params

    def _args(self, rep):
        B = getattr(self, 'B', None)
        if B is not None and rep in ('L', 'L_gram_fat', 'L_eval_X_data'):
            if rep == 'L':
                return 'likelihood', False, {'L': B.T.dot(B)}
            if rep == 'L_gram_fat':
                return 'likelihood', False, {'L_gram_factor': B.copy()}
            return 'likelihood', False, {'L_eval_X_data': (EvalL('linear'), np.ascontiguousarray(B.T))}
        N, U = self.N, self.U
        rng = rs('args', self.spec['seed'], rep)
        if self.projection:
            V = U[:, self.k_vals > .5]
            if rep == 'K':
                return 'correlation', True, {'K': self.K.copy()}
            if rep == 'K_eig_dec':
                return 'correlation', True, {'K_eig_dec': (self.k_vals.copy(), U.copy())}
            if rep == 'K_eig_thin':
                return 'correlation', True, {'K_eig_dec': (np.ones(V.shape[1]), V.copy())}
            A = (rng.randn(self.rank, self.rank) + 2 * np.eye(self.rank)).dot(V.T)
            return 'correlation', rep == 'A_zono', {'A_zono': A}
        if rep == 'K':
            return 'correlation', False, {'K': self.K.copy()}
        if rep == 'K_eig_dec':
            return 'correlation', False, {'K_eig_dec': (self.k_vals.copy(), U.copy())}
        if rep == 'L':
            return 'likelihood', self.lproj, {'L': self.L.copy()}
        if rep == 'L_eig_dec':
            return 'likelihood', self.lproj, {'L_eig_dec': (self.l_vals.copy(), U.copy())}
        if rep == 'L_eig_thin':
            m = self.l_vals > 0
            return 'likelihood', False, {'L_eig_dec': (self.l_vals[m].copy(), U[:, m].copy())}
        m = self.l_vals > 0
        B = (U[:, m] * np.sqrt(self.l_vals[m])).T            # r x N
        if rep == 'L_gram_thin':      # d x N, d = rank, dual used when d < N
            return 'likelihood', False, {'L_gram_factor': haar(len(B), rng).dot(B)}
        if rep == 'L_gram_fat':       # d >= N
            Q = np.linalg.qr(rng.randn(N + 1, len(B)))[0]
            return 'likelihood', False, {'L_gram_factor': Q.dot(B)}
        if rep == 'L_eval_X_data':    # linear kernel on the Gram factor
            X = np.ascontiguousarray(B.T)
            return 'likelihood', False, {'L_eval_X_data': (EvalL('linear'), X)}
        raise ValueError(rep)


def make_dpp(FiniteDPP, kern, rep):
    kt, proj, params = kern.args(rep)
    return FiniteDPP(kt, projection=proj, **params), params


# --------------------------------------------------------------------------
# exact laws by enumeration
# --------------------------------------------------------------------------
def law_dpp(K):
    """p[mask] for all subsets: |det(K - I_{S^c})|."""
    N = len(K)
    masks = np.arange(2 ** N)
    inS = (masks[:, None] >> np.arange(N)) & 1
    M = np.broadcast_to(K, (2 ** N, N, N)).copy()
    i = np.arange(N)
    M[:, i, i] -= (1 - inS)
    p = np.abs(np.linalg.det(M))
    p[p < 1e-13] = 0.0
    return p / p.sum()


def law_L(L, k=None):
    """p[mask] proportional to det(L_S), |S| = k if given."""
    N = len(L)
    p = np.zeros(2 ** N)
    sizes = range(N + 1) if k is None else [k]
    scale = max(1e-300, np.abs(L).max())
    for s in sizes:
        if s == 0:
            p[0] = 1.0
            continue
        idx = np.array(list(itertools.combinations(range(N), s)))
        d = np.linalg.det((L / (scale if k is not None else 1.0))[idx[:, :, None], idx[:, None, :]])
        p[(1 << idx).sum(1)] = d
    m = p.max()
    p[p < 1e-12 * m] = 0.0
    return p / p.sum()


def kdpp_singles(lam, U, k):
    """P(i in S) for the k-DPP with eigenpairs (lam, U), in log space."""
    lam = np.asarray(lam, float)
    pos = lam > 0
    ll, V = np.log(lam[pos]), U[:, pos]
    n = len(ll)

    def loge(ls):
        e = np.full(k + 1, -np.inf)
        e[0] = 0.0
        for x in ls:
            e[1:] = np.logaddexp(e[1:], x + e[:-1])
        return e
    ek = loge(ll)[k]
    w = np.array([ll[j] + loge(np.delete(ll, j))[k - 1] - ek for j in range(n)])
    return (V ** 2).dot(np.exp(w)), ek


def mask_of(S):
    m = 0
    for i in S:
        m |= 1 << int(i)
    return m
