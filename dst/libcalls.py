"""Direct calls of the library's public functions, as operations of world."""
import numpy as np

from .kernels import EvalL
from .seams import rs


def _psd(g, n):
    B = g.randn(n, n)
    return B.dot(B.T) + .1 * np.eye(n)


def _corr(g, n):
    L = _psd(g, n)
    return L.dot(np.linalg.inv(np.eye(n) + L))


def _sym(M):
    return .5 * (M + M.T)


def _basis(g, n, k):
    return np.linalg.qr(g.randn(n, k))[0]


def _proj(g, n, k):
    V = _basis(g, n, k)
    return _sym(V.dot(V.T))


def table():
    """{name: (module, builder(g, n) -> (args, kwargs), random?)}; args are the caller's data."""
    U, X, M, R, E, P = ('utils', 'exact_sampling', 'mcmc_sampling', 'random_matrices', 'exotic_dpps_core',
                        'beta_ensemble_polynomial_potential_core')
    k = lambda n: max(1, n // 2)
    t = {
        'is_square': (U, lambda g, n: ((_psd(g, n),), {})),
        'is_symmetric': (U, lambda g, n: ((_sym(_psd(g, n)),), {})),
        'is_projection': (U, lambda g, n: ((_proj(g, n, k(n)),), {})),
        'is_orthonormal_columns': (U, lambda g, n: ((_basis(g, n, k(n)),), {})),
        'is_equal_to_O_or_1': (U, lambda g, n: (((g.rand(n) < .5).astype(float),), {})),
        'is_in_01': (U, lambda g, n: ((np.r_[-1e-9, g.rand(n), 1 + 1e-9],), {})),
        'is_geq_0': (U, lambda g, n: ((np.r_[-1e-9, g.rand(n)],), {})),
        'is_full_row_rank': (U, lambda g, n: ((g.randn(k(n), n),), {})),
        'det_ST': (U, lambda g, n: ((_psd(g, n), list(range(k(n)))), {})),
        'inner1d': (U, lambda g, n: ((g.randn(n, 3), g.randn(n, 3)), {'axis': g.randint(2)})),
        'stable_filter': (U, lambda g, n: (np.linalg.eigh(_psd(g, n))[::-1], {})),
        'stable_invert_root': (U, lambda g, n: (np.linalg.eigh(_psd(g, n))[::-1], {})),
        'example_eval_L_linear': (U, lambda g, n: ((g.randn(n, 2), g.randn(3, 2)), {})),
        'example_eval_L_polynomial': (U, lambda g, n: ((g.randn(n, 2),), {})),
        'example_eval_L_min_kern': (U, lambda g, n: ((g.rand(n, 1),), {})),
        'elementary_symmetric_polynomials': (X, lambda g, n: ((g.rand(n), k(n)), {})),
        'dpp_eig_vecs_selector': (X, lambda g, n: ((g.rand(n), _basis(g, n, n)), {'random_state': g.randint(999)})),
        'dpp_sampler_generic_kernel': (X, lambda g, n: ((_sym(_corr(g, n)),), {'random_state': g.randint(999)})),
        'k_dpp_eig_vecs_selector': (X, lambda g, n: ((g.rand(n) + .1, _basis(g, n, n), k(n)),
                                                     {'random_state': g.randint(999)})),
        'semi_circle_law': (R, lambda g, n: ((g.uniform(-3, 3, n),), {})),
        'marcenko_pastur_law': (R, lambda g, n: ((g.uniform(0, 4, n), 10, 5), {})),
        'wachter_law': (R, lambda g, n: ((g.rand(n), 10, 9, 5), {})),
        'RSK': (E, lambda g, n: ((g.permutation(n),), {})),
        'xy_young_ru': (E, lambda g, n: ((np.sort(g.randint(1, 6, n))[::-1].copy(),), {})),
        'limit_shape': (E, lambda g, n: ((g.uniform(-3, 3, n),), {})),
        'ust_sampler_wilson': (E, lambda g, n: (([[j for j in range(n + 1) if j != i] for i in range(n + 1)],),
                                                {'random_state': g.randint(999)})),
        'ust_sampler_aldous_broder': (E, lambda g, n: (([[j for j in range(n + 1) if j != i] for i in range(n + 1)],),
                                                       {'random_state': g.randint(999)})),
        'sampler_mala': (P, lambda g, n: ((g.randn(), np.poly1d([.3, 0, .5, 0, 0])),
                                          {'sigma': .3, 'nb_steps': 5, 'random_state': g.randint(999)})),
        'gen_gamma_sampler': (P, lambda g, n: ((1.5, np.poly1d([.3, 0, .5, .2, 0])), {'random_state': g.randint(999)})),
        'sampler_exact_convex_quartic': (P, lambda g, n: ((np.poly1d([.3, 0, .5, .2, 0]),),
                                                          {'random_state': g.randint(999)})),
        'zonotope_sampler': (M, lambda g, n: ((g.randn(k(n), n),), {'lin_obj': g.randn(n), 'nb_iter': 2,
                                                                   'random_state': g.randint(999)})),
    }
    # functions that return functions: the returned function is called on the caller's points
    pts = lambda g, n: {'_x': g.uniform(-6, 6, n + 2)}
    t.update({
        'equilibrium_x2_x4': (P, lambda g, n: ((g.uniform(-2, 2), g.uniform(.2, 2)), pts(g, n))),
        'cdf_equilibrium_x2_x4': (P, lambda g, n: ((g.uniform(-.5, 2), g.uniform(.2, 2)), pts(g, n))),
        'equilibrium_x2m': (P, lambda g, n: ((g.randint(1, 4), g.uniform(.2, 2)), pts(g, n))),
        'cdf_equilibrium_x2m': (P, lambda g, n: ((g.randint(2, 4), g.uniform(.2, 2)), pts(g, n))),
        'equilibrium_ClItKr10': (P, lambda g, n: ((), pts(g, n))),
        'TracyWidom().cdf': (P, lambda g, n: ((g.uniform(-4, 3, n),), {'quad_order': 10})),
        'shift_pol': (P, lambda g, n: ((np.poly1d(g.randn(n + 1)), g.randn()), {})),
        'polynomial_in_negative_log_conditional_a_coef': (P, lambda g, n: (
            (g.randint(1, n + 1), g.randn(n + 3), g.rand(n + 3), np.poly1d(g.rand(g.randint(3, 8)))), {})),
        'polynomial_in_negative_log_conditional_b_coef': (P, lambda g, n: (
            (g.randint(1, n + 1), g.randn(n + 3), g.rand(n + 3), np.poly1d(g.rand(g.randint(3, 8)))), {})),
        'compute_norms_1D_polynomials': ('multivariate_jacobi_ope', lambda g, n: (
            (g.uniform(-.5, .5, (n, 2)) if g.rand() < .6 else np.full((n, 2), -.5), 4), {})),
        'compute_rejection_bounds': ('multivariate_jacobi_ope', lambda g, n: (
            (g.uniform(-.5, .5, (n, 2)), [(0,) * n, (1,) * n, (2,) * n]), {'log_scale': bool(g.randint(2))})),
        'evaluate_L_diagonal': (U, lambda g, n: ((EvalL('gauss', diag_method=bool(g.randint(2))),
                                                  g.randn(n, 2)), {})),
    })
    for mode in ('GS', 'Chol', 'Schur'):
        t['proj_dpp_sampler_kernel ' + mode] = (X, lambda g, n, m=mode: (
            (_proj(g, n, k(n)),), {'mode': m, 'random_state': g.randint(999)}))
    for mode in ('GS', 'GS_bis', 'KuTa12'):
        t['proj_dpp_sampler_eig ' + mode] = (X, lambda g, n, m=mode: (
            (_basis(g, n, k(n)),), {'mode': m, 'random_state': g.randint(999)}))
    for mode in ('AED', 'AD', 'E'):
        t['dpp_sampler_mcmc ' + mode] = (M, lambda g, n, m=mode: (
            (_sym(_psd(g, n)),), dict(mode=m, nb_iter=5, random_state=g.randint(999), s_init=list(range(k(n))),
                                      **({'size': k(n)} if m == 'E' else {}))))
    return t


TABLE = table()


def arrange(a, how):
    """The same values in another memory layout."""
    if not isinstance(a, np.ndarray) or not a.ndim:
        return a
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'view':                 # a window into the caller's larger array
        base = np.full(tuple(s + 3 for s in a.shape), 77, a.dtype)
        v = base[tuple(slice(1, 1 + s) for s in a.shape)]
        v[...] = a
        return v
    if how == 'ro':
        a = a.copy()
        a.flags.writeable = False
    return a


def build(name, seed, n, how):
    mod, f = TABLE[name]
    args, kw = f(rs('lib', name, seed), n)
    return tuple(arrange(a, how) for a in args), {k: arrange(v, how) for k, v in kw.items()}


def call(name, args, kw):
    import importlib
    fn = importlib.import_module('dppy.' + TABLE[name][0])
    for part in name.split()[0].split('.'):
        fn = getattr(fn, part.rstrip('()'))
        if part.endswith('()'):
            fn = fn()
    kw = dict(kw)
    x = kw.pop('_x', None)
    out = fn(*args, **kw)
    return out if x is None else (out[0](x), out[1])
