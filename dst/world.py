"""Every sampler object of the library behind one interface of operations.

A plan names objects by JSON specs and operations by JSON lists; everything an
operation hands to the library (inputs) and gets back (results) is kept, so
that checks can compare, snapshot and replay.
"""
import copy
import re
import types
import warnings

import networkx as nx
import numpy as np

from . import machine
from .checks import c12
from .libcalls import TABLE, arrange, build as lib_build, call as lib_call
from .kernels import NONPROJ_KINDS, EvalL, Kernel, gen_spec
from .seams import FAULTS, CallFaults, InjectedUserError, load_dppy, rs, seed_of

load_dppy()
from dppy import beta_ensembles as be                                    # noqa: E402
from dppy import exotic_dpps as ex                                       # noqa: E402
from dppy.finite_dpps import FiniteDPP                                   # noqa: E402


# --------------------------------------------------------------------------
# canonical form of results
# --------------------------------------------------------------------------
def canon(x, values_only=True):
    """Hashable content of a result, equal iff the contents are identical."""
    if isinstance(x, np.ndarray):
        a = np.ascontiguousarray(x)
        if a.dtype == object:
            return ('arr', a.shape, tuple(canon(v) for v in a.ravel()))
        if a.dtype.kind in 'iub':
            a = a.astype(np.int64)
        if a.dtype == np.longdouble:       # (has undefined padding bytes)
            hi = a.astype(np.float64)
            with np.errstate(all='ignore'):
                return ('arr', a.shape, 'g', hi.tobytes(), (a - hi).astype(np.float64).tobytes())
        return ('arr', a.shape, a.dtype.kind, a.tobytes())
    if isinstance(x, nx.Graph):
        return ('graph', tuple(sorted(map(repr, x.nodes()))),
                tuple(sorted(tuple(sorted(map(repr, e))) for e in x.edges())))
    if isinstance(x, (list, tuple)):
        return ('seq',) + tuple(canon(v) for v in x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return ('f', float(x).hex())
    if isinstance(x, (complex, np.complexfloating)):
        return ('c', x.real.hex(), x.imag.hex())
    if isinstance(x, np.poly1d):
        return ('poly', canon(x.coeffs), x.variable)
    if isinstance(x, dict):
        return ('dict', tuple(sorted((repr(k), canon(v)) for k, v in x.items())))
    if x is None or isinstance(x, str):
        return x
    if callable(x):
        return ('callable', id(x))
    raise TypeError(type(x))


def snap(x):
    """Content plus the identity-level traits of a caller's object."""
    if isinstance(x, np.ndarray):
        return (canon(x), x.dtype.str, x.strides, x.flags.writeable,
                canon(x.base) if isinstance(x.base, np.ndarray) else None)
    if isinstance(x, nx.Graph):
        return ('graph', tuple(map(repr, x.nodes(data=True))), tuple(map(repr, x.edges(data=True))),
                tuple((repr(n), tuple(map(repr, x.adj[n]))) for n in x))
    if isinstance(x, (tuple, list)):
        return (type(x).__name__,) + tuple(snap(v) for v in x)
    if isinstance(x, dict):
        return tuple((repr(k), snap(v)) for k, v in x.items())
    if isinstance(x, EvalL):
        return None if x.memo is None else tuple((k, snap(v)) for k, v in x.memo.items())
    return canon(x)


class Handle:
    """One live library object with the caller's data it was built from."""
    record_attr = ('list_of_samples',)
    has_flush = True
    time_ops = ()

    def __init__(self, spec, share=None):
        self.spec = spec
        self.inputs, self.given = {}, []
        self.obj = self.build(spec, share)

    def give(self, inputs):
        """The caller's data, as they are before the library sees them."""
        self.inputs = inputs
        self.given = [(k, v, snap(v)) for k, v in sorted(inputs.items())]

    def recording(self, op):
        return op[0] in self.samplers

    samplers = ()

    def record(self):
        return getattr(self.obj, 'list_of_samples', None)

    def state(self):
        return tuple(sorted(k for k, v in vars(self.obj).items() if v is not None))

    def returned_part(self, op, entry):
        """What a call returned, given the entry it recorded."""
        return entry

    def expect(self, op):
        return 'ok'

    plots = ()
    on_inputs = None
    _last = ()

    @property
    def last_inputs(self):
        return self._last

    @last_inputs.setter
    def last_inputs(self, value):
        self._last = value
        if self.on_inputs is not None:
            self.on_inputs(value)

    def plot(self, op):
        import matplotlib.pyplot as plt
        try:
            kw = dict(op[2])
            self.last_inputs = []
            if op[1] == 'sample_plot':
                name, pts = self.plot_arg()
                self.last_inputs = [pts]
                getattr(self.obj, name)(pts, **kw)
            else:
                getattr(self.obj, op[1])(**kw)
        finally:
            plt.close('all')

    def perform(self, op, rnd=None):
        return self.plot(op) if op[0] == 'plot' else self.do(op, rnd)

    def kw(self, op, rnd):
        return {'random_state': op[-1] if rnd is None else None if isinstance(rnd, str) else rnd}


# --------------------------------------------------------------------------
LAYOUTS = ['C', 'C', 'F', 'view', 'ro']


class Finite(Handle):
    samplers = ('exact', 'kexact', 'mcmc', 'kmcmc', 'zonotope')

    plots = [['plot_kernel', {'kernel_type': t}] for t in ('correlation', 'likelihood', '')]

    @staticmethod
    def gen_spec(r):
        if r.random() < .4:
            kind = r.choice(['projgen', 'projgen', 'projgraph', 'projdiag'])
            sp = gen_spec(r, kinds=[kind])
        else:
            sp = gen_spec(r, kinds=NONPROJ_KINDS + ['Lproj', 'Kone', 'K01'])
        kern = Kernel(sp)
        return {'kind': 'finite', 'spec': sp, 'rep': r.choice(kern.reps()), 'memo': r.random() < .3,
                'layout': r.choice(LAYOUTS), 'out': r.choice(['', '', 'ro', 'F']), 'asym': r.random() < .25}

    def build(self, spec, share=None):
        self.kern = Kernel(spec['spec'])
        kt, proj, params = self.kern.args(spec['rep'])
        if spec['rep'] == 'L_eval_X_data':
            f, X = (share or params)['L_eval_X_data']
            self.f = f
            if share is None:
                f.out = spec.get('out', '')
                if spec.get('memo'):
                    f.memo = {}
        if share is not None:
            params = share
        else:
            if spec.get('asym'):               # symmetric up to rounding errors only
                for k in ('K', 'L'):
                    if k in params:
                        params[k] = params[k] * (1 + 1e-14 * rs('asym', spec['spec']['seed']).randn(*params[k].shape))
            how = spec.get('layout', 'C')
            params = {k: tuple(arrange(a, how) for a in v) if isinstance(v, tuple) else arrange(v, how)
                      for k, v in params.items()}
        self.give(params)
        return FiniteDPP(kt, projection=proj, **params)

    @staticmethod
    def gen_op(r, spec, bad=True):
        if r.random() < .02:
            return ['info']
        kern = Kernel(spec['spec'])
        kinds = ['exact', 'exact', 'exact', 'kexact', 'kexact', 'mcmc', 'kmcmc', 'K', 'L', 'flush', 'str']
        if kern.rank == 0:
            kinds = ['exact', 'K', 'L', 'flush', 'str']
        if bad:
            kinds += ['badmode', 'badk', 'badmcmc']
        if spec['rep'][:6] == 'A_zono' and r.random() < .3:
            return ['zonotope', r.choice([1, 3]), r.getrandbits(31)]
        if spec['spec']['kind'] in ('Kone', 'K01'):
            kinds = [k for k in kinds if k in ('exact', 'K', 'L', 'flush', 'str', 'badmode')]
        k = r.choice(kinds)
        if k == 'badmcmc':
            return ['mcmc', r.choice(['nope', 'E'] + ['zonotope'] * (spec['rep'][:1] != 'A')), -1, r.getrandbits(31)]
        return machine.gen_op(r, kern, spec['rep'], [k])

    @staticmethod
    def own_start(op):
        """The chain starts where the library decides (it may give up on hard kernels)."""
        return op[0] in ('mcmc', 'kmcmc', 'zonotope') and op[-1] % 4 == 1

    def expect(self, op):
        if self.own_start(op) and op[2] != -1:
            return 'any'
        if op[0] == 'mcmc' and op[2] == -1:
            return 'any' if op[1] == 'E' else 'ValueError'
        if op[0] in ('zonotope', 'info'):
            return 'ok'
        if self.spec['spec']['kind'] in ('Kone', 'K01') and op[0] == 'L':
            return 'any'
        if op[0] in ('mcmc', 'kmcmc') and self.kern.lproj:
            return 'any'
        if op[0] == 'kexact' and op[1] < 0:
            return 'error'
        return machine.expectation(self.kern, self.spec['rep'], op)

    def do(self, op, rnd=None):
        k, o = op[0], self.obj
        if k == 'info':
            self.last_inputs = []
            return o.info()
        if k == 'zonotope':
            if self.own_start(op):
                self.last_inputs = []
                from . import cvxopt_stub
                cvxopt_stub.install()
                return o.sample_mcmc('zonotope', nb_iter=op[1], **self.kw(op, rnd))
            g = rs('zono', op[-1])
            A = self.inputs['A_zono']
            self.last_inputs = [g.randn(A.shape[1]), A.dot(g.rand(A.shape[1]))]
            # cvxopt is not installed: the solver is a stub
            from . import cvxopt_stub
            cvxopt_stub.install()
            return o.sample_mcmc('zonotope', lin_obj=self.last_inputs[0], x_0=self.last_inputs[1],
                                 nb_iter=op[1], **self.kw(op, rnd))
        if k == 'mcmc' and op[2] == -1:
            return o.sample_mcmc(op[1], size=self.kern.N + 3, nb_iter=2, **self.kw(op, rnd))
        if k in ('mcmc', 'kmcmc'):
            size = None
            if k == 'kmcmc':
                size = op[1]
            elif op[1] == 'E':
                size = self.kern.rank if self.kern.projection else 1 + op[3] % max(1, self.kern.rank)
            kw = self.kw(op, rnd)
            if self.own_start(op):
                self.last_inputs = []
            else:
                s0, _ = machine.start_state(self.kern, size, op[3])
                self.last_inputs = [s0]
                kw['s_init'] = s0
            if k == 'kmcmc':
                return o.sample_mcmc_k_dpp(size=size, nb_iter=op[2], **kw)
            if size is not None:
                kw['size'] = size
            return o.sample_mcmc(op[1], nb_iter=op[2], **kw)
        if k == 'L':
            o.compute_L()
            return o.L
        if k == 'K':
            o.compute_K()
            return o.K
        self.last_inputs = []
        return machine.call(o, self.kern, op, rnd)

    def returned_part(self, op, entry):
        return entry[-1] if op[0] in ('mcmc', 'kmcmc', 'zonotope') else entry

    def state(self):
        return machine.flags(self.obj)


class Eval(Handle):
    """A likelihood function with data: vfx and alpha samplers as well."""
    samplers = ('vfx', 'alpha', 'kvfx', 'kalpha', 'exact', 'kexact', 'mcmc')

    plots = [['plot_kernel', {'kernel_type': t}] for t in ('correlation', 'likelihood', '')]

    @staticmethod
    def gen_spec(r):
        return {'kind': 'eval', 'N': r.choice([4, 4, 6, 6, 9, 9, 30]), 'd': r.choice([2, 3]), 'kernel': r.choice(['rbf', 'poly', 'linear']),
                'gamma': r.choice([.3, 1.]), 'dseed': r.getrandbits(30), 'diag': r.random() < .3,
                'memo': r.random() < .4, 'layout': r.choice(LAYOUTS), 'int': r.random() < .2, 'scale': r.choice([1, 2]),
                'out': r.choice(['', '', 'ro', 'F'])}

    def build(self, spec, share=None):
        g = rs('eval', spec['dseed'])
        X = 1.2 * g.randn(spec['N'], spec['d'])
        if spec['int']:
            X = np.rint(2 * X).astype(int)
        X = arrange(X, spec.get('layout', 'C'))
        self.f = EvalL(spec['kernel'], spec['gamma'], spec['scale'], spec['diag'], spec['memo'])
        self.f.out = spec.get('out', '')
        if share is not None:
            self.f, X = share['L_eval_X_data']
        self.give({'L_eval_X_data': (self.f, X)})
        return FiniteDPP('likelihood', L_eval_X_data=(self.f, X))

    @staticmethod
    def gen_op(r, spec, bad=True):
        k = r.choice(['vfx', 'vfx', 'alpha', 'alpha', 'kvfx', 'kalpha', 'exact', 'kexact', 'mcmc', 'K', 'L', 'flush', 'str'])
        s = r.getrandbits(31)
        if k in ('vfx', 'alpha'):
            return [k, r.choice([None, None, 1.2]), s]
        if k in ('kvfx', 'kalpha', 'kexact'):
            return [k, r.choice([1, 2, 2]), s]
        if k in ('exact', 'mcmc'):
            return [k, s]
        return [k]

    def expect(self, op):
        if op[0] == 'mcmc' and op[-1] % 4 == 1:
            return 'any'
        return 'any' if op[0] in ('vfx', 'alpha', 'kvfx', 'kalpha', 'kexact') else 'ok'

    def do(self, op, rnd=None):
        k, o = op[0], self.obj
        self.last_inputs = []
        if k in ('vfx', 'alpha'):
            kw = self.kw(op, rnd)
            if op[1]:
                kw['desired_expected_size'] = op[1]
            return o.sample_exact(k, verbose=op[-1] % 4 == 0, q_func=lambda s: min(s * s, 300.), **kw)
        if k in ('kvfx', 'kalpha'):
            return o.sample_exact_k_dpp(op[1], k[1:], verbose=op[-1] % 4 == 0, q_func=lambda s: min(s * s, 300.), **self.kw(op, rnd))
        if k == 'exact':
            return o.sample_exact('GS', **self.kw(op, rnd))
        if k == 'kexact':
            return o.sample_exact_k_dpp(op[1], 'GS', **self.kw(op, rnd))
        if k == 'mcmc':
            kw = self.kw(op, rnd)
            if op[-1] % 4 != 1:
                kw['s_init'] = s0 = [0]
                self.last_inputs = [s0]
            return o.sample_mcmc('AED' if op[-1] % 3 else 'AD', nb_iter=4, **kw)
        if k == 'K':
            o.compute_K()
            return o.K
        if k == 'L':
            o.compute_L()
            return o.L
        if k == 'flush':
            return o.flush_samples()
        return str(o)

    def returned_part(self, op, entry):
        return entry[-1] if op[0] == 'mcmc' else entry

    def state(self):
        return machine.flags(self.obj)


class Tree(Handle):
    samplers = ('sample',)

    plots = [['plot', {}], ['plot_graph', {}], ['plot_kernel', {}]]

    @staticmethod
    def gen_spec(r):
        return {'kind': 'tree', 'graph': {
            'kind': r.choice(['path', 'star', 'cycle', 'complete', 'wheel', 'bipartite', 'lollipop', 'random']),
            'n': r.choice([2, 3, 4, 5, 6]), 'seed': r.getrandbits(30), 'relabel': r.random() < .6,
            'labels': r.choice(['int', 'shift', 'str', 'str', 'tuple']), 'loops': r.random() < .25, 'extra': 3}}

    def build(self, spec, share=None):
        G = share['graph'] if share is not None else c12.build(spec['graph'])
        self.give({'graph': G})
        self.G = G
        return ex.UST(G)

    @staticmethod
    def gen_op(r, spec, bad=True):
        k = r.choice(['sample'] * 6 + ['kernel', 'vecs', 'flush', 'str'] + (['badmode'] if bad else []))
        if k == 'badmode':
            return ['sample', 'nope', None, r.getrandbits(31)]
        if k != 'sample':
            return [k]
        mode = r.choice(['Wilson', 'Aldous-Broder', 'GS', 'Schur', 'Chol'])
        return ['sample', mode, r.choice([None, 0, 1]), r.getrandbits(31)]

    def expect(self, op):
        return 'ValueError' if op[0] == 'sample' and op[1] == 'nope' else 'ok'

    def do(self, op, rnd=None):
        o = self.obj
        self.last_inputs = []
        if op[0] == 'sample':
            root = None if op[2] is None else list(self.G.nodes())[op[2]]
            return o.sample(mode=op[1], root=root, **self.kw(op, rnd))
        if op[0] == 'kernel':
            o.compute_kernel()
            return np.array(o.kernel)
        if op[0] == 'vecs':
            o.compute_kernel_eig_vecs()
            return None
        if op[0] == 'flush':
            return o.flush_samples()
        return str(o)

    def state(self):
        return tuple(sorted(k for k, v in vars(self.obj).items() if v is not None))


class Beta(Handle):
    samplers = ('full', 'banded')

    plots = [[m, {'normalization': b}] for m in ('plot', 'hist') for b in (True, False)]

    @staticmethod
    def gen_spec(r):
        return {'kind': 'beta', 'cls': r.choice(['Hermite', 'Laguerre', 'Jacobi', 'Circular', 'Ginibre']),
                'beta': r.choice([0, 1, 2, 2, 4, 3.5])}

    def build(self, spec, share=None):
        b = 2 if spec['cls'] == 'Ginibre' else spec['beta']
        if spec['cls'] == 'Circular':
            b = int(b)
        return getattr(be, spec['cls'] + 'Ensemble')(beta=b)

    @staticmethod
    def gen_op(r, spec, bad=True):
        k = r.choice(['full', 'full', 'banded', 'banded', 'flush', 'str', 'norm', 'norm'])
        s = r.getrandbits(31)
        if k in ('full', 'banded'):
            n = r.choice([1, 2, 3, 5])
            p = {'size_N': n}
            c = spec['cls']
            if c == 'Laguerre' and (k == 'full' or r.random() < .4):
                p['size_M'] = n + r.choice([0, 1, 4]) - (3 if bad and r.random() < .15 else 0)
            if c == 'Jacobi' and (k == 'full' or r.random() < .4):
                p['size_M1'] = n + r.choice([0, 1, 4]) - (3 if bad and r.random() < .1 else 0)
                p['size_M2'] = n + r.choice([0, 1, 4])
            if c == 'Circular' and k == 'full':
                p['haar_mode'] = r.choice(['Hermite', 'QR'] + (['nope'] if bad and r.random() < .3 else []))
            if c == 'Hermite' and k == 'banded':
                p.update(loc=r.choice([0., 1.5]), scale=r.choice([1., 1.4]))
            return [k, p, s]
        return [k, r.choice(['array', 'record'])] if k == 'norm' else [k]

    def expect(self, op):
        return 'any'

    def do(self, op, rnd=None):
        o = self.obj
        self.last_inputs = []
        if op[0] == 'full':
            return o.sample_full_model(**op[1], **self.kw(op, rnd))
        if op[0] == 'banded':
            return o.sample_banded_model(**op[1], **self.kw(op, rnd))
        if op[0] == 'norm':
            if op[1] == 'record' and o.list_of_samples:
                pts = o.list_of_samples[-1]
            else:
                pts = np.linspace(.5, 2, 4)
            self.last_inputs = [pts]
            return o.normalize_points(pts)
        if op[0] == 'flush':
            return o.flush_samples()
        return str(o)


class JacobiOPE(Handle):
    samplers = ()
    has_flush = False

    plots = [['sample_plot', {'weighted': w}] for w in ('', 'BH', 'EZ')]

    def plot_arg(self):
        return 'plot', rs('jacplot', 1).uniform(-.9, .9, (4, len(self.spec['par'])))

    @staticmethod
    def gen_spec(r):
        d = r.choice([1, 1, 2, 3])
        par = [[r.choice([-.5, -.25, 0., .3, .5]) for _ in range(2)] for _ in range(d)]
        return {'kind': 'jacobi', 'N': r.choice([1, 2, 3, 4]), 'par': par, 'layout': r.choice(LAYOUTS)}

    def build(self, spec, share=None):
        par = arrange(np.array(spec['par'], float), spec.get('layout', 'C'))
        if share is not None:
            par = share['jacobi_params']
        self.give({'jacobi_params': par})
        from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
        return MultivariateJacobiOPE(spec['N'], par)

    @staticmethod
    def gen_op(r, spec, bad=True):
        k = r.choice(['sample', 'sample', 'sample', 'K', 'w'])
        return ['sample', r.random() < .5, r.getrandbits(31)] if k == 'sample' else [k, r.getrandbits(31)]

    def expect(self, op):
        return 'any'

    def do(self, op, rnd=None):
        self.last_inputs = []
        if op[0] == 'sample':
            return self.obj.sample(tridiag_1D=op[1], **self.kw(op, rnd))
        X = rs('jx', op[1]).uniform(-.9, .9, size=(3, len(self.spec['par'])))
        Y = rs('jy', op[1]).uniform(-.9, .9, size=(3, len(self.spec['par'])))
        self.last_inputs = [X, Y]
        if op[0] == 'K':
            return self.obj.K(X, Y)
        return self.obj.eval_w(X)

    def record(self):
        return None


class Poly(Handle):
    samplers = ()
    has_flush = False

    plots = [['sample_plot', {}]]

    def plot_arg(self):
        return 'hist', rs('polyhist', 1).uniform(-1, 1, 5)

    @staticmethod
    def gen_spec(r):
        return {'kind': 'poly', 'V': r.choice([[.5, 0, 0], [1., 0., 0., 0., 0.], [.25, 0, .5, 0, 0], [2., .5, 0.], [1., 0., .7],
                                               [.1, 0, .2, 0, .3, 0, 0]]), 'beta': r.choice([1, 2, 4]),
                'poly1d': r.random() < .6}

    def build(self, spec, share=None):
        V = share['V'] if share is not None else np.poly1d(spec['V'])
        self.give({'V': V})
        from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential
        return BetaEnsemblePolynomialPotential(spec['beta'], V)

    @staticmethod
    def gen_op(r, spec, bad=True):
        k = r.choice(['sample', 'sample', 'sample', 'str'])
        if k == 'str':
            return ['str']
        return ['sample', r.choice([1, 2, 3]), r.choice([1, 2]), r.random() < .5, r.choice(['', '', 'chain', 'max']),
                r.getrandbits(31)]

    def expect(self, op):
        return 'any'

    def do(self, op, rnd=None):
        self.last_inputs = []
        if op[0] == 'str':
            return str(self.obj)
        return self.obj.sample_mcmc(N=op[1], nb_gibbs_passes=op[2], sample_exact_cond=op[3], nb_mala_steps=3,
                                    return_chain_of_eig_vals=op[4] == 'chain',
                                    return_chain_of_lambda_max=op[4] == 'max', **self.kw(op, rnd))

    def record(self):
        return None


class Proc(Handle):
    samplers = ('sample',)

    plots = [['plot', {}], ['plot', {'title': 't'}], ['plot', {'vs_bernoullis': False}],
             ['plot_diagram', {'normalization': True}], ['plot_diagram', {}]]

    @staticmethod
    def gen_spec(r):
        c = r.choice(['CarriesProcess', 'DescentProcess', 'VirtualDescentProcess', 'PoissonizedPlancherel'])
        return {'kind': 'proc', 'cls': c, 'par': {'CarriesProcess': r.choice([2, 10]), 'DescentProcess': None,
                                                  'VirtualDescentProcess': r.choice([0., .3, 1.]),
                                                  'PoissonizedPlancherel': r.choice([1, 6.])}[c]}

    def build(self, spec, share=None):
        c = getattr(ex, spec['cls'])
        return c() if spec['par'] is None else c(spec['par'])

    @staticmethod
    def gen_op(r, spec, bad=True):
        k = r.choice(['sample', 'sample', 'sample', 'flush', 'str'])
        if k == 'flush' and spec['cls'] == 'PoissonizedPlancherel':
            k = 'str'
        return ['sample', r.choice([1, 2, 5, 12]), r.getrandbits(31)] if k == 'sample' else [k]

    def do(self, op, rnd=None):
        self.last_inputs = []
        if op[0] == 'sample':
            if self.spec['cls'] == 'PoissonizedPlancherel':
                return self.obj.sample(**self.kw(op, rnd))
            return self.obj.sample(size=op[1], **self.kw(op, rnd))
        if op[0] == 'flush':
            return self.obj.flush_samples()
        return str(self.obj)


class Func(Handle):
    """Library functions with no object: BLESS, permutations."""
    samplers = ()
    has_flush = False

    @staticmethod
    def gen_spec(r):
        return {'kind': 'func', 'n': r.choice([5, 20]), 'dseed': r.getrandbits(30), 'memo': r.random() < .4,
                'kernel': r.choice(['rbf', 'linear']), 'layout': r.choice(LAYOUTS), 'out': r.choice(['', '', 'ro', 'F']), 'diag': r.random() < .3}

    def build(self, spec, share=None):
        X = arrange(rs('func', spec['dseed']).randn(spec['n'], 2), spec.get('layout', 'C'))
        self.f = EvalL(spec['kernel'], 1., 2., spec['diag'], spec['memo'])
        self.f.out = spec.get('out', '')
        if share is not None:
            X, self.f = share['X'], share['f']
        self.give({'X': X, 'f': self.f})

        class Nothing:
            pass
        return Nothing()

    @staticmethod
    def gen_op(r, spec, bad=True):
        k = r.choice(['bless', 'bless', 'bless_size', 'perm'])
        return [k, r.choice([.5, 1., 3.]) if k != 'perm' else r.choice([0, 1, 5]), r.getrandbits(31)]

    def expect(self, op):
        return 'any'

    def do(self, op, rnd=None):
        self.last_inputs = []
        from dppy import bless
        if op[0] == 'bless':
            return tuple(bless.bless(self.inputs['X'], self.f, op[1], 4, verbose=op[-1] % 4 == 0, **self.kw(op, rnd)))
        if op[0] == 'bless_size':
            a, b, D = bless.bless_size(self.inputs['X'], self.f, 1 + op[1], 4, verbose=op[-1] % 4 == 0, **self.kw(op, rnd))
            return (a, b) + tuple(D)
        from dppy.exotic_dpps_core import uniform_permutation
        return np.asarray(uniform_permutation(op[1], **self.kw(op, rnd)))

    def record(self):
        return None


class Lib(Handle):
    """Direct calls of public functions."""
    has_flush = False

    @staticmethod
    def gen_spec(r):
        return {'kind': 'lib', 'layout': r.choice(LAYOUTS)}

    def build(self, spec, share=None):
        class Nothing:
            pass
        return Nothing()

    @staticmethod
    def gen_op(r, spec, bad=True):
        return ['lib', r.choice(sorted(TABLE)), r.choice([1, 2, 3, 5]), r.getrandbits(31)]

    def expect(self, op):
        return 'any'

    def do(self, op, rnd=None):
        args, kw = lib_build(op[1], op[3], op[2], self.spec['layout'])
        self.last_inputs = [args, kw]
        from . import cvxopt_stub
        cvxopt_stub.install()
        return lib_call(op[1], args, kw)

    def record(self):
        return None


KINDS = {'lib': Lib, 'finite': Finite, 'eval': Eval, 'tree': Tree, 'beta': Beta, 'jacobi': JacobiOPE, 'poly': Poly,
         'proc': Proc, 'func': Func}
WEIGHTS = ['finite'] * 6 + ['eval'] * 3 + ['tree'] * 2 + ['beta'] * 2 + ['jacobi', 'poly', 'proc', 'func']


def gen_obj(r, kinds=None):
    return KINDS[r.choice(kinds or WEIGHTS)].gen_spec(r)


def gen_op(r, spec, bad=True, plots=0):
    k = KINDS[spec['kind']]
    if plots and k.plots and r.random() < plots:
        return ['plot'] + r.choice(k.plots)
    return KINDS[spec['kind']].gen_op(r, spec, bad)


def make(spec, share=None):
    return KINDS[spec['kind']](spec, share)


COUNT = re.compile(r'[Nn]umber of samples\s*=\s*(\d+)')


def outcome(h, op, rnd=None):
    """('ok', canonical result) or ('exc', type name)."""
    try:
        return 'ok', canon(h.perform(op, rnd))
    except Exception as e:
        return 'exc', type(e).__name__


def gen_fault(r, kinds):
    """[kind, where]: a boundary chosen by position, near the end, or by code location."""
    return [r.choice(kinds), r.choice([r.random(), 'end', [r.random(), r.random()], [r.random(), r.random()]])]


def clone_obj(obj):
    """A deep copy of a library object (modules are shared)."""
    return copy.deepcopy(obj, {id(v): v for v in vars(obj).values() if isinstance(v, types.ModuleType)})


def reference(h, op, kind=None):
    """The call on a copy of the object: (call boundaries, newly recorded entries, sites)."""
    sites = {}
    real, f0 = h.obj, getattr(h, 'f', None)
    h.obj = clone_obj(real)
    try:
        with CallFaults(kind, sites=sites) as c:
            try:
                h.perform(op)
            except Exception:
                pass
        new = [canon(x) for x in h.record()[len(real.list_of_samples):]] if h.record() is not None else []
    finally:
        h.obj = real
        if f0 is not None:
            h.f = f0
    return c.count, new, list(sites.values())


def attempt(h, op, fault, seed, stats, rnd=None):
    """One call, possibly with an injected failure [kind, where].

    -> (result, exception, fired, entries the complete call would record)
    """
    res, exc, fired, allowed = None, None, False, []
    guard = []
    if fault:
        kind, frac = fault
        if kind in FAULTS:
            n, allowed, sites = reference(h, op, kind)
            if n:
                if isinstance(frac, list):           # a code location, then one of its visits
                    at = sites[int(frac[0] * len(sites))]
                    at = at[int(frac[1] * len(at))]
                else:
                    at = n - 1 - seed % min(n, 8) if frac == 'end' else int(frac * n)
                guard = [CallFaults(kind, at)]
                stats.add('armed:' + kind)
        elif kind == 'callback' and getattr(h, 'f', None) is not None:
            stats.add('armed:callback')
            n, allowed, _ = reference(h, op)
            h.f.exc = InjectedUserError('callback')
            h.f.fail_at = h.f.calls + 1 + (0 if frac == 'end' else int((frac[0] if isinstance(frac, list) else frac) * 6))
        elif kind == 'warnings':
            stats.add('armed:warnings')
            guard = [warnings.catch_warnings()]
        elif kind == 'fperr':
            stats.add('armed:fperr')
            guard = [np.errstate(all='raise')]
    try:
        if guard:
            with guard[0]:
                if fault[0] == 'warnings':
                    warnings.simplefilter('error')
                res = h.perform(op, rnd)
        else:
            res = h.perform(op, rnd)
    except (Exception, KeyboardInterrupt) as e:
        exc = e
    if guard and fault[0] in FAULTS:
        fired = guard[0].fired
    elif fault and fault[0] == 'callback' and getattr(h, 'f', None) is not None:
        fired = h.f.fail_at is None
        h.f.fail_at = None
    elif fault and fault[0] == 'warnings':
        fired = isinstance(exc, Warning)
    elif fault and fault[0] == 'fperr':
        fired = isinstance(exc, FloatingPointError)
    if fired:
        stats.add('fault:' + fault[0])
    return res, exc, fired, allowed


class Watch:
    """Snapshots the arguments of one call at the moment the library gets them."""

    def __init__(self, h):
        self.h = h
        self.taken = []

    def attempt(self, op, fault, seed, stats):
        h = self.h

        def setter(value):
            self.taken = [(v, snap(v)) for v in value]
        h.on_inputs = setter
        try:
            return attempt(h, op, fault, seed, stats)
        finally:
            h.on_inputs = None

    def changes(self):
        for i, (v, s) in enumerate(self.taken):
            now = snap(v)
            if now != s:
                yield i, s, now


def uses_randomness(op):
    return isinstance(op[-1], int) and not isinstance(op[-1], bool) and len(op) > 1


def gen_history(r, nobj, nops, bad=True, kinds=None, plots=0):
    objs = [gen_obj(r, kinds) for _ in range(nobj)]
    ops = []
    for _ in range(nops):
        j = r.randrange(nobj)
        ops.append([j, gen_op(r, objs[j], bad, plots)])
    return {'objs': objs, 'ops': ops}


def run_sequence(plan, order=None, rnd_of=None, around=None):
    """Run the operations on fresh objects; results by operation index."""
    hs = [make(s) for s in plan['objs']]
    out = [None] * len(plan['ops'])
    for t in (order if order is not None else sorted(range(len(out)), key=lambda t: plan['ops'][t][0])):
        j, op = plan['ops'][t]
        rnd = rnd_of(t, j, op) if rnd_of and uses_randomness(op) else None
        if around:
            around(t, op, 0)
        out[t] = outcome(hs[j], op, rnd)
        if around:
            around(t, op, 1)
    return out
