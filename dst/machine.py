"""Operations on FiniteDPP objects, their generator and their success model."""
import numpy as np

from .seams import rs, seed_of

EXACT_NONPROJ = ['GS', 'GS_bis', 'KuTa12', 'Chol']
K_NONPROJ = ['GS', 'GS_bis', 'KuTa12']


def exact_modes(kern, rep):
    """Advertised sample_exact modes for this parametrisation."""
    if kern.projection:
        if rep == 'K':
            return ['GS', 'Chol', 'Schur']
        return ['GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur']
    return EXACT_NONPROJ


def k_modes(kern, rep):
    if kern.projection:
        return ['GS', 'Chol', 'Schur'] if rep == 'K' else ['GS', 'GS_bis', 'KuTa12']
    if kern.lproj:
        return ['GS']
    return K_NONPROJ


def start_state(kern, size, seed):
    """A legal start state with clearly positive probability (largest of 40)."""
    M = kern.K if kern.projection else kern.L
    g = rs('s_init', seed)
    best, bd = None, -1.0
    for _ in range(40):
        k = size if size is not None else g.randint(0, kern.rank + 1)
        s = g.permutation(kern.N)[:k]
        d = np.linalg.det(M[np.ix_(s, s)]) if k else 1.0
        if d > bd:
            best, bd = s, d
    return [int(x) for x in best], bd


def gen_op(r, kern, rep, kinds=None, seeds='int'):
    kinds = kinds or ['exact', 'exact', 'exact', 'kexact', 'kexact', 'mcmc',
                      'kmcmc', 'K', 'L', 'flush', 'str', 'badmode', 'badk']
    kind = r.choice(kinds)
    s = r.getrandbits(31)
    if kind == 'exact':
        return ['exact', r.choice(exact_modes(kern, rep)), s]
    if kind == 'kexact':
        k = kern.rank if kern.projection else 1 + r.randrange(max(1, kern.rank))
        return ['kexact', k, r.choice(k_modes(kern, rep)), s]
    if kind == 'mcmc':
        mode = 'E' if kern.projection else r.choice(['AED', 'AD', 'E'])
        return ['mcmc', mode, r.choice([1, 2, 5, 12]), s]
    if kind == 'kmcmc':
        k = kern.rank if kern.projection else 1 + r.randrange(max(1, kern.rank))
        return ['kmcmc', k, r.choice([1, 2, 8]), s]
    if kind == 'badmode':
        return ['exact', r.choice(['nope', 'Schur' if not kern.projection else 'nope']), s]
    if kind == 'badk':
        return ['kexact', r.choice([kern.N + 1, kern.N + 5, kern.rank + 1, -1]),
                r.choice(k_modes(kern, rep)), s]
    return [kind]


def expectation(kern, rep, op):
    """'ok', an exception class name, or 'any' when unspecified."""
    k = op[0]
    if not kern.projection and kern.L is None and k not in ('exact', 'K', 'flush', 'str'):
        return 'any'                 # an eigenvalue of K is one: no likelihood kernel
    if k == 'exact':
        if op[1] in exact_modes(kern, rep):
            return 'ok'
        if op[1] == 'Schur' and not kern.projection:
            return 'ValueError'
        return 'any'
    if k == 'kexact':
        if op[2] not in k_modes(kern, rep):
            return 'any'
        if kern.projection:
            return 'ok' if op[1] == kern.rank else 'ValueError'
        if 0 <= op[1] <= kern.rank:
            return 'ok' if op[1] or not kern.lproj else 'any'
        # a null eigenvalue of a matrix may come out above the rank tolerance
        sure = op[1] > kern.N or op[1] < 0 or rep in (
            'L_eig_dec', 'L_eig_thin', 'K_eig_dec')
        return 'any' if kern.lproj or not sure else 'ValueError'
    if k == 'L' and kern.projection:
        return 'ValueError'
    return 'ok'


def call(dpp, kern, op, random_state=None):
    """Perform one operation through the public API."""
    k = op[0]

    def rnd(seed):
        return seed if random_state is None else None if isinstance(random_state, str) else random_state
    if k == 'exact':
        return dpp.sample_exact(mode=op[1], random_state=rnd(op[2]))
    if k == 'kexact':
        return dpp.sample_exact_k_dpp(size=op[1], mode=op[2],
                                      random_state=rnd(op[3]))
    if k == 'mcmc':
        size = None
        kw = {}
        if op[1] == 'E':
            size = kern.rank if kern.projection else 1 + op[3] % max(1, kern.rank)
            kw['size'] = size
        s0, _ = start_state(kern, size, op[3])
        return dpp.sample_mcmc(op[1], s_init=s0, nb_iter=op[2],
                               random_state=rnd(op[3]), **kw)
    if k == 'kmcmc':
        s0, _ = start_state(kern, op[1], op[3])
        return dpp.sample_mcmc_k_dpp(size=op[1], s_init=s0, nb_iter=op[2],
                                     random_state=rnd(op[3]))
    if k == 'K':
        return dpp.compute_K()
    if k == 'L':
        return dpp.compute_L()
    if k == 'flush':
        return dpp.flush_samples()
    if k == 'str':
        return str(dpp)
    raise ValueError(op)


def flags(dpp):
    """Which cached representations exist: the object's abstract state."""
    d = vars(dpp)
    return tuple(sorted(k for k, v in d.items()
                        if v is not None and (isinstance(v, np.ndarray) or 'info' in k)))


def flags_of(kern):
    return kern.spec['kind'], kern.N, kern.rank
