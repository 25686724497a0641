"""Child process of C25: restored objects and the rest of their histories on stdin, results on stdout."""
import pickle
import sys

from . import seams, world  # noqa: F401


def rest(spec, blob, ops, t0):
    h = world.make(spec)
    h.obj = pickle.loads(blob)
    return [raw(h, op) for op in ops[t0:]], record(h)


def raw(h, op):
    try:
        return 'ok', plain(h.perform(op))
    except Exception as e:
        return 'exc', type(e).__name__


def plain(x):
    """A result as it is now (results may alias live records)."""
    import numpy as np
    if isinstance(x, np.ndarray):
        return np.array(x)
    if hasattr(x, 'edges'):
        return ('graph', sorted(map(repr, x.nodes())), sorted(sorted(map(repr, e)) for e in x.edges()))
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def record(h):
    r = h.record()
    return None if r is None else [plain(x) for x in r]


if __name__ == '__main__':
    jobs = pickle.load(sys.stdin.buffer)
    out = sys.stdout.buffer
    with seams.quiet():
        res = [rest(*j) for j in jobs]
    out.write(pickle.dumps(res))
    out.flush()
