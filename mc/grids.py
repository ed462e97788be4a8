"""Shared alphabets of configurations."""
import numpy as np


def values(n, start=0):
    base = [0.7, -1.1, 0.35, 1.9, -0.4, 0.05, -2.2, 1.3, 0.9, -0.6, 0.15, 2.4]
    return [base[(start + i) % len(base)] for i in range(n)]


def params(*shapes, **kw):
    out, k = [], kw.get("start", 0)
    for shape in shapes:
        n = int(np.prod(shape, dtype=int))
        v = np.asarray(values(n, k)).reshape(shape)
        out.append(dict(shape=list(shape), init=v.tolist()))
        k += n
    return out


SHAPES = [[()], [(3,)], [(), ()], [(2, 2)], [(2,), (1, 2)], [(1,), (), (2, 1)], [(2, 1, 2)]]
BATCHES = [[0.5, -0.25], [1.5], [-0.75, 0.25, 1.0]]
PATTERNS = [[1.1, -0.6, 0.3], [-1.4, 0.9]]
