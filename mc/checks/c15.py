"""C15: minibatches are contiguous, paired windows that cover the data."""
import itertools
import random

import numpy as np
import tensorflow as tf

from .. import fresh
from ..core import Violation

BOUNDS = ("All dataset sizes 1..6 (thorough 1..9), batch sizes 1..N+2 and 1000, 1-3 features, labels of shape (N,) and "
          "(N,1), 7 pairs of dtypes, writable, read-only, and non-contiguous data; seeds 0..11 (thorough 0..59), extremes, none: "
          "every one of 400 successive batches is compared with the rows it must consist of, the set of windows seen "
          "must be the set of all windows. Every interleaving of two generators (3 draws each; thorough 4) with uses "
          "of the global generators in between, every merge order of three generators of 2 draws each; "
          "3000 batches in a row; data sets of up to 20000 rows until every window has occurred. Seeded batches"
          " equal bit by bit in three further processes (different hash salts) and this one.")
ASSUMPTIONS = ["numpy's generators produce every start position within 400 draws (checked for every seed used)"]
DTYPES = ("float64", "float32", "int64", "float32/float64", "int64/float64", "float64/int32", "uint8/float32")
TECHNIQUE = "explicit-state exploration of the real generators, every batch of every bounded history compared with a reference model"
FUNCTION = "generate_batches"


def plan(tier, rng):
    out = []
    top = 9 if tier == "thorough" else 6
    seeds = list(range(60 if tier == "thorough" else 12)) + [99999, 2 ** 31, 2 ** 32 - 1, None]
    for n in range(1, top + 1):
        out.append(dict(kind="windows", n=n, seeds=seeds, weight=n))
    draws = 4 if tier == "thorough" else 3
    for seeds in ((1, 1), (1, 2), (0, 0), (5, None)):
        out.append(dict(kind="interleave", seeds=list(seeds), draws=draws, weight=1))
    for seeds in ((1, 1, 2), (3, 3, 3)):
        out.append(dict(kind="interleave", seeds=list(seeds), draws=2, weight=1))
    out.append(dict(kind="long", weight=1))
    for n, size in ((50, 20), (100, 20), (300, 1), (130, 128), (257, 256), (1030, 1000), (6000, 5990), (20000, 19998)) + (((3000, 10), (2000, 1999)) if tier == "thorough" else ()):
        out.append(dict(kind="large", n=n, size=size, seeds=[0, 1, 7, None], weight=2))
    out.append(dict(kind="processes", weight=6))
    return out


def data(n, d, column, dtype, style):
    """dtype of the rows, or of rows and labels"""
    x_dtype, y_dtype = (dtype.split("/") * 2)[:2]
    x = (np.arange(n)[:, None] * 10 + np.arange(d)[None, :] + 1).astype(x_dtype)
    y = (np.arange(n) * 100 + 7.1).astype(y_dtype)
    if column:
        y = y[:, None]
    if style == "readonly":
        x.flags.writeable = y.flags.writeable = False
    if style == "strided":
        bigx, bigy = np.zeros((2 * n, 2 * d), x.dtype), np.zeros((2 * n,) + y.shape[1:], y.dtype)
        bigx[::2, ::2], bigy[::2] = x, y
        x, y = bigx[::2, ::2], bigy[::2]
    return x, y


def window(batch, keys, x, y, size, where):
    """Checks a batch; returns the start of its window."""
    if set(batch) != set(keys):
        raise Violation("a batch has keys %r" % list(batch), key="keys", **where)
    bx, by = np.asarray(batch[keys[0]]), np.asarray(batch[keys[1]])
    b = min(size, len(x))
    if bx.shape != (b, x.shape[1]) or by.shape != (b, 1):
        raise Violation("batch has shapes %r and %r" % (bx.shape, by.shape), key="shape", **where)
    if bx.dtype != x.dtype or by.dtype != y.dtype:
        raise Violation("batch has dtypes %r, %r" % (bx.dtype, by.dtype), key="dtype", **where)
    guess = (float(bx[0, 0]) - 1) / 10
    if guess in range(len(x) - b + 1) and np.array_equal(x[int(guess):int(guess) + b], bx):
        starts = [int(guess)]
    else:
        starts = [i for i in range(len(x) - b + 1) if np.array_equal(x[i:i + b], bx)]
    if not starts:
        raise Violation("batch %r is no window of the data" % bx.tolist(), key="window", **where)
    if not np.array_equal(np.ravel(y)[starts[0]:starts[0] + b], by.ravel()):
        raise Violation("labels %r do not belong to rows %r" % (by.ravel().tolist(), bx.tolist()), key="pairing", **where)
    return starts[0]


def function():
    import pysgmcmc.data_batches as module
    return getattr(module, FUNCTION)


def processes(item, R):
    fresh.compare("batches", R, "processes")


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def windows(item, R):
    generate = function()
    n = item["n"]
    with tf.Graph().as_default():
        keys = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
    variants = list(itertools.product((1, 2, 3), (False, True), DTYPES, ("plain", "readonly", "strided")))
    for size in list(range(1, n + 3)) + [1000]:
        for k, seed in enumerate(item["seeds"]):
            for v, (d, column, dtype, style) in enumerate(variants):
                if (v + 11 * k + 5 * size) % 42:
                    continue
                x, y = data(n, d, column, dtype, style)
                x0, y0 = x.copy(), y.copy()
                where = dict(n=n, size=size, seed=seed, features=d, column=column, dtype=dtype, style=style)
                kw = dict(seed=seed) if seed is not None or k % 2 else {}
                gen = generate(x=x, y=y, x_placeholder=keys[0], y_placeholder=keys[1], batch_size=size, **kw)
                twin = generate(x0, y0, keys[0], keys[1], size, seed)
                seen = set()
                for draw in range(400):
                    batch = next(gen)
                    start = window(batch, keys, x, y, size, where)
                    seen.add(start)
                    if draw < 40 and seed is not None:
                        start2 = window(next(twin), keys, x0, y0, size, where)
                        if start != start2:
                            raise Violation("two generators with seed %r differ at draw %d" % (seed, draw), key="seed", **where)
                    R.step()
                    R.state(n, size, d, column, dtype, start)
                R.require(np.array_equal(x, x0) and np.array_equal(y, y0), "the dataset was modified", key="dataset", **where)
                want = set(range(n - min(size, n) + 1))
                R.require(seen == want, "windows starting at %r never occur in 400 batches" % sorted(want - seen),
                          key="coverage", **where)
                R.trace()


def default_size(R):
    generate = function()
    for n in (5, 19, 20, 21, 30):
        x, y = data(n, 2, False, "float64", "plain")
        for kw in ({}, dict(seed=3)):
            seen = {window(next(g), ("x", "y"), x, y, 20, dict(n=n)) for g in [generate(x, y, "x", "y", **kw)] for _ in range(600)}
            R.require(seen == set(range(max(1, n - 19))), "default batch size: windows %r of %d rows" % (seen, n), key="coverage")
            R.step(600)
    R.trace()


def disturb(k):
    np.random.seed(k)
    np.random.rand(2)
    random.seed(k)


def draw_bytes(batch):
    return [np.asarray(batch[k]).tobytes() for k in ("x", "y")]


def interleave(item, R):
    generate = function()
    x, y = data(6, 2, False, "float64", "plain")
    seeds, draws = item["seeds"], item["draws"]
    merges = set(itertools.permutations([i for i in range(len(seeds)) for _ in range(draws)]))
    make = lambda seed: generate(x, y, "x", "y", 3, seed)  # noqa
    alone = []
    for seed in seeds:
        gen = make(seed)
        alone.append([draw_bytes(next(gen)) for _ in range(draws)])
    for order in sorted(merges):
        gens, got = [None] * len(seeds), [[] for _ in seeds]
        for k, i in enumerate(order):
            disturb(k + i)
            if gens[i] is None:
                gens[i] = make(seeds[i])
            disturb(k)
            got[i].append(draw_bytes(next(gens[i])))
            R.step()
            R.state(seeds, order[:k + 1])
        for i, seed in enumerate(seeds):
            R.require(seed is None or got[i] == alone[i], "generator %d with seed %r depends on others" % (i, seed),
                      key="isolation", order=order, seeds=seeds)
        R.trace()


def large(item, R):
    generate = function()
    n, size = item["n"], item["size"]
    x, y = data(n, 2, n % 4 == 0, "float64", "plain")
    for seed in item["seeds"]:
        gen, seen = generate(x, y, "x", "y", size, seed), set()
        for _ in range(30 * (n - size + 1)):
            start = window(next(gen), ("x", "y"), x, y, size, dict(n=n, size=size, seed=seed))
            seen.add(start)
            R.step()
            R.state(n, size, start)
        R.require(seen == set(range(n - size + 1)), "windows starting at %r of %d rows never occur" % (
            sorted(set(range(n - size + 1)) - seen)[:20], n), key="coverage", size=size, seed=seed)
        R.trace()


def long(item, R):
    generate = function()
    default_size(R)
    x, y = data(5, 2, True, "float32", "plain")
    for seed in (0, 4, None):
        gen = generate(x, y, "x", "y", 2, seed)
        R.require(iter(gen) is gen or hasattr(gen, "__next__"), "no iterator", key="iterator")
        for _ in range(3000):
            try:
                batch = next(gen)
            except StopIteration:
                raise Violation("the sequence of batches ends", key="end")
            window(batch, ("x", "y"), x, y, 2, dict(seed=seed))
            R.step()
        R.trace()
