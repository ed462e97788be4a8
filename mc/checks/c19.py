"""C19: median returns the exact median of any tensor."""
import itertools

import numpy as np
import tensorflow as tf

from ..core import Violation

BOUNDS = ("Every sequence of 1..6 (thorough 1..8) elements over the alphabet {-3, 0, 1, 2.5}, every permutation of up to 7 "
          "(thorough 8) different values, of every multiset of up to 6 (7) with one repeated value, every factorisation of the "
          "number of elements into shapes of rank 1..3, float64/32/16; constants, variables; sizes up to 200 and around 256 and 1024 (thorough 5000).")
ASSUMPTIONS = ["at least one element, static shapes, values whose sums are representable"]
TECHNIQUE = "VALUE"
ALPHABET = (-3.0, 0.0, 1.0, 2.5)


def shapes(n):
    out = [(n,)] + [(a, n // a) for a in range(1, n + 1) if n % a == 0]
    out += [(a, b, n // a // b) for a in range(1, n + 1) for b in range(1, n + 1) if n % (a * b) == 0]
    return out


def plan(tier, rng):
    out = []
    top = 8 if tier == "thorough" else 6
    for n in range(1, top + 1):
        for dtype in ("float64", "float32", "float16"):
            out.append(dict(kind="sequences", n=n, dtype=dtype, weight=4 ** n / 50.))
    perm = 8 if tier == "thorough" else 7
    for n in range(2, perm + 1):
        for repeat in ([False, True] if 2 < n < perm else [False]):
            out.append(dict(kind="permutations", n=n, repeat=repeat, weight=5 ** n / 400.))
    for dtype in ("float64", "float32", "float16"):
        for lo in range(1, 201, 40):
            out.append(dict(kind="sizes", lo=lo, hi=lo + 40, dtype=dtype, weight=5))
    for lo in (255, 1023, 4999) if tier == "thorough" else (255, 1023):
        out.append(dict(kind="sizes", lo=lo, hi=lo + 3, dtype="float64", weight=5))
    out.append(dict(kind="rank", weight=3))
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def reference(values):
    s = sorted(float(v) for v in values)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def judge(got, values, dtype, **where):
    want = np.array(reference(values)).astype(dtype)
    if np.shape(got) != ():
        raise Violation("the median has shape %r" % (np.shape(got),), key="shape", **where)
    if np.asarray(got).dtype != np.dtype(dtype):
        raise Violation("the median has dtype %s" % np.asarray(got).dtype, key="dtype", **where)
    tolerance = {"float64": 1e-15, "float32": 2e-7, "float16": 1e-3}[dtype]
    if not np.allclose(float(got), float(want), rtol=tolerance, atol=0):
        raise Violation("the median of %r is %r, should be %r" % (list(values), float(got), float(want)), key="value", **where)


def sequences(item, R):
    from pysgmcmc.tensor_utils import median
    n, dtype = item["n"], item["dtype"]
    with tf.Graph().as_default(), tf.Session() as session:
        calls = []
        for shape in shapes(n):
            source = tf.placeholder(dtype, shape)
            calls.append((shape, session.make_callable(median(source), [source])))
        for k, values in enumerate(itertools.product(ALPHABET, repeat=n)):
            # every shape for short sequences, shapes in turn for long ones
            for shape, call in (calls if n <= 4 else [calls[k % len(calls)]]):
                judge(call(np.array(values, dtype).reshape(shape)), values, dtype, shape=shape)
                R.step()
                R.state(shape, values, dtype)
    R.trace()


def permutations(item, R):
    from pysgmcmc.tensor_utils import median
    n = item["n"]
    values = [(i - n // 2) * 1.25 + 0.1 for i in range(n)]
    sets = [values]
    if item["repeat"]:
        sets = [sorted(values[:-1] + [values[i]]) for i in range(n - 1)]
    with tf.Graph().as_default(), tf.Session() as session:
        source = tf.placeholder("float64", (n,))
        call = session.make_callable(median(source), [source])
        for base in sets:
            for order in set(itertools.permutations(base)):
                judge(call(np.array(order)), order, "float64")
                R.step()
                R.state(order)
    R.trace()


def sizes(item, R):
    from pysgmcmc.tensor_utils import median
    dtype = item["dtype"]
    with tf.Graph().as_default(), tf.Session() as session:
        fetches, wants = [], []
        for n in range(item["lo"], item["hi"]):
            up = np.arange(n) - n // 3
            for k, values in enumerate((up, up[::-1], (up * 37) % (n + 1), np.where(up % 2, up, -up), np.full(n, 4))):
                values = (values * 0.5).astype(dtype)
                shape = shapes(n)[(k + n) % len(shapes(n))]
                make = tf.Variable if (k + n) % 3 == 0 else tf.constant
                fetches.append(median(make(values.reshape(shape))))
                wants.append((values, dict(n=n, shape=shape)))
        session.run(tf.global_variables_initializer())
        for got, (values, where) in zip(session.run(fetches), wants):
            judge(got, values, dtype, **where)
            R.step()
            R.state(where["n"], where["shape"], dtype)
    R.trace()


def rank(item, R):
    """Rank 0 to 4, infinite and extreme values."""
    from pysgmcmc.tensor_utils import median
    with tf.Graph().as_default(), tf.Session() as session:
        fetches, wants = [], []
        for r in range(5):
            for shape in itertools.product((1, 2, 3), repeat=r):
                n = int(np.prod(shape, dtype=int))
                values = np.array([(5 * i + 2) % 7 - 3 for i in range(n)], float)
                fetches.append(median(tf.constant(values.reshape(shape))))
                wants.append(values)
        big = float(np.finfo(float).max) / 4
        for values in ([-np.inf, 1.0, 2.0], [np.inf, 1.0, 2.0, 3.0], [-np.inf, np.inf, 5.0], [big, -big, 0.0], [big, big],
                       [1e-300, -1e-300, 0.0], [-0.0, 0.0, -1.0], [-big, -big, big, big]):
            fetches.append(median(tf.constant(values, tf.float64)))
            wants.append(values)
        for got, values in zip(session.run(fetches), wants):
            judge(got, values, "float64")
            R.step()
            R.state(list(values))
    R.trace()
