"""C18: pdist and squareform agree with the definition of distance matrices."""
import itertools

import numpy as np
import tensorflow as tf

from ..core import Violation

BOUNDS = ("pdist: every point set of n points in d dimensions over the values {-1,0,2} with n*d <= 6 (thorough <= 8), n <= 6, plus "
          "fixed sets with pairwise different distances for every n <= 14, 21 (thorough 40), d <= 4 (also with a single coordinate "
          "differing, mirrored, huge and tiny); float32/64/16, tensors and variables. squareform: every length 0..130 "
          "(thorough 0..700), 5 dtypes, values naming their position; round trips; every rejected rank, type and metric.")
ASSUMPTIONS = ["distances agree within 8 ulp (thousandths for half precision)"]
TECHNIQUE = "VALUE"
TOL = {"float64": 1e-14, "float32": 1e-6, "float16": 2e-3}


def plan(tier, rng):
    limit = 8 if tier == "thorough" else 6
    out = []
    for n in range(1, 7):
        for d in range(1, 5):
            if n * d <= limit:
                for dtype in ("float64", "float32"):
                    out.append(dict(kind="lattice", n=n, d=d, dtype=dtype, weight=3 ** (n * d) / 100.))
    for dtype in TOL:
        for n in range(1, 15):
            out.append(dict(kind="sets", n=n, dtype=dtype, weight=n))
    for n in (21, 40) if tier == "thorough" else (21,):
        out.append(dict(kind="sets", n=n, dtype="float64", weight=n))
    top = 700 if tier == "thorough" else 130
    for dtype in ("float64", "float32", "float16", "int32", "int64"):
        for i in range(0, top + 1, 22):
            out.append(dict(kind="lengths", lengths=list(range(i, min(i + 22, top + 1))), dtype=dtype, weight=1))
    out.append(dict(kind="rejects", weight=1))
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def reference(points):
    n = len(points)
    points = points.astype(float)
    return np.array([np.sqrt(sum((points[i][k] - points[j][k]) ** 2 for k in range(points.shape[1])))
                     for i in range(n) for j in range(i + 1, n)]).reshape(-1)


def judge(got, want, dtype, what, **where):
    if np.shape(got) != want.shape:
        raise Violation("%s has shape %r, should be %r" % (what, np.shape(got), want.shape), key="shape", **where)
    if np.asarray(got).dtype != np.dtype(dtype):
        raise Violation("%s has dtype %s" % (what, np.asarray(got).dtype), key="dtype", **where)
    if not np.allclose(np.asarray(got, float), want, rtol=TOL.get(dtype, 0), atol=0):
        raise Violation("%s is %r, should be %r" % (what, np.asarray(got).tolist(), want.tolist()), key="value", **where)


def full(condensed, n):
    m = np.zeros((n, n))
    for k, (i, j) in enumerate(itertools.combinations(range(n), 2)):
        m[i, j] = m[j, i] = condensed[k]
    return m


def lattice(item, R):
    from pysgmcmc.tensor_utils import pdist, squareform
    n, d, dtype = item["n"], item["d"], item["dtype"]
    with tf.Graph().as_default(), tf.Session() as session:
        points = tf.placeholder(dtype, (n, d))
        condensed = pdist(points)
        call = session.make_callable([condensed, squareform(condensed)], [points])
        for values in itertools.product((-1.0, 0.0, 2.0), repeat=n * d):
            x = np.array(values, dtype).reshape(n, d)
            got, square = call(x)
            want = reference(x)
            where = dict(points=x.tolist())
            judge(got, want, dtype, "pdist", **where)
            judge(square, full(want, n), dtype, "squareform(pdist)", **where)
            R.require(np.array_equal(square, np.transpose(square)), "the matrix is not symmetric", key="symmetry", **where)
            R.step(2)
            R.state(n, d, dtype, values)
    R.trace()


def sets(item, R):
    from pysgmcmc.tensor_utils import pdist, squareform
    n, dtype = item["n"], item["dtype"]
    for d in (1, 2, 3, 4):
        base = np.array([[((i * i * 3 + i + k * (i + 2)) % 61) / 4. for k in range(d)] for i in range(n)])
        single = np.zeros((n, d))
        single[:, d - 1] = [0.5 * i * i for i in range(n)]
        variants = [base, base[::-1], -base, single, np.ones((n, d))]
        if dtype != "float16":
            variants += [base * 1e12, base * 1e-12]
        with tf.Graph().as_default(), tf.Session() as session:
            tensor, variable = tf.placeholder(dtype, (n, d)), tf.Variable(np.zeros((n, d), dtype))
            condensed = pdist(tensor), pdist(variable, metric="euclidean")
            fetches = [condensed, [squareform(c) for c in condensed]]
            for k, x in enumerate(variants):
                x = np.ascontiguousarray(x).astype(dtype)
                variable.load(x, session)
                want = reference(x)
                got = session.run(fetches, {tensor: x})
                for i, kind in enumerate(("tensor", "variable")):
                    where = dict(n=n, d=d, variant=k, kind=kind)
                    judge(got[0][i], want, dtype, "pdist", **where)
                    judge(got[1][i], full(want, n), dtype, "squareform(pdist)", **where)
                    R.step(2)
                    R.state(dtype, sorted(where.items()))
    R.trace()


def lengths(item, R):
    from pysgmcmc.tensor_utils import squareform
    dtype = item["dtype"]
    with tf.Graph().as_default(), tf.Session() as session:
        fetches, wants = [], []
        for length in item["lengths"]:
            x = (np.arange(length) + 1).astype(dtype)
            n = next((n for n in range(1, 60) if n * (n - 1) // 2 == length), None)
            for kind in ("constant", "placeholder"):
                source = tf.constant(x, dtype=dtype, shape=(length,)) if kind == "constant" else tf.placeholder_with_default(x, (length,))
                R.step()
                R.state(length, dtype, kind)
                if n is None:
                    try:
                        out = squareform(source)
                    except ValueError:
                        continue
                    except Exception as e:
                        raise Violation("length %d: %r instead of ValueError" % (length, e), key="rejects")
                    raise Violation("squareform accepts a vector of %d elements: %r" % (length, out), key="rejects")
                fetches.append(squareform(source))
                wants.append((full(x.astype(float), n), length))
        if fetches:
            for got, (want, length) in zip(session.run(fetches), wants):
                judge(got, want, dtype, "squareform of %d elements" % length, length=length)
                R.trace()


def rejects(item, R):
    from pysgmcmc.tensor_utils import pdist, squareform
    with tf.Graph().as_default():
        cases = []
        for shape in ((), (3,), (0,), (2, 2, 1), (1, 1, 1, 1)):
            for metric in ("euclidean", "lengthy_metric"):
                cases.append((pdist, (tf.zeros(shape), metric), ValueError))
        for metric in ("lengthy_metric", "Euclidean", "", "cosine", "cityblock", "sqeuclidean", "euclid"):
            cases.append((pdist, (tf.zeros((3, 2)), metric), NotImplementedError))
        for shape in ((2, 2), (4, 4), (1, 1), (3, 1), (1, 3), (1, 1, 1), (0, 0), (0, 1)):
            cases.append((squareform, (tf.zeros(shape),), NotImplementedError))
        cases.append((squareform, (tf.zeros(()),), Exception))
        for bad in ([1.0], [[1.0, 2.0]], np.zeros(3), np.zeros((2, 2)), 1.0, None, "a"):
            cases += [(pdist, (bad,), Exception), (squareform, (bad,), Exception)]
        for function, args, error in cases:
            R.step()
            R.state(function.__name__, repr(args)[:80])
            try:
                out = function(*args)
            except error:
                continue
            except Exception as e:
                raise Violation("%s%r raises %r instead of %s" % (function.__name__, args, e, error.__name__), key="rejects")
            raise Violation("%s accepts %r: %r" % (function.__name__, args, out), key="rejects")
    R.trace()
