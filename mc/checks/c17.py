"""C17: vectorize and unvectorize are inverse, row-major reshapes."""
import itertools

import numpy as np
import tensorflow as tf

from ..core import Violation

BOUNDS = ("All 341 shapes of rank 0..4 with extents 0..3 (thorough: also every rank up to 5 with extents 0..2 and long "
          "vectors), large tensors of up to 66000 elements, 3 dtypes (every second chunk of shapes for 4 more; thorough: all), constants, placeholders, computed tensors, variables (initialised before, after, "
          "reassigned, vectorized twice), original shape given as TensorShape, tuple or list; gradients of weighted sums "
          "through both functions; 12 kinds of inputs that are no tensors.")
ASSUMPTIONS = ["static shapes only, as documented", "reference (non-resource) variables"]
TECHNIQUE = "VALUE"
DTYPES = ("float64", "float32", "float16", "int32", "int64", "complex64", "bool")


def plan(tier, rng):
    shapes = [s for r in range(5) for s in itertools.product(range(4), repeat=r)]
    shapes += [(64,), (257,), (16, 17), (5, 4, 6), (1, 1, 1, 1, 1, 1), (1, 300), (300, 1), (2, 1, 2, 1, 2, 1, 2)]
    shapes += [(190, 191), (66000,), (3, 5, 7, 11, 13)]
    if tier == "thorough":
        shapes += [s for s in itertools.product(range(3), repeat=5)] + [(64, 65), (5000,), (7, 8, 9, 10)]
    out = []
    size = 43
    for k, dtype in enumerate(DTYPES):
        for i in range(0, len(shapes), size):
            if tier == "quick" and k >= 3 and i // size % 2 != k % 2:
                continue
            out.append(dict(kind="tensors", dtype=dtype, shapes=shapes[i:i + size], weight=2))
            if dtype in ("float64", "float32", "int64") or tier == "thorough":
                out.append(dict(kind="variables", dtype=dtype, shapes=shapes[i:i + size], weight=3))
    out.append(dict(kind="rejects", weight=1))
    return out


def value(shape, dtype, offset=0):
    n = int(np.prod(shape, dtype=int))
    flat = np.array([(7 * i + 3 + offset) % (n + 11) for i in range(n)])   # all different
    if dtype == "bool":
        return np.array([(i * i + i // 2 + offset) % 3 == 0 for i in range(n)], bool).reshape(shape)
    return (flat - n // 2).astype(dtype).reshape(shape)


def check(item, R):
    R.sample(dict(item, shapes=item.get("shapes", [])[:5]))
    globals()[item["kind"]](item, R)


def static(shape, tensor):
    got = tensor.shape
    return got.ndims is None or got.as_list() == list(shape)


def compare(got, want, what, **where):
    if not isinstance(got, (np.ndarray, np.generic)) or got.shape != want.shape:
        raise Violation("%s has shape %r, should be %r" % (what, np.shape(got), want.shape), key="shape", **where)
    if got.dtype != want.dtype:
        raise Violation("%s has dtype %s, should be %s" % (what, got.dtype, want.dtype), key="dtype", **where)
    if got.tobytes() != np.ascontiguousarray(want).tobytes():
        raise Violation("%s is %r, should be %r" % (what, got.tolist(), want.tolist()), key="value", **where)


def run(fetches, R, **kw):
    with tf.Session() as session:
        if kw.get("init"):
            kw["init"](session)
        return session.run(fetches, feed_dict=kw.get("feed", {}))


def tensors(item, R):
    from pysgmcmc.tensor_utils import vectorize, unvectorize
    dtype = item["dtype"]
    with tf.Graph().as_default():
        fetches, wants, feed = [], [], {}
        for k, shape in enumerate(map(tuple, item["shapes"])):
            v = value(shape, dtype, k)
            placeholder = tf.placeholder(dtype, shape)
            feed[placeholder] = v
            for kind, tensor in (("constant", tf.constant(v, dtype=dtype, shape=shape)), ("placeholder", placeholder),
                                 ("identity", tf.identity(placeholder))):
                where = dict(shape=shape, dtype=dtype, kind=kind)
                column = vectorize(tensor)
                R.require(static((v.size, 1), column), "static shape of the vector is %r" % column.shape, key="static", **where)
                fetches.append(column)
                wants.append((v.reshape(-1, 1), "vectorized %s" % kind, where))
                form = (tensor.shape, tuple(shape), list(shape))[k % 3]
                back = unvectorize(column, original_shape=form)
                R.require(static(shape, back), "static shape of the result is %r" % back.shape, key="static", **where)
                fetches.append(back)
                wants.append((v, "unvectorized %s" % kind, where))
                R.state(shape, dtype, kind)
            # unvectorizing on its own
            source = tf.constant(value((v.size, 1), dtype, 1), dtype=dtype, shape=(v.size, 1))
            fetches.append(unvectorize(source, shape))
            wants.append((value((v.size, 1), dtype, 1).reshape(shape), "unvectorize alone", dict(shape=shape, dtype=dtype)))
            if dtype in ("float64", "float32"):
                weights = value((v.size, 1), dtype, 5)
                column = vectorize(placeholder)
                back = unvectorize(column, placeholder.shape)
                for what, target, source in (("vectorize", tf.reduce_sum(weights * column), placeholder),
                                             ("unvectorize", tf.reduce_sum(weights.reshape(shape) * back), column),
                                             ("both", tf.reduce_sum(weights.reshape(shape) * back), placeholder)):
                    grad, = tf.gradients(target, source)
                    R.require(grad is not None, "no gradient through %s" % what, key="gradient", shape=shape)
                    fetches.append(grad)
                    wants.append((weights.reshape(shape if source is placeholder else (v.size, 1)),
                                  "gradient through %s" % what, dict(shape=shape, dtype=dtype)))
        for got, (want, what, where) in zip(run(fetches, R, feed=feed), wants):
            compare(got, want, what, **where)
            R.step()
        R.trace()


def variables(item, R):
    from pysgmcmc.tensor_utils import vectorize, unvectorize
    dtype = item["dtype"]
    # (is the variable initialised first, and given another value before its vectors are)
    for first, reassign in ((False, False), (True, False), (True, True)):
        with tf.Graph().as_default(), tf.Session() as session:
            fetches, wants, news = [], [], []
            for k, shape in enumerate(map(tuple, item["shapes"])):
                v, w = value(shape, dtype, k), value(shape, dtype, k + 3)
                variable = tf.Variable(v, dtype=dtype, trainable=bool(k % 2))
                if first:
                    session.run(variable.initializer)
                if reassign:
                    variable.load(w, session)
                where = dict(shape=shape, dtype=dtype, kind="variable", initialised=first, reassigned=reassign)
                column = vectorize(variable)
                R.require(static((v.size, 1), column), "static shape %r" % column.shape, key="static", **where)
                R.require(column is not variable and column.dtype.base_dtype == tf.as_dtype(dtype),
                          "vector has dtype %r" % column.dtype, key="dtype", **where)
                back = unvectorize(column, variable.shape)
                R.require(static(shape, back), "static shape %r" % back.shape, key="static", **where)
                want = w if reassign else v
                fetches += [tf.convert_to_tensor(column), back, tf.convert_to_tensor(variable)]
                wants += [(want.reshape(-1, 1), "vectorized variable", where), (want, "unvectorized variable", where),
                          (want, "the variable itself", where)]
                if isinstance(column, tf.Variable):
                    news.append(column)
                if not first:
                    news.append(variable)
                R.state(shape, dtype, first, reassign)
            session.run(tf.variables_initializer(news))
            for got, (want, what, where) in zip(session.run(fetches), wants):
                compare(got, want, what, **where)
                R.step()
            if dtype != "bool" and first and not reassign:
                pairs = [(column, k) for k, column in enumerate(news) if isinstance(column, tf.Variable)]
                if len(pairs) == len(item["shapes"]):
                    # the copy lives on its own: changing it leaves the variable alone
                    session.run([c.assign(c + c) for c, _ in pairs])
                    for got, (want, what, where) in zip(session.run(fetches[2::3]), wants[2::3]):
                        compare(got, want, what + " after its vector was modified", **where)
                        R.step()
        R.trace()


def rejects(item, R):
    from pysgmcmc.tensor_utils import vectorize
    with tf.Graph().as_default():
        t = tf.constant([1.0])
        for bad in ([1.0], [[1.0, 2.0]], (1.0,), 1.0, 3, None, "abc", np.arange(4.0), np.float64(2), {"a": 1.0}, object(),
                    [t], tf.SparseTensor([[0, 0]], [1.0], [2, 2]), tf.IndexedSlices(t, tf.constant([0]))):
            try:
                out = vectorize(bad)
            except ValueError:
                R.step()
                R.state(repr(bad)[:30])
                continue
            except Exception as e:
                raise Violation("vectorize(%r) raises %s instead of ValueError" % (bad, type(e).__name__), key="rejects")
            raise Violation("vectorize(%r) returns %r instead of raising ValueError" % (bad, out), key="rejects")
    R.trace()
