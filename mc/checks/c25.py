"""C25: prior terms equal their definitions."""
import itertools

import numpy as np
import tensorflow as tf

from ..core import Violation

BOUNDS = ("Variance prior: every column of 1..4 (thorough 5) rows over the values {-13.8, -2, 0, 3.5}, 5 pairs of mean and "
          "variance and the defaults, 2 dtypes. Weight prior: every list of up to 6 elements over {-2, 0, 0.5} cut into "
          "parameters in every way (all compositions, in both orders), in shapes of rank 0..3, 4 decays, 2 dtypes; "
          "variables and tensors; values of 1e-12 to 1e15; 1000 and 6000 elements in up to 235 parameters; columns of up to 69 and up to 4099 rows.")
ASSUMPTIONS = ["results agree within 1e-9 (float32: 1e-5)"]
TECHNIQUE = "VALUE"
RTOL = {"float64": 1e-9, "float32": 1e-5}


def plan(tier, rng):
    out = []
    for dtype in RTOL:
        for mean, var in ((None, None), (1e-6, 0.01), (1.0, 1.0), (0.5, 4.0), (20.0, 0.1), (1e-3, None), (None, 2.0)):
            out.append(dict(kind="variance", mean=mean, var=var, dtype=dtype, rows=5 if tier == "thorough" else 4, weight=2))
        for n in range(1, 7 if tier == "thorough" else 6):
            for decay in (None, 1.0, 0.0, 2.5, -0.5):
                out.append(dict(kind="weight", n=n, decay=decay, dtype=dtype, weight=2 ** n))
        out.append(dict(kind="large", dtype=dtype, weight=1))
        out.append(dict(kind="magnitudes", dtype=dtype, weight=1))
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def variance(item, R):
    from pysgmcmc.models.bayesian_neural_network import log_variance_prior_log_like
    dtype = item["dtype"]
    kw = {k: item[k] for k in ("mean", "var") if item[k] is not None}
    if dtype != "float64":
        kw["dtype"] = tf.as_dtype(dtype)
    mean, var = kw.get("mean", 1e-6), kw.get("var", 0.01)
    with tf.Graph().as_default(), tf.Session() as session:
        source = tf.placeholder(dtype, (None, 1))
        call = session.make_callable(log_variance_prior_log_like(source, **kw), [source])
        for n in range(1, item["rows"] + 1):
            for values in itertools.product((-13.8, -2.0, 0.0, 3.5), repeat=n):
                got = call(np.array(values, dtype)[:, None])
                want = np.mean([-(s - np.log(mean)) ** 2 / (2 * var) - np.log(var) / 2 for s in values])
                if np.shape(got) != () or np.asarray(got).dtype != np.dtype(dtype):
                    raise Violation("prior of %s%r" % (np.asarray(got).dtype, np.shape(got)), key="shape", item=item)
                # large terms may cancel
                scale = max(abs(want), abs(np.log(var)), max(s * s for s in values) / var if dtype == "float32" else 0)
                if not abs(float(got) - want) <= RTOL[dtype] * scale:
                    raise Violation("variance prior of %r is %r, should be %r" % (values, float(got), want), key="variance", item=item)
                R.step()
                R.state(dtype, mean, var, values)
    R.trace()


def compositions(n):
    for cuts in itertools.product((False, True), repeat=n - 1):
        sizes, size = [], 1
        for cut in cuts:
            if cut:
                sizes.append(size)
                size = 1
            else:
                size += 1
        yield sizes + [size]


def shape_of(size, k):
    options = [(size,), (size, 1), (1, size), (1, size, 1)] + ([()] if size == 1 else []) + ([(2, size // 2)] if size % 2 == 0 else []) \
        + ([(size // 3, 3)] if size % 3 == 0 else [])
    return options[k % len(options)]


def weight(item, R):
    from pysgmcmc.models.bayesian_neural_network import weight_prior_log_like
    dtype, n = item["dtype"], item["n"]
    kw = {} if item["decay"] is None else dict(wdecay=item["decay"])
    if dtype != "float64":
        kw["dtype"] = tf.as_dtype(dtype)
    decay = kw.get("wdecay", 1.0)
    with tf.Graph().as_default(), tf.Session() as session:
        flat = tf.placeholder(dtype, (n,))
        fetches, layouts, holders = [], [], []
        for k, sizes in enumerate(compositions(n)):
            for mirrored in (False, True):
                params, at = [], 0
                for j, size in enumerate(sizes):
                    piece = tf.reshape(flat[at:at + size], shape_of(size, j + k + 2 * mirrored))
                    if (j + k) % 2:
                        holder = tf.Variable(np.zeros(piece.shape.as_list(), dtype), dtype=dtype)
                        holders.append(tf.assign(holder, piece))
                        piece = holder
                    params.append(piece)
                    at += size
                fetches.append(weight_prior_log_like(params[::-1] if mirrored else params, **kw))
                layouts.append((sizes, mirrored))
        session.run(tf.global_variables_initializer())
        for values in itertools.product((-2.0, 0.0, 0.5), repeat=n):
            feed = {flat: np.array(values, dtype)}
            session.run(holders, feed)
            want = -decay / 2 * sum(v * v for v in values) / n
            for got, layout in zip(session.run(fetches, feed), layouts):
                if np.shape(got) != () or np.asarray(got).dtype != np.dtype(dtype):
                    raise Violation("prior of %s%r" % (np.asarray(got).dtype, np.shape(got)), key="shape", item=item)
                if not abs(float(got) - want) <= RTOL[dtype] * abs(want) + 1e-15:
                    raise Violation("weight prior of %r cut into %r is %r, should be %r" % (values, layout, float(got), want),
                                    key="weight", item=item)
                R.step()
                R.state(dtype, decay, values, layout)
    R.trace()


def magnitudes(item, R):
    """Tiny and huge weights and variances."""
    from pysgmcmc.models.bayesian_neural_network import weight_prior_log_like, log_variance_prior_log_like
    dtype = item["dtype"]
    values = [s * 10.0 ** e for e in range(-12, 16) for s in (1, -3)]
    with tf.Graph().as_default(), tf.Session() as session:
        w, s = tf.placeholder(dtype, (2,)), tf.placeholder(dtype, (None, 1))
        weights = session.make_callable(weight_prior_log_like([w[:1], w[1]], dtype=tf.as_dtype(dtype)), [w])
        variances = session.make_callable(log_variance_prior_log_like(s, dtype=tf.as_dtype(dtype)), [s])
        for a in values:
            for b in (0.0, a / 2, values[0]):
                got, want = float(weights(np.array([a, b], dtype))), -(a * a + b * b) / 4
                if not abs(got - want) <= RTOL[dtype] * abs(want):
                    raise Violation("weight prior of %r is %r, should be %r" % ([a, b], got, want), key="weight", item=item)
                R.step()
            got = float(variances(np.array([[a], [0.0]], dtype)))
            want = np.mean([-(v - np.log(1e-6)) ** 2 / 0.02 - np.log(0.01) / 2 for v in (a, 0.0)])
            if not abs(got - want) <= RTOL[dtype] * abs(want):
                raise Violation("variance prior of %r is %r, should be %r" % ([a, 0.0], got, want), key="variance", item=item)
            R.step()
            R.state(dtype, a)
    R.trace()


def large(item, R):
    from pysgmcmc.models.bayesian_neural_network import weight_prior_log_like, log_variance_prior_log_like
    dtype = item["dtype"]
    with tf.Graph().as_default(), tf.Session() as session:
        source = tf.placeholder(dtype, (None, 1))
        call = session.make_callable(log_variance_prior_log_like(source, mean=0.5, var=2.0, dtype=tf.as_dtype(dtype)), [source])
        for n in list(range(5, 70)) + [100, 127, 128, 129, 255, 256, 257, 1000, 4099]:
            s = ((np.arange(n) * 37) % 101 - 60).astype(dtype) / 10
            want = np.mean(-(s.astype(float) - np.log(0.5)) ** 2 / 4 - np.log(2.0) / 2)
            got = float(call(s[:, None]))
            R.require(abs(got - want) <= RTOL[dtype] * 10 * abs(want), "variance prior of %d rows is %r, should be %r" % (n, got, want), key="variance")
            R.step()
            R.state(dtype, "rows", n)
    for count, cuts in ((1000, ([(1000,)], [(10, 100)], [(20, 30), (400,)], [(5, 10, 20)], [(500, 1), (1, 500)], [()] * 3 + [(997,)],
                                [()] * 150 + [(2, 5)] * 85)),
                        (6000, ([(6000,)], [(3, 2000)], [(1, 5000), (1000, 1)], [(1500, 4)], [(60, 50), (50, 60)]))):
        with tf.Graph().as_default(), tf.Session() as session:
            values = ((np.arange(count) * 37) % 101 - 50).astype(dtype) / 10
            fetches = []
            for shapes in cuts:
                params, at = [], 0
                for shape in shapes:
                    size = int(np.prod(shape, dtype=int))
                    params.append(tf.Variable(values[at:at + size].reshape(shape), dtype=dtype))
                    at += size
                fetches.append(weight_prior_log_like(params, wdecay=0.7, dtype=tf.as_dtype(dtype)))
            session.run(tf.global_variables_initializer())
            want = -0.35 * float(np.sum(values.astype(float) ** 2)) / count
            for got, shapes in zip(session.run(fetches), cuts):
                R.require(abs(float(got) - want) <= 10 * RTOL[dtype] * abs(want), "weight prior %r, should be %r" % (float(got), want),
                          key="weight")
                R.step()
                R.state(dtype, shapes)
    R.trace()
