"""C32: benchmark functions equal their published definitions."""
import itertools
import math

import numpy as np
import tensorflow as tf

from ..core import Violation

BOUNDS = ("Every benchmark function at every point of a grid over its domain (21-401 points per coordinate; 4-6 for hartmann6; thorough: about "
          "twice as fine) together with all documented optima and their neighbourhoods, as lists, tuples and arrays, compared with a "
          "separately written definition; f >= f_opt at every point. Mixtures: grid of points x 12 parameter sets incl. one to four components, "
          "python numbers, arrays, float32/64 variables, with gradients; negation wrappers of every function.")
ASSUMPTIONS = ["hartmann3's P[2,0] is 0.1090 as in HPOlib, the source named (other publications print 0.1091)",
               "values agree within 1e-9 relative to the magnitude of the terms"]
TECHNIQUE = "VALUE"
pi = math.pi


def hartmann(alpha, A, P):
    def f(x):
        return -sum(a * math.exp(-sum(r * (v - p) ** 2 for r, v, p in zip(row, x, ps))) for a, row, ps in zip(alpha, A, P))
    return f


def goldstein(x):
    a, b = x
    first = 1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a * a - 14 * b + 6 * a * b + 3 * b * b)
    second = 30 + (2 * a - 3 * b) ** 2 * (18 - 32 * a + 12 * a * a + 48 * b - 36 * a * b + 27 * b * b)
    return first * second


def sinone(v):
    return (math.sin(13 * v) * math.sin(27 * v) + 1) / 2


# name: (definition, domain, points per coordinate, optima, f_opt, tolerance of f_opt)
FUNCTIONS = {
    "bohachevski": (lambda x: x[0] ** 2 + 2 * x[1] ** 2 - 0.3 * math.cos(3 * pi * x[0]) - 0.4 * math.cos(4 * pi * x[1]) + 0.7,
                    [(-100, 100)] * 2, 41, [(0.0, 0.0)], 0.0, 1e-9),
    "branin": (lambda x: (x[1] - 5.1 * x[0] ** 2 / (4 * pi * pi) + 5 * x[0] / pi - 6) ** 2 + 10 * (1 - 1 / (8 * pi)) * math.cos(x[0]) + 10,
               [(-5, 10), (0, 15)], 41, [(-pi, 12.275), (pi, 2.275), (9.42478, 2.475)], 0.39788735773, 1e-6),
    "camelback": (lambda x: 4 * x[0] ** 2 - 2.1 * x[0] ** 4 + x[0] ** 6 / 3 + x[0] * x[1] - 4 * x[1] ** 2 + 4 * x[1] ** 4,
                  [(-3, 3), (-2, 2)], 41, [(0.0898, -0.7126), (-0.0898, 0.7126)], -1.03162842, 1e-6),
    "goldstein_price": (goldstein, [(-2, 2)] * 2, 41, [(0.0, -1.0)], 3.0, 1e-9),
    "hartmann3": (hartmann([1.0, 1.2, 3.0, 3.2], [[3, 10, 30], [.1, 10, 35], [3, 10, 30], [.1, 10, 35]],
                           [[.3689, .1170, .2673], [.4699, .4387, .7470], [.1090, .8732, .5547], [.0381, .5743, .8828]]),
                  [(0, 1)] * 3, 13, [(0.114614, 0.555649, 0.852547)], -3.8627795317627736, 1e-6),
    "hartmann6": (hartmann([1.0, 1.2, 3.0, 3.2],
                           [[10, 3, 17, 3.5, 1.7, 8], [.05, 10, 17, .1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, .05, 10, .1, 14]],
                           [[.1312, .1696, .5569, .0124, .8283, .5886], [.2329, .4135, .8307, .3736, .1004, .9991],
                            [.2348, .1451, .3522, .2883, .3047, .6650], [.4047, .8828, .8732, .5743, .1091, .0381]]),
                  [(0, 1)] * 6, 4, [(0.20169, 0.150011, 0.476874, 0.275332, 0.311652, 0.6573)], -3.322368011391339, 1e-6),
    "levy": (lambda x: math.sin(pi * (x[0] + 3) / 4) ** 2 + ((x[0] - 1) / 4) ** 2 * (1 + math.sin(2 * pi * (x[0] + 3) / 4) ** 2),
             [(-15, 10)], 401, [(1.0,)], 0.0, 1e-12),
    "rosenbrock": (lambda x: (1 - x[0]) ** 2 + 100 * (x[1] - x[0] * x[0]) ** 2, [(-5, 10)] * 2, 41, [(1, 1), (1.0, 1.0)], 0.0, 1e-12),
    "sin_one": (lambda x: sinone(x[0]), [(0, 1)], 401, [(0.6330131633013163,)], 0.042926342433644127, 1e-6),
    "sin_two": (lambda x: sinone(x[0]) * sinone(x[1]), [(0, 1)] * 2, 41, [(0.6330131633013163, 0.6330131633013163)],
                0.042926342433644127 ** 2, 1e-6),
}


def banana(x):
    return -(x[0] ** 2 / 200 + (x[1] + x[0] ** 2 / 10 - 10) ** 2 / 2)


def mixture(x, mu=(-5, 0, 5), var=(1., 1., 1.), weights=(1 / 3., 1 / 3., 1 / 3.)):
    """Log density and its derivative."""
    logs = [math.log(w) - 0.5 * math.log(2 * pi * v) - (x - m) ** 2 / (2 * v) for m, v, w in zip(mu, var, weights)]
    top = max(logs)
    ps = [math.exp(v - top) for v in logs]
    total = sum(ps)
    return top + math.log(total), sum(p * (m - x) / v for p, m, v in zip(ps, mu, var)) / total


MIXTURES = [dict(), dict(var=[2.0, 0.5, 2.0]), dict(var=[1 / .3, .3, 1 / .3]), dict(mu=(1.0,), var=(2.0,), weights=(1.0,)),
            dict(mu=(0, 0), var=(1.0, 4.0), weights=(0.5, 0.5)), dict(mu=[-3.0, 4.0], var=[0.25, 9.0], weights=[0.9, 0.1]),
            dict(mu=(-5, 0, 5), weights=(0.2, 0.7, 0.1)), dict(mu=(1, 2, 3)), dict(mu=(1.0,), var=(0.01,), weights=(0.25,)),
            dict(mu=(-2.0, 0.0, 1.0, 8.0), var=(1.0, 2.0, 3.0, 4.0), weights=(0.1, 0.2, 0.3, 0.4)),
            dict(mu=(100.0, -100.0), var=(1.0, 1.0), weights=(0.5, 0.5)), dict(mu=(0.0, 0.5), var=(1e-3, 1e3), weights=(0.5, 0.5))]


def plan(tier, rng):
    out = [dict(kind="function", name=name, fine=tier == "thorough", weight=3) for name in FUNCTIONS]
    out += [dict(kind="likelihoods", weight=3), dict(kind="wrappers"), dict(kind="sinc")]
    for k in range(len(MIXTURES)):
        out.append(dict(kind="mixtures", which=k, fine=tier == "thorough", weight=2))
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def module():
    import pysgmcmc.diagnostics.objective_functions as m
    return m


def judge(got, want, what, R, scale=None, rtol=1e-9, key="value"):
    shape = np.shape(got)
    if np.size(got) != 1:
        raise Violation("%s has shape %r" % (what, shape), key="shape")
    value = float(np.asarray(got).reshape(()))
    if not abs(value - want) <= rtol * (abs(want) + (scale or 1e-3)):
        raise Violation("%s is %r, should be %r" % (what, value, want), key=key)
    R.step()


def function(item, R):
    name = item["name"]
    definition, domain, points, optima, f_opt, tol = FUNCTIONS[name]
    if item["fine"]:
        points = {4: 6, 13: 25, 41: 161}.get(points, points * 4)
    f = getattr(module(), name)
    axes = [np.linspace(lo, hi, points) for lo, hi in domain]
    near = [tuple(o[i] + d[i] for i in range(len(o))) for o in optima for d in itertools.product((-0.01, 0.0, 0.02), repeat=len(domain))]
    kinds = (list, tuple, np.array)
    for k, x in enumerate(itertools.chain(optima, near, itertools.product(*axes), [tuple(hi * 1.5 + 1 for _, hi in domain)])):
        x = tuple(float(v) for v in x)
        want = definition(x)
        given = kinds[k % 3](x)
        judge(f(given), want, "%s(%r)" % (name, x), R, scale=1 + max(abs(v) for v in x) ** 2 * 1e-2)
        inside = all(lo <= v <= hi for v, (lo, hi) in zip(x, domain))
        if inside and not float(np.asarray(f(given)).reshape(())) >= f_opt - tol:
            raise Violation("%s%r is below the documented minimum %r" % (name, x, f_opt), key="minimum")
        R.require(list(given) == list(x), "the input was modified", key="input")
        R.state(name, x)
    for x in optima:
        judge(f(list(x)), f_opt, "%s at the optimum %r" % (name, x), R, scale=1.0, rtol=max(tol, 2e-5 if name in ("camelback", "branin") else tol), key="optimum")
        judge(f([int(v) if v == int(v) else v for v in x]), definition(x), "%s at %r" % (name, x), R, scale=1.0)
    R.trace()


def sinc(item, R):
    f = module().sinc

    def definition(row):
        return sum(1.0 if v == 0.5 else math.sin(pi * (10 * v - 5)) / (pi * (10 * v - 5)) for v in row)
    values = [0.0, 0.05, 0.25, 0.4375, 0.5, 0.75, 1.0]
    for d in (1, 2, 3):
        rows = list(itertools.product(values, repeat=d))
        for n in (1, 2, len(rows)):
            for i in range(0, len(rows), n):
                x = np.array(rows[i:i + n])
                got = np.asarray(f(x))
                R.require(got.shape == (len(x),), "sinc of %r has shape %r" % (x.shape, got.shape), key="shape")
                for g, row in zip(got, x):
                    judge(g, definition(row), "sinc(%r)" % (row,), R, scale=1.0)
                    R.state("sinc", row.tolist())
    R.trace()


def likelihoods(item, R):
    m = module()
    grid = [-30.0, -10.0, -3.3, -1.0, -0.25, 0.0, 0.5, 1.0, 2.5, 7.0, 10.0, 12.0, 31.0]
    for x in itertools.product(grid, repeat=2):
        for kind in (list, tuple, np.array):
            judge(m.banana_log_likelihood(kind(x)), banana(x), "banana(%r)" % (x,), R, scale=1 + x[0] ** 4 * 1e-2)
        R.state("banana", x)
    for dtype, rtol in (("float64", 1e-9), ("float32", 2e-5)):
        with tf.Graph().as_default(), tf.Session() as session:
            variables = [tf.Variable(0.0, dtype=tf.as_dtype(dtype)) for _ in range(2)]
            for which in (list, tuple):
                value = m.banana_log_likelihood(which(variables))
                grads = tf.gradients(value, variables)
                R.require(value.dtype == tf.as_dtype(dtype) and value.shape.ndims in (0, None), "banana of variables: %r" % value, key="shape")
                for x in itertools.product(grid, repeat=2):
                    for v, c in zip(variables, x):
                        v.load(c, session)
                    got, (ga, gb) = session.run([value, grads])
                    inner = x[1] + x[0] ** 2 / 10 - 10
                    scale = 1 + x[0] ** 4
                    judge(got, banana(x), "banana of variables %r" % (x,), R, scale=scale, rtol=rtol)
                    judge(ga, -x[0] / 100 - inner * x[0] / 5, "gradient of banana at %r" % (x,), R, scale=scale, rtol=rtol, key="gradient")
                    judge(gb, -inner, "gradient of banana at %r" % (x,), R, scale=scale, rtol=rtol, key="gradient")
    for name, k in (("gmm1_log_likelihood", 0), ("gmm2_log_likelihood", 1), ("gmm3_log_likelihood", 2)):
        compare_mixture(getattr(m, name), {}, MIXTURES[k], name, 21, R)
    R.trace()


def mixtures(item, R):
    kw = MIXTURES[item["which"]]
    compare_mixture(module().gaussian_mixture_model_log_likelihood, kw, kw, "mixture %r" % kw, 201 if item["fine"] else 61, R)
    R.trace()


def compare_mixture(f, kw, definition, what, points, R):
    xs = [float(x) for x in np.linspace(-12, 12, points)] + [float(m) for m in definition.get("mu", (-5, 0, 5))] + [60.0, -200.0]
    for x in xs:
        want, _ = mixture(x, **definition)
        for given in (x, [x], (x,), np.array([x]), np.float64(x)):
            judge(f(given, **kw), want, "%s at %r" % (what, given), R, scale=1.0)
        R.state(what, x)
    for dtype, rtol in (("float64", 1e-9), ("float32", 1e-4)):
        with tf.Graph().as_default(), tf.Session() as session:
            variable = tf.Variable(0.0, dtype=tf.as_dtype(dtype))
            for given in ([variable], (variable,)):
                value = f(given, **kw)
                grad, = tf.gradients(value, variable)
                R.require(grad is not None, "no gradient of %s" % what, key="gradient")
                R.require(value.dtype == tf.as_dtype(dtype), "%s of a %s variable is %s" % (what, dtype, value.dtype), key="dtype")
                for x in xs:
                    variable.load(x, session)
                    got, g = session.run([value, grad])
                    want, slope = mixture(float(np.dtype(dtype).type(x)), **definition)
                    big = (dtype == "float32") * abs(want)
                    judge(got, want, "%s of a %s variable at %r" % (what, dtype, x), R, scale=1.0 + big, rtol=rtol)
                    judge(g, slope, "gradient of %s at %r (%s)" % (what, x, dtype), R, scale=1.0 + abs(slope) + big, rtol=rtol * 10, key="gradient")
    bad = dict(kw, weights=(0.5,) * 7)
    try:
        if "mu" in kw or kw == definition:
            f(0.5, **bad)
            raise Violation("%s accepts lists of different lengths" % what, key="lengths")
    except Violation:
        raise
    except Exception:
        R.step()


def wrappers(item, R):
    m = module()
    names = [(n, [(0.3, 0.7, 0.2, 0.4, 0.9, 0.1)[:len(FUNCTIONS[n][1])]]) for n in FUNCTIONS]
    names += [("banana_log_likelihood", [(1.0, 2.0)]), ("gmm1_log_likelihood", [(0.4,)]), ("gmm2_log_likelihood", [(0.4,)]),
              ("gmm3_log_likelihood", [(0.4,)]), ("sinc", [np.array([[0.3, 0.6]])])]
    for name, args in names:
        f = getattr(m, name)
        g = m.to_negative_log_likelihood(f)
        R.require(g.__name__ == f.__name__ == name, "the wrapper of %s is called %s" % (name, g.__name__), key="name")
        R.require(np.array_equal(np.asarray(g(*args)), -np.asarray(f(*args))), "the wrapper of %s is %r, should be %r" % (
            name, g(*args), -f(*args)), key="negation")
        again = m.to_negative_log_likelihood(g)
        R.require(np.array_equal(np.asarray(again(*args)), np.asarray(f(*args))), "double negation of %s" % name, key="negation")
        R.step(2)
        R.state(name)
    calls = []

    def likelihood(a, b=2.0, *rest, **named):
        """Documented."""
        calls.append((a, b, rest, named))
        return a - b
    g = m.to_negative_log_likelihood(likelihood)
    for args, kw in itertools.product([(1.0,), (5.0, 3.0), (5.0, 3.0, 7)], [{}, dict(c=4)]):
        got = g(*args, **kw)
        b = args[1] if len(args) > 1 else 2.0
        R.require(got == -(args[0] - b) and calls[-1] == (args[0], b, args[2:], kw), "arguments or value of the wrapped function changed: %r" % got,
                  key="arguments")
        R.step()
    R.require(g(a=1.0, b=4.0) == 3.0, "keyword arguments", key="arguments")
    R.require(g.__name__ == "likelihood" and g.__doc__ == "Documented.", "name or documentation of a wrapped function are lost", key="name")
    with tf.Graph().as_default(), tf.Session() as session:
        v = tf.Variable(1.5, dtype=tf.float64)
        session.run(v.initializer)
        for name in ("gmm1_log_likelihood", "gmm3_log_likelihood"):
            f = getattr(m, name)
            a, b = session.run([f([v]), m.to_negative_log_likelihood(f)([v])])
            R.require(a == -b, "negation of %s on variables" % name, key="negation")
            R.step()
    R.trace()
