"""C20: safe_divide and safe_sqrt never produce artefacts."""
import numpy as np
import tensorflow as tf

from ..core import Violation

BOUNDS = ("safe_divide: every one of the 63488 finite half precision divisors with 7 numerators and 3 small constants; float32 and "
          "float64 divisors of the form +-m*2^e for every exponent e of the format (subnormals and extremes included) and 6 "
          "mantissas, +-0, and the 9 nearest numbers around 0, +-c, +-2c, +-3c for 5 (thorough 9) small constants c incl. the default, with "
          "9 numerators; tensors, python numbers, broadcasting. safe_sqrt: every half precision number, the same grids, "
          "infinities, 6 pairs of clip bounds.")
ASSUMPTIONS = ["tensorflow computes with subnormal numbers flushed to zero, so they count as zero divisors",
               "results within 4 ulp"]
TECHNIQUE = "VALUE"
EPS = {"float16": 2.0 ** -10, "float32": 2.0 ** -23, "float64": 2.0 ** -52}


def plan(tier, rng):
    out = []
    constants = {"float16": [2.0 ** -10, 1e-3, 0.25],
                 "float32": [None, 1e-16, 1e-8, 1e-30, 1.0] + ([1e-3, 2.0 ** -60, 1e-35, 64.0] if tier == "thorough" else []),
                 "float64": [None, 1e-16, 1e-8, 1e-200, 1.0] + ([1e-3, 2.0 ** -60, 1e-290, 64.0] if tier == "thorough" else [])}
    for dtype, cs in constants.items():
        for c in cs:
            out.append(dict(kind="divide", dtype=dtype, c=c, weight=4))
        for bounds in ([None, None], [0.0, 1.0], [0.25, 4.0], [1.0, None], [None, 2.0], [2.0, 2.0]):
            out.append(dict(kind="sqrt", dtype=dtype, bounds=bounds, weight=2))
    out.append(dict(kind="forms", weight=1))
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def grid(dtype, around=()):
    dt = np.dtype(dtype)
    if dtype == "float16":
        every = np.arange(65536, dtype=np.uint16).view(np.float16)
        return every[np.isfinite(every)]
    info = np.finfo(dt)
    out = [0.0, -0.0, info.max, -info.max, info.tiny, -info.tiny]
    for e in range(info.minexp - info.nmant, info.maxexp):
        for m in (1.0, 1.0 + float(info.eps), 1.25, 1.5, 1.9, 2.0 - float(info.eps)):
            v = np.ldexp(dt.type(m), e)
            if np.isfinite(v):
                out += [v, -v]
    for a in around:
        for sign in (1, -1):
            v = dt.type(sign * a)
            for direction in (np.inf, -np.inf):
                w = v
                for _ in range(5):
                    out.append(w)
                    w = np.nextafter(w, dt.type(direction))
    out = np.array(out, dt)
    return out[np.isfinite(out)]


def divide(item, R):
    from pysgmcmc.tensor_utils import safe_divide
    dtype, c = item["dtype"], item["c"]
    dt = np.dtype(dtype)
    info = np.finfo(dt)
    cv = dt.type(1e-16 if c is None else c)
    y = grid(dtype, around=[0.0] + [k * float(cv) for k in (1, 2, 3, 0.5)])
    numerators = [1.0, -1.0, 0.0, 3.0, -0.375, float(info.tiny) * 4, -float(info.tiny) * 64, 1e3, -2.0 ** 14]
    if dtype != "float16":
        numerators += [float(info.max) / 8, -float(info.max) * 0.9, 1e20]
    with tf.Graph().as_default(), tf.Session() as session:
        px, py = tf.placeholder(dtype, ()), tf.placeholder(dtype, (None,))
        kw = {}
        if c is not None:
            kw["small_constant"] = tf.constant(cv, dtype) if item.get("tensor") else cv
        call = session.make_callable(safe_divide(px, py, **kw), [px, py])
        with np.errstate(all="ignore"):
            for n in numerators:
                x = dt.type(n)
                if not np.isfinite(x / cv) or abs(float(x)) / float(cv) >= float(info.max):
                    continue
                z = call(x, y)
                where = dict(x=float(x), c=float(cv), dtype=dtype)
                R.step(len(y))
                R.state(dtype, c, n, len(y))

                def require(ok, what):
                    if not ok.all():
                        i = np.flatnonzero(~ok)[0]
                        raise Violation("safe_divide(%r, %r) = %r %s" % (float(x), float(y[i]), float(z[i]), what),
                                        key=what, **where)
                R.require(z.dtype == dt and z.shape == y.shape, "result of %s%r" % (z.dtype, z.shape), key="shape", **where)
                require(np.isfinite(z), "is not finite")
                zero = np.abs(y) < info.tiny if dtype != "float16" else y == 0
                # the documented signs; a zero quotient may have either
                sign = np.where(zero, np.sign(x), np.sign(x) * np.sign(y))
                require((np.sign(z) == sign) | (z == 0), "has the wrong sign")
                yl, xl, zl, cl = y.astype(np.longdouble), np.longdouble(x), z.astype(np.longdouble), np.longdouble(cv)
                # a zero divisor counts as a tiny positive one
                require(~zero | ((zl * cl >= xl / 3 * (1 - 1e-2)) & (zl * cl <= xl * (1 + 1e-2))
                                 if x >= 0 else (zl * cl <= xl / 3 * (1 - 1e-2)) & (zl * cl >= xl * (1 + 1e-2)))
                        | (np.abs(xl) / cl < float(info.tiny) * 8), "is not x divided by a tiny positive divisor")
                true = xl / yl
                bound = np.abs(true) * (3 * cl / np.abs(yl) + 4 * EPS[dtype]) + 4 * np.longdouble(info.tiny)
                require(zero | (np.abs(zl - true) <= bound), "differs from x/y by more than the documented perturbation")
    R.trace()


def sqrt(item, R):
    from pysgmcmc.tensor_utils import safe_sqrt
    dtype, (lo, hi) = item["dtype"], item["bounds"]
    dt = np.dtype(dtype)
    info = np.finfo(dt)
    x = np.concatenate([grid(dtype, [0.0] + [b for b in (lo, hi) if b]), np.array([np.inf, -np.inf], dt)])
    with tf.Graph().as_default(), tf.Session() as session:
        source = tf.placeholder(dtype, (None,))
        kw = {}
        if lo is not None:
            kw["clip_value_min"] = lo
        if hi is not None:
            kw["clip_value_max"] = hi
        z = session.run(safe_sqrt(source, **kw), {source: x})
    R.require(z.dtype == dt and z.shape == x.shape, "result of %s%r" % (z.dtype, z.shape), key="shape", dtype=dtype)
    with np.errstate(all="ignore"):
        want = np.sqrt(np.clip(x.astype(np.longdouble), 0.0 if lo is None else lo, np.inf if hi is None else hi))
        flushed = np.abs(x) < info.tiny
        same = (want == z) | (np.abs(z - want) <= 4 * EPS[dtype] * want)
        floor = np.sqrt(max(lo or 0.0, 0.0))
        ok = same | (flushed & (np.abs(z - floor) <= 2 * np.sqrt(float(info.tiny))))
    if not ok.all():
        i = np.flatnonzero(~ok)[0]
        raise Violation("safe_sqrt(%r) = %r, should be %r" % (float(x[i]), float(z[i]), float(want[i])), key="value",
                        bounds=[lo, hi], dtype=dtype)
    R.step(len(x))
    R.state(dtype, lo, hi, len(x))
    R.trace()


def forms(item, R):
    """Python numbers, broadcasting, names, tensor valued constants."""
    from pysgmcmc.tensor_utils import safe_divide, safe_sqrt
    with tf.Graph().as_default(), tf.Session() as session:
        column = np.array([[1.0], [-2.0]])
        row = np.array([0.0, 4.0, -1e-16])
        cases = [
            (safe_divide(tf.constant(1.0), 0.), np.array(1e16)), (safe_divide(tf.constant(-6.0), 2.), np.array(-3.0)),
            (safe_divide(tf.constant(1.0), tf.constant(-1e-16), small_constant=tf.constant(1e-16)), np.array(-5e15)),
            (safe_divide(tf.constant(column), tf.constant(row)), np.array([[1e16, 0.25, -5e15], [-2e16, -0.5, 1e16]])),
            (safe_divide(x=tf.constant(row), y=tf.constant(2.0, tf.float64), small_constant=1e-16, name="quotient"), row / 2),
            (safe_divide(tf.Variable(4.0), tf.Variable(8.0)), np.array(0.5)),
            (safe_sqrt(tf.constant(row), name="root"), np.array([0.0, 2.0, 0.0])),
            (safe_sqrt(x=tf.Variable(column), clip_value_min=0.25, clip_value_max=0.5), np.sqrt([[0.5], [0.25]])),
            (safe_sqrt(tf.constant(9.0)), np.array(3.0)),
        ]
        session.run(tf.global_variables_initializer())
        # python numbers with tensors of double precision keep theirs
        for x in (1. / 3, -np.pi, 1e-9 / 7, 2e20 / 3, 1, -7):
            for y in (1., -3., 0.7, 1e-9, -1e12):
                out = session.run(safe_divide(x, tf.constant(y, tf.float64)))
                R.require(abs(out - x / y) <= abs(x / y) * (3e-16 / abs(y) + 1e-15), "safe_divide(%r, %r) = %r" % (x, y, out), key="form")
                R.step()
        for got, want in cases:
            out = session.run(got)
            R.require(np.shape(out) == np.shape(want) and np.allclose(out, want, rtol=1e-6, atol=0),
                      "%s is %r, should be %r" % (got, out.tolist(), np.asarray(want).tolist()), key="form")
            R.step()
            R.state(got.name)
    R.trace()
