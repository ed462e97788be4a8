"""C26: normalisations standardise columns and invert exactly."""
import itertools

import numpy as np

from ..core import Violation

BOUNDS = ("Every matrix of up to 3x2, 2x3 and 4x1 and every vector of up to 5 (thorough 6) entries over {-1, 0, 2.5, 7}, in "
          "float64/32 and integers (up to 2**40), read-only; the same scaled by 1e-40, 1e-13, 1e-8, 1e8 and 1e40 and shifted by 1e4; every combination of given "
          "(also 0, scalar, array valued) and computed statistics; constant columns; matrices of up to 2000 rows and 100 columns.")
ASSUMPTIONS = ["results agree within 1e-9 (float32: 1e-4) of the data's magnitude relative to its spread"]
TECHNIQUE = "VALUE"
ALPHABET = (-1.0, 0.0, 2.5, 7.0)


def plan(tier, rng):
    shapes = [(1,), (2,), (3,), (4,), (5,), (1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3)]
    if tier == "thorough":
        shapes += [(6,), (4, 2), (2, 4), (6, 1)]
    out = []
    for shape in shapes:
        for which in ("meanvar", "zeroone"):
            out.append(dict(shape=shape, which=which, weight=4 ** np.prod(shape) / 1000.))
    for which in ("meanvar", "zeroone"):
        out.append(dict(shape="large", which=which, weight=1))
    return out


def functions(which):
    import pysgmcmc.models.base_model as m
    if which == "meanvar":
        return m.zero_mean_unit_var_normalization, m.zero_mean_unit_var_unnormalization
    return m.zero_one_normalization, m.zero_one_unnormalization


def column_stats(x, which):
    """By definition, exactly."""
    x = x.astype(np.longdouble)
    if which == "meanvar":
        mean = x.sum(axis=0) / len(x)
        return mean, np.sqrt(((x - mean) ** 2).sum(axis=0) / len(x))
    return x.min(axis=0), x.max(axis=0)


def ok(a, b, tol):
    a, b = np.asarray(a, np.longdouble), np.asarray(b, np.longdouble)
    return a.shape == b.shape and bool((np.abs(a - b) <= tol).all())


def check(item, R):
    R.sample(item)
    which, shape = item["which"], tuple(item["shape"])
    if item["shape"] == "large":
        for shape in ((20, 1), (17, 2), (500, 3), (64, 30), (1000,), (3, 100), (2000, 1)):
            size = int(np.prod(shape))
            for step in (1, 7, 0):          # increasing, mixed, constant
                base = np.array([(i * step * (1 + i // 50)) % 97 - 20.5 for i in range(size)]).reshape(shape)
                for x in (base, base.astype(np.float32), np.asfortranarray(base), base[::-1]):
                    one(x, which, R, full=size < 40)
                R.state(which, shape, step)
        R.trace()
        return
    for k, values in enumerate(itertools.product(ALPHABET, repeat=int(np.prod(shape)))):
        base = np.array(values).reshape(shape)
        one(base, which, R, full=k % 7 == 0)
        if k % 3 == 0:
            one(base.astype(np.float32), which, R)
            one((base * 2).astype(np.int64), which, R)
            one((base * 2).astype(np.int32), which, R)
            one((base * 2).astype(np.int32) + 100000003, which, R)
            one((base * 2).astype(np.int64) + 2 ** 40 + 1, which, R)
        if k % 5 == 0:
            for x in (base * 1e-8, base * 1e8, base * 1e-13, base * 1e-40, base * 1e40, base + 1e4, base[::-1]):
                one(x, which, R)
        R.state(which, shape, values)
    R.trace()


def one(x, which, R, full=False):
    normalise, restore = functions(which)
    eps = 1e-4 if x.dtype == np.float32 else 1e-10
    size = float(np.abs(x).max())
    before = x.copy()
    x.flags.writeable = False
    a, b = column_stats(x, which)
    spread = b if which == "meanvar" else b - a

    def fail(what, got=None, want=None, **kw):
        raise Violation("%s of %r is %r, should be %r" % (what, before.tolist(), np.asarray(got).tolist(),
                                                        np.asarray(want, float).tolist()), key=what, which=which, **kw)

    out = normalise(x)
    if not isinstance(out, tuple) or len(out) != 3:
        fail("result", repr(out))
    z, first, second = out
    if not ok(first, a, eps * size):
        fail("first statistic", first, a)
    if not ok(second, b, eps * size):
        fail("second statistic", second, b)
    if np.shape(z) != x.shape:
        fail("shape", np.shape(z), x.shape)
    if not np.isfinite(z).all():
        fail("finite", z)
    constant = np.broadcast_to(x == x[0], x.shape).all(axis=0)
    with np.errstate(all="ignore"):
        tol = np.where(constant, 0, eps * max(size, 1e-300) / np.where(constant, 1, spread))
    if which == "meanvar":
        want = (x.astype(np.longdouble) - a) / np.where(constant, 1, b)
    else:
        want = (x.astype(np.longdouble) - a) / np.where(constant, 1, b - a)
    bad = ~constant & ~(np.abs(z - want) <= 4 * tol)
    if bad.any():
        fail("normalised", z, want)
    if which == "zeroone" and ((z < 0) | (z > 1)).any():
        fail("range", z, want)
    if which == "zeroone":
        ends = ~constant & ((z.min(axis=0) != 0) | (z.max(axis=0) != 1))
        if ends.any():
            fail("range", z, want)
    back = restore(z, first, second)
    if not ok(back, x, eps * size):
        fail("restored", back, x)
    # given statistics are used, also zeros
    d = x.shape[1:]
    more = []
    if full:        # every combination of an alphabet of statistics
        mixed = np.arange(np.prod(d, dtype=int), dtype=float).reshape(d)
        firsts = [None, -4.0, 0.0, 0, 1.5, np.full(d, -4.0), np.full(d, 0.0), mixed, -mixed]
        seconds = [None, 0.0, 0, 2.0, 8.0, np.full(d, 0.0), np.full(d, 3.0), mixed * 2, np.float32(0)]
        more = list(itertools.product(firsts, seconds))
    for given in more + [(np.full(d, 0.0), None), (None, np.full(d, 2.0)), (np.full(d, 0.0), np.full(d, 4.0)), (0.0, 2.0),
                  (1.5, None), (None, 8.0), (np.full(d, -3.0), np.full(d, 0.5)), (0, 0) if which == "meanvar" else (0, 9)]:
        z, first, second = normalise(x, *given)
        want1, want2 = (a if given[0] is None else given[0]), (b if given[1] is None else given[1])
        if not ok(np.broadcast_to(first, d), np.broadcast_to(np.asarray(want1, np.longdouble), d), eps * max(size, 4)):
            fail("given first statistic", first, want1, given=given)
        if not ok(np.broadcast_to(second, d), np.broadcast_to(np.asarray(want2, np.longdouble), d), eps * max(size, 4)):
            fail("given second statistic", second, want2, given=given)
        if not np.isfinite(z).all():
            fail("finite", z, given=given)
        scale = np.broadcast_to(np.asarray(want2 if which == "meanvar" else np.asarray(want2, np.longdouble) - want1, np.longdouble), d)
        tiny = np.abs(scale) <= 1e-6 * max(size, 8)
        want = (x.astype(np.longdouble) - want1) / np.where(tiny, 1, scale)
        bad = ~tiny & ~(np.abs(z - want) <= 8 * eps * max(size, 8) / np.where(tiny, 1, np.abs(scale)))
        if bad.any():
            fail("with given statistics", z, want, given=given)
        back = restore(z, first, second)
        off = ~tiny & ~(np.abs(back - x) <= 8 * eps * max(size, 8))
        if off.any():
            fail("restored", back, x, given=given)
        R.step()
    if not np.array_equal(x, before):
        fail("input", x, before)
    # by keyword, like the models call it
    names = ("mean", "std") if which == "meanvar" else ("lower", "upper")
    z2 = normalise(x, **dict(zip(names, (0.5, 2.0))))[0]
    want = (x.astype(np.longdouble) - 0.5) / (2.0 if which == "meanvar" else 1.5)
    if not ok(z2, want, 8 * eps * max(size, 8)):
        fail("with keyword statistics", z2, want)
    R.step(2)
