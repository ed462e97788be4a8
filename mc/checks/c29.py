"""C29: traces give every variable's samples by name, index, burn and thin."""
import itertools

import numpy as np

from ..core import Violation

BOUNDS = ("Every trace of 1..5 (thorough 1..7) samples of 1..4 variables (six mixes of scalar, vector, matrix and empty values; samples as lists, "
          "tuples and arrays, kept in lists, tuples and arrays; named, anonymous, single plain numbers of three types), every burn 0..n+1, every "
          "thin 1..n+1, every position, every point (also counted from the end), every slice with start, stop in -1..k+1 and step 1..2 that keeps a "
          "variable, and every pair of accesses in sequence; traces of 12 variables and of up to 1030 samples.")
ASSUMPTIONS = ["pymc3 is replaced by a recording stub"]
TECHNIQUE = "VALUE"

KINDS = ["s", "ss", "sv", "vms", "svs", "ssss", "v", "m", "vv"]


def plan(tier, rng):
    out = []
    for n in range(1, 8 if tier == "thorough" else 6):
        for kinds in KINDS:
            for container in ("list", "tuple", "array"):
                for names in ("named", "unicode", "anonymous", "tuple"):
                    out.append(dict(kind="trace", n=n, kinds=kinds, container=container, names=names, weight=n))
        for number in ("float", "float32", "float64"):
            for names in ("named", "anonymous"):
                out.append(dict(kind="plain", n=n, number=number, names=names))
    out.append(dict(kind="invalid"))
    out += [dict(kind="long", n=n, k=k, weight=5) for n, k in ((300, 3), (130, 12), (1030, 1))]
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def value(kind, sample, variable):
    base = 100.0 * sample + 10.0 * variable
    return {"s": np.float64(base), "v": base + np.arange(3.0), "m": base + np.arange(4.0).reshape(2, 2)}[kind]


def names_of(style, k):
    if style == "anonymous":
        return None, [str(i) for i in range(k)]
    given = ["w%d:0" % (k - i) for i in range(k)] if style != "unicode" else ["", "a b", "1", "0"][:k]
    return (tuple(given) if style == "tuple" else given), list(given)


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


def trace(item, R):
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    n, kinds = item["n"], item["kinds"]
    k = len(kinds)
    values = [[value(kind, i, j) for j, kind in enumerate(kinds)] for i in range(n)]
    if item["container"] == "tuple":
        samples = tuple(tuple(sample) for sample in values)
    elif item["container"] == "array" and len(set(kinds)) == 1:
        samples = np.array(values)
    else:
        samples = [list(sample) for sample in values]
    given, names = names_of(item["names"], k)
    t = PYSGMCMCTrace(chain_id=7, samples=samples, varnames=given) if given is not None else PYSGMCMCTrace(7, samples)
    verify(t, values, names, 7, R, item)
    # every pair of accesses
    accesses = [lambda t: t.get_values(names[-1], 1, 2), lambda t: t[0], lambda t: t.point(0), lambda t: len(t), lambda t: t._slice(slice(0, 1))]
    for a, b in itertools.product(accesses, repeat=2):
        for access in (a, b):
            out = access(t)
            if isinstance(out, np.ndarray) and out.dtype == float and out.flags.owndata:
                out = out + 1
        R.step(2)
    verify(t, values, names, 7, R, item)
    # slices
    for start, stop in itertools.product([None] + list(range(-1, k + 1)), [None] + list(range(-1, k + 2))):
        for step in (None, 1, 2):
            cut = slice(start, stop, step)
            if not names[cut]:
                continue
            part = t._slice(cut)
            if len(values[0][cut]) >= 1:
                verify(part, [sample[cut] for sample in values], names[cut], 7, R, dict(item, slice=[start, stop, step]), quick=True)
            R.state(sorted(item.items()), start, stop, step)
    verify(t, values, names, 7, R, item)
    R.trace()


def verify(t, values, names, chain, R, item, quick=False):
    n, k = len(values), len(names)

    def fail(what, got, want):
        raise Violation("%s is %r, should be %r" % (what, got, want), key=what.split("(")[0].split("[")[0], item=item)
    if len(t) != n:
        fail("len(trace)", len(t), n)
    if list(t.varnames) != list(names):
        fail("varnames", t.varnames, names)
    if t.chain != chain:
        fail("chain", t.chain, chain)
    for j, name in enumerate(names):
        column = [sample[j] for sample in values]
        for got, what in ((t.get_values(name), "get_values(%r)" % name), (t.get_values(varname=name), "get_values(varname=%r)" % name),
                          (t[j], "trace[%d]" % j)):
            R.step()
            if not equal(got, np.array(column)):
                fail(what, np.asarray(got).tolist(), np.array(column).tolist())
        for burn in range(n + 2):
            for thin in range(1, n + 2):
                if quick and (burn + thin) % 3:
                    continue
                want = column[burn:][::thin]
                got = t.get_values(name, burn, thin) if (burn + thin) % 2 else t.get_values(name, burn=burn, thin=thin)
                R.step()
                if not (equal(got, np.array(want)) if want else len(got) == 0):
                    fail("get_values(%r, burn=%d, thin=%d)" % (name, burn, thin), np.asarray(got).tolist(), np.array(want).tolist())
            want = column[burn:]
            got = t.get_values(name, burn=burn)
            if not (equal(got, np.array(want)) if want else len(got) == 0):
                fail("get_values(%r, burn=%d)" % (name, burn), np.asarray(got).tolist(), np.array(want).tolist())
    for i in range(-n, n):
        point = t.point(i)
        R.step()
        if not hasattr(point, "keys") or list(point.keys()) != list(names) and set(point) != set(names):
            fail("point(%d)" % i, point, names)
        for j, name in enumerate(names):
            if not equal(point[name], values[i][j]):
                fail("point(%d)[%r]" % (i, name), np.asarray(point[name]).tolist(), np.asarray(values[i][j]).tolist())
    for bad in ("unknown", "", "w", "w1", "2", None, 3, "w1:0 ", "W1:0"):
        if bad in names:
            continue
        try:
            got = t.get_values(bad)
        except ValueError:
            R.step()
            continue
        except Exception as e:
            fail("get_values(%r)" % (bad,), e, "ValueError")
        fail("get_values(%r)" % (bad,), got, "ValueError")


def plain(item, R):
    """Chains of a single variable given as plain numbers."""
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    convert = {"float": float, "float32": np.float32, "float64": np.float64}[item["number"]]
    numbers = [convert(3.5 * i - 2) for i in range(item["n"])]
    for samples in (list(numbers), tuple(numbers), np.array(numbers)):
        given, names = names_of(item["names"], 1)
        t = PYSGMCMCTrace(0, samples, given)
        verify(t, [[v] for v in numbers], names, 0, R, item)
        verify(t._slice(slice(0, 1)), [[v] for v in numbers], names, 0, R, item)
        R.state(sorted(item.items()), type(samples).__name__)
    R.trace()


def invalid(item, R):
    """No samples, no variables, wrong number of names."""
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    for args in ((0, []), (0, [[]]), (0, [[1.0, 2.0]], ["a"]), (0, [[1.0]], ["a", "b"]), (0, [1.0], ["a", "b"]), (0, iter([[1.0]]), ["a"]),
                 (0, [[1.0], [2.0]], [])):
        try:
            t = PYSGMCMCTrace(*args)
        except Exception:
            R.step()
            R.state(repr(args)[:40])
            continue
        raise Violation("a trace of %r can be constructed: %r" % (args, t), key="invalid")
    t = PYSGMCMCTrace(0, [[1.0, 2.0]], ["a", "b"])
    for index in (2, 5, "c", 1.5, None):
        try:
            got = t[index]
        except Exception:
            R.step()
            continue
        raise Violation("trace[%r] is %r" % (index, got), key="invalid")
    R.trace()


def long(item, R):
    """Many samples or many variables."""
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    n, k = item["n"], item["k"]
    names = ["v%d" % ((7 * j) % k if k > 7 else j) for j in range(k)]
    samples = [[np.float64(1000.0 * j + i) if j % 3 else np.array([i, -j], float) for j in range(k)] for i in range(n)]
    t = PYSGMCMCTrace(3, samples, names)
    R.require(len(t) == n, "len(trace) is %d, should be %d" % (len(t), n), key="len")
    for j, name in enumerate(names):
        column = np.array([s[j] for s in samples])
        for got in (t.get_values(name), t[j]):
            R.require(equal(got, column), "values of %r are wrong" % name, key="get_values")
        for burn in (0, 1, 9, 10, 11, 50, 99, 100, 101, n - 1):
            for thin in (1, 2, 3, 7, 10, 11, 64, 100, n):
                if burn < n:
                    R.require(equal(t.get_values(name, burn=burn, thin=thin), column[burn:][::thin]),
                              "get_values(%r, burn=%d, thin=%d) is wrong" % (name, burn, thin), key="get_values")
                    R.step()
        R.state(n, k, j)
    for i in range(-n, n):
        point = t.point(i)
        R.require(sorted(point) == sorted(names) and all(equal(point[name], samples[i][j]) for j, name in enumerate(names)),
                  "point(%d) is wrong" % i, key="point")
    for cut in (slice(0, k), slice(k // 2, k), slice(0, k, 2), slice(k - 1, None), slice(None, None, -1)):
        part = t._slice(cut)
        R.require(list(part.varnames) == names[cut] and len(part) == n, "slice %r has variables %r" % (cut, part.varnames), key="slice")
        for j, name in enumerate(names[cut]):
            R.require(equal(part.get_values(name), np.array([s[names.index(name)] for s in samples])), "slice %r is wrong" % cut, key="slice")
    R.trace()
