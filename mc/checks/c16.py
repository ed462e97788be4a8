"""C16: shuffled minibatches permute rows with their labels and nothing else."""
import itertools

import numpy as np

from .. import fresh
from ..core import Violation
from . import c15

BOUNDS = ("All dataset sizes 1..6 (thorough 1..8), batch sizes 1..N+2 and 1000, 1-3 features, labels of shape (N,) and (N,1), 7 "
          "pairs of dtypes, writable, read-only and non-contiguous data, seeds 0..11 (thorough 0..39), extremes, none: every one "
          "of 60 successive batches must be a permutation of the batch generate_batches yields at that position, labels "
          "next to their rows; dataset and all earlier batches are compared after every draw. All orders of up to 4 rows "
          "occur within 1000 batches of every seed. Every interleaving of two shuffled generators and of a shuffled and "
          "a plain one on the same data (3 draws each), also overwriting the batches drawn before. Data sets of up to 2100 rows; all data sets of 4 rows with repeated rows and labels (two values each). Seeded batches"
          " equal bit by bit in three further processes (different hash salts) and this one.")
ASSUMPTIONS = ["rows and labels of the datasets are pairwise different"]
TECHNIQUE = c15.TECHNIQUE


def plan(tier, rng):
    out = []
    seeds = list(range(40 if tier == "thorough" else 12)) + [99999, 2 ** 31, 2 ** 32 - 1, None]
    for n in range(1, (9 if tier == "thorough" else 7)):
        out.append(dict(kind="permutations", n=n, seeds=seeds, weight=n))
    for n in (2, 3, 4):
        out.append(dict(kind="orders", n=n, seeds=seeds[:20 if tier == "thorough" else 6] + [None], weight=2))
    draws = 4 if tier == "thorough" else 3
    for pair in (("s1", "s1"), ("s1", "s2"), ("s1", "p1"), ("s0", "p3")):
        for overwrite in (False, True):
            out.append(dict(kind="interleave", pair=pair, draws=draws, overwrite=overwrite, weight=1))
    for n, size in ((40, 17), (100, 20), (256, 300), (530, 520), (1100, 1100), (2100, 1030)):
        out.append(dict(kind="large", n=n, size=size, seeds=[0, 5, 11], weight=1))
    for values in itertools.product((0, 1), repeat=4):
        out.append(dict(kind="repeated", values=list(values), weight=1))
    out.append(dict(kind="processes", weight=6))
    return out


def processes(item, R):
    fresh.compare("shuffled", R, "processes")


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def permutation(batch, plain, keys, where):
    """Checks that a shuffled batch permutes a plain one; returns the order."""
    if set(batch) != set(keys):
        raise Violation("a batch has keys %r" % list(batch), key="keys", **where)
    bx, by = np.asarray(batch[keys[0]]), np.asarray(batch[keys[1]])
    px, py = plain
    if bx.shape != px.shape or by.shape != py.shape or bx.dtype != px.dtype or by.dtype != py.dtype:
        raise Violation("batch of shapes %r %r, should be %r %r" % (bx.shape, by.shape, px.shape, py.shape), key="shape", **where)
    rows = {tuple(r): i for i, r in enumerate(px.tolist())}
    order = []
    for row, label in zip(bx.tolist(), by.ravel().tolist()):
        i = rows.get(tuple(row))
        if i is None:
            raise Violation("row %r is not in the batch %r generate_batches yields" % (row, list(rows)), key="rows", **where)
        if label != py.ravel()[i]:
            raise Violation("row %r comes with label %r, its label is %r" % (row, label, py.ravel()[i]), key="pairing", **where)
        order.append(i)
    if sorted(order) != list(range(len(rows))):
        raise Violation("rows %r of %r" % (order, rows), key="rows", **where)
    return tuple(order)


def functions():
    from pysgmcmc.data_batches import generate_batches, generate_shuffled_batches
    return generate_batches, generate_shuffled_batches


def permutations(item, R):
    plain, shuffled = functions()
    n = item["n"]
    variants = list(itertools.product((1, 2, 3), (False, True), c15.DTYPES, ("plain", "readonly", "strided")))
    for size in list(range(1, n + 3)) + [1000]:
        for k, seed in enumerate(item["seeds"]):
            for v, (d, column, dtype, style) in enumerate(variants):
                if (v + 11 * k + 5 * size) % 42:
                    continue
                x, y = c15.data(n, d, column, dtype, style)
                x0, y0 = x.copy(), y.copy()
                where = dict(n=n, size=size, seed=seed, features=d, column=column, dtype=dtype, style=style)
                kw = dict(seed=seed) if seed is not None or k % 2 else {}
                gen = shuffled(x=x, y=y, x_placeholder="x", y_placeholder="y", batch_size=size, **kw)
                twin = shuffled(x0.copy(), y0.copy(), "x", "y", size, seed)
                base = plain(x0, y0, "x", "y", size, seed)
                earlier = []
                for draw in range(60 if size == 2 else 25):
                    batch = next(gen)
                    if seed is None:
                        # which window it is has to be found out
                        b = min(size, n)
                        start = int(min(np.asarray(batch["x"])[:, 0]) - 1) // 10
                        want = x0[start:start + b], np.ravel(y0)[start:start + b][:, None]
                    else:
                        want = next(base)
                        want = np.array(want["x"]), np.array(want["y"])
                    order = permutation(batch, want, ("x", "y"), dict(where, draw=draw))
                    if seed is not None:
                        other = next(twin)
                        R.require(np.array_equal(other["x"], batch["x"]) and np.array_equal(other["y"], batch["y"]),
                                  "two generators with equal seeds differ at draw %d" % draw, key="seed", **where)
                    R.require(np.array_equal(x, x0) and np.array_equal(y, y0), "the dataset was modified by draw %d" % draw,
                              key="dataset", **where)
                    for j, (bx, by, fx, fy) in enumerate(earlier):
                        R.require(np.array_equal(bx, fx) and np.array_equal(by, fy),
                                  "batch %d was changed by draw %d" % (j, draw), key="earlier", **where)
                    earlier.append((batch["x"], batch["y"], np.array(batch["x"]), np.array(batch["y"])))
                    R.step()
                    R.state(n, size, order, dtype, column, d)
                R.trace()


def orders(item, R):
    plain, shuffled = functions()
    n = item["n"]
    for size in range(1, n + 1):
        for seed in item["seeds"]:
            x, y = c15.data(n, 2, False, "float64", "plain")
            seen = set()
            gen = shuffled(x, y, "x", "y", size, seed)
            for _ in range(1000):
                bx = np.asarray(next(gen)["x"])[:, 0].tolist()
                seen.add(tuple(sorted(bx).index(v) for v in bx))
                R.step()
            want = set(itertools.permutations(range(size)))
            R.require(seen == want, "with seed %r %d of %d orders never occur" % (seed, len(want - seen), len(want)),
                      key="orders", n=n, size=size)
            R.state(n, size, seed)
            R.trace()


def interleave(item, R):
    plain, shuffled = functions()
    draws = item["draws"]
    make = lambda spec, x, y: (shuffled if spec[0] == "s" else plain)(x, y, "x", "y", 3, int(spec[1:]))  # noqa
    alone = []
    for spec in item["pair"]:
        x, y = c15.data(6, 2, False, "float64", "plain")
        gen = make(spec, x, y)
        alone.append([c15.draw_bytes(next(gen)) for _ in range(draws)])
    for order in sorted(set(itertools.permutations([0] * draws + [1] * draws))):
        x, y = c15.data(6, 2, False, "float64", "plain")
        x0, y0 = x.copy(), y.copy()
        gens = [make(spec, x, y) for spec in item["pair"]]
        got = [[], []]
        for k, i in enumerate(order):
            c15.disturb(k)
            batch = next(gens[i])
            got[i].append(c15.draw_bytes(batch))
            if item["overwrite"] and item["pair"][i][0] == "s":
                batch["x"][...] = -1          # shuffled batches are the user's own
                batch["y"][...] = -1
            R.require(np.array_equal(x, x0) and np.array_equal(y, y0), "the dataset was modified", key="dataset",
                      order=order, pair=item["pair"])
            R.step()
            R.state(item["pair"], order[:k + 1])
        for i, spec in enumerate(item["pair"]):
            R.require(got[i] == alone[i], "generator %s depends on others" % spec, key="isolation", order=order)
        R.trace()


def large(item, R):
    plain, shuffled = functions()
    for rows in (19, 20, 21, 45):           # the documented default batch size
        x, y = c15.data(rows, 1, False, "float64", "plain")
        base, gen = plain(x, y, "x", "y", 20, 3), shuffled(x, y, "x", "y", seed=3)
        for _ in range(5):
            want = next(base)
            permutation(next(gen), (np.array(want["x"]), np.array(want["y"])), ("x", "y"), dict(n=rows, size="default"))
    n, size = item["n"], item["size"]
    arrived = []
    x, y = c15.data(n, 2, n % 4 == 0, "float64", "plain")
    for seed in item["seeds"]:
        base, gen = plain(x, y, "x", "y", size, seed), shuffled(x, y, "x", "y", size, seed)
        for _ in range(40 if n < 300 else 4):
            want = next(base)
            order = permutation(next(gen), (np.array(want["x"]), np.array(want["y"])), ("x", "y"), dict(n=n, size=size, seed=seed))
            R.require(order != tuple(range(len(order))), "a batch of %d rows comes in its original order" % len(order), key="orders", **item)
            arrived.append(order)
            R.step()
            R.state(n, size, order)
        R.trace()
    # the orders of big batches cannot be enumerated, but every part of a batch reaches every other
    rows, parts = len(arrived[0]), 4
    reached = {(a * parts // rows, b * parts // rows) for order in arrived for a, b in enumerate(order)}
    R.require(len(reached) == parts ** 2, "in %d batches of %d rows the quarters of a batch were only permuted as in %r" % (
        len(arrived), rows, sorted(reached)), key="orders", **item)
    stuck = [p for p in range(rows) if len({order[p] for order in arrived}) == 1]
    R.require(not stuck, "in %d batches of %d rows the rows %r came from the same place" % (len(arrived), rows, stuck), key="orders", **item)


def repeated(item, R):
    """Rows or labels that occur several times: every pair as often as in the plain batch."""
    plain, shuffled = functions()
    values = item["values"]
    for labels in itertools.product((0., 5.), repeat=4):
        x, y = np.array([[v, 2. * v] for v in values]), np.array(labels)
        for size in (2, 3, 4):
            for seed in (0, 3):
                base, gen = plain(x, y, "x", "y", size, seed), shuffled(x, y, "x", "y", size, seed)
                for _ in range(12):
                    want, got = next(base), next(gen)
                    pairs = [sorted((tuple(r), float(v)) for r, v in zip(np.asarray(b["x"]).tolist(), np.ravel(b["y"]))) for b in (want, got)]
                    R.require(pairs[0] == pairs[1], "the pairs %r of a shuffled batch should be %r" % (pairs[1], pairs[0]), key="pairing",
                              size=size, seed=seed, labels=labels, **item)
                    R.step()
                R.state(values, labels, size, seed)
                R.trace()
