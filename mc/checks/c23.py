"""C23: predictions aggregate the collected networks in original units."""
import itertools

import numpy as np

from .. import bnn
from ..core import Violation

BOUNDS = ("Trained networks of 5 architectures (one to four variables) for every setting of the normalisation flags, 1..4 "
          "collected networks (also 65, 130 and 300), 4 kinds of data sets (constant features, constant targets, far from standard), log variances of -60 to 60, float64/32, 1-2 "
          "features. For each: every sequence of up to 3 of 4 rows (85 test sets, the empty one included), test sets of 21, 64 and 333 rows (for two networks of every size up to 1100 (thorough 3000) and around 512, 1000, 1024, 2048, 4096 and 10000) and every "
          "sequence of 3 calls over {predict, individual} x {A, B}, overwriting the arrays returned, all compared with "
          "the outputs computed from the recorded chain.")
ASSUMPTIONS = ["results agree within 1e-9 (float32: 2e-4) relative to the spread of the outputs"]
TECHNIQUE = ("explicit-state enumeration of test sets and call sequences on really trained networks, each result compared with a "
             "reference computation")


def plan(tier, rng):
    out = []
    flags = list(itertools.product((True, False), (True, False)))
    k = 0
    for net in bnn.NETS:
        for ni, no in flags:
            for data in range(4):
                if data == 3 and not (ni and no):
                    continue
                k += 1
                if tier == "quick" and (k + data) % 3 == 1 and data:
                    continue
                out.append(dict(net=net, ni=ni, no=no, data=data, n_nets=1 + k % 4, d=1 + (k // 2) % 2,
                                dtype="float32" if k % 5 == 0 and data != 3 else "float64",
                                method="SGLD" if k % 3 else "SGHMC", all=tier == "thorough" or k % 8 == 0))
    for n_nets, net, method in ((130, "linear", "SGLD"), (65, "mlp", "SGHMC"), (300, "hetero", "SGLD")):
        out.append(dict(net=net, ni=True, no=True, data=0, n_nets=n_nets, d=2, dtype="float64", method=method, all=False, weight=4))
    # variances from tiny to huge
    for k, (net, s) in enumerate(itertools.product(("const", "linear", "scalar"), (-60., -35., -22., 22., 35., 60.))):
        out.append(dict(net=net, ni=True, no=k % 2 == 0, data=0, n_nets=2, d=2, dtype="float64", method="SGLD", all=False, log_variance=s))
    for net, ni, no in (("mlp", True, True), ("hetero", True, False)):
        for part in range(4):
            out.append(dict(kind="sizes", net=net, ni=ni, no=no, data=0, n_nets=2, d=2, dtype="float64", method="SGHMC", all=False,
                            sizes=sorted(set(range(part, 1100 if tier == "quick" else 3000, 4)) |
                                         {s + k for s in (512, 1000, 1024, 2048, 4096, 10000) for k in (-1, 0, 1, 2) if s % 16 // 4 == part or part == k + 1})))
    return out


def check(item, R):
    R.sample(dict(item, sizes=item.get("sizes", [])[:5]))
    sgld, extra = item["method"] == "SGLD", {}
    if "log_variance" in item:
        extra["init"] = bnn.initial(item["net"], item["d"], item["dtype"])
        shapes = bnn.NETS[item["net"]](item["d"])
        place = dict(const=(0, (0, 1)), linear=(2, (0, 0)), scalar=(0, ()))[item["net"]]
        extra["init"][place[0]] = np.array(extra["init"][place[0]]).reshape(shapes[place[0]])
        extra["init"][place[0]][place[1]] = item["log_variance"]
    with bnn.Trained(net=item["net"], method=item["method"], n=5, d=item["d"], dtype=item["dtype"], data=item["data"],
                     stepsizes=[1e-12 if extra else 2e-4 if sgld else 0.02], batch_size=3, **extra,
                     normalize_input=item["ni"], normalize_output=item["no"],
                     n_nets=item["n_nets"], n_iters=40 + 2 * item["n_nets"], burn_in_steps=1, sample_steps=2) as t:
        kept = t.kept()
        if len(kept) != item["n_nets"]:
            R.require(False, "not enough networks collected (%d)" % len(kept), key="number")
        chain = [t.chain[i] for i in kept]
        if not all(np.isfinite(v).all() for values in chain for v in values):
            R.count("diverged")
            return
        if np.max([np.ptp([v.ravel()[0] for v in vs]) for vs in zip(*chain)]) < 1e-3 and len(chain) > 1:
            R.count("hardly moved")
        pool = np.concatenate([t.x[:2], t.x[2:3] * 0.5 + 0.3, -t.x[1:2] - 0.7]).astype(item["dtype"])
        if item["data"] == 1:
            pool[:, 0] = [2.5, 2.5, 2.5, 3.0]
        rtol = 1e-9 if item["dtype"] == "float64" else 2e-4
        predict = t.bnn.predict

        def expect(rows):
            outs = [t.outputs(values, pool[rows]) for values in chain]
            means, noises = np.array([o[0] for o in outs]), np.array([o[1] for o in outs])
            mean = means.sum(axis=0) / len(outs)
            return means, noises, mean, ((means - mean) ** 2).sum(axis=0) / len(outs)

        def judge(got, want, what, scale, rows):
            if np.shape(got) != np.shape(want):
                raise Violation("%s has shape %r, should be %r" % (what, np.shape(got), np.shape(want)), key="shape", rows=rows)
            if not bnn.close(got, want, rtol, rtol * scale):
                raise Violation("%s is %r, should be %r" % (what, np.asarray(got).tolist(), np.asarray(want, float).tolist()),
                                key="value", rows=rows)

        def call(kind, rows):
            x = pool[rows]
            means, noises, mean, var = expect(rows)
            scale = float(np.abs(means).max()) if means.size else 1.0
            # the offset in units of the spread limits the precision of the spread
            if kind == "individual":
                got = predict(x, return_individual_predictions=True)
                judge(got[0], means, "individual means", scale, rows)
                judge(got[1], noises, "individual noise variances", 0, rows)
            else:
                got = predict(x)
                judge(got[0], mean, "predictive mean", scale, rows)
                spread = float(np.max(np.ptp(means, axis=0))) if means.size else 1.0
                judge(got[1], var, "predictive variance", spread ** 2 + rtol * scale ** 2, rows)
            R.require(np.array_equal(x, pool[rows]), "predict modified the test data", key="input")
            R.step()
            return got

        if item.get("kind") == "sizes":
            return sizes(item, t, chain, pool, R)
        sets = [list(rows) for n in range(4) for rows in itertools.product(range(4), repeat=n)]
        if item["n_nets"] > 20:
            sets = [[], [0], [2, 1], [3, 0, 3]]
        for k, rows in enumerate(sets):
            if item["all"] or len(rows) < 2 or k % 4 == item["n_nets"] % 4:
                call("mean", rows)
                if item["all"] or k % 2:
                    call("individual", rows)
                R.state(sorted(item.items()), rows)
        for size in (21, 64, 333):
            rows = [(i * i + i // 3) % 4 for i in range(size)]
            call("mean", rows)
            call("individual", rows)
            R.state(sorted(item.items()), size)
        a, b = [0, 3], [1, 2, 0]
        ops = list(itertools.product(("mean", "individual"), (tuple(a), tuple(b))))
        first = {}
        if item["n_nets"] > 20:
            ops = ops[:2]
        for history in itertools.product(ops, repeat=3):
            for kind, rows in history:
                got = call(kind, list(rows))
                frozen = [np.array(g) for g in got]
                want = first.setdefault((kind, rows), frozen)
                R.require(all(np.array_equal(g, w) for g, w in zip(frozen, want)), "repeated calls of predict disagree",
                          key="repeat", history=history)
                for g in got:
                    if isinstance(g, np.ndarray) and g.flags.writeable:
                        g[...] = -77            # the caller's own
            R.trace()
        got_x, got_y = t.given
        R.require(np.array_equal(t.x, got_x) and np.array_equal(t.y, got_y), "the training data was modified", key="input")


def sizes(item, t, chain, pool, R):
    """Test sets of many sizes: every row is predicted as it is on its own."""
    top = max(item["sizes"])
    x = np.array([[np.sin(i * 1.7) * 2, (i * 31 % 101) / 50. - 1] for i in range(top)])
    outs = [t.outputs(values, x) for values in chain]
    means, noises = np.array([o[0] for o in outs]), np.array([o[1] for o in outs])
    mean = means.mean(axis=0)
    var = ((means - mean) ** 2).mean(axis=0)
    scale = float(np.abs(means).max())
    for n in item["sizes"]:
        for first in ({0, top - n} if n < 5000 else {0}):
            cut = slice(first, first + n)
            got, individual = t.bnn.predict(x[cut].copy()), None
            if n % 3 == 0 or n > 400:
                individual = t.bnn.predict(x[cut].copy(), return_individual_predictions=True)
            pairs = [("mean", got[0], mean[cut], scale), ("variance", got[1], var[cut], scale ** 2)]
            if individual is not None:
                pairs += [("individual means", individual[0], means[:, cut], scale), ("noise variances", individual[1], noises[:, cut], 0)]
            for what, a, b, tol in pairs:
                if np.shape(a) != np.shape(b):
                    raise Violation("%s of %d rows has shape %r, should be %r" % (what, n, np.shape(a), np.shape(b)), key="shape")
                if not bnn.close(a, b, 1e-9, 1e-9 * tol):
                    row = int(np.argmax(np.abs(np.asarray(a, float) - np.asarray(b, float)).reshape(-1, n).max(axis=0)))
                    raise Violation("%s of row %d of %d rows is wrong" % (what, row, n), key="value")
            R.step()
        R.state(item["net"], n)
    R.trace()
