"""C24: the network's training objective is the scaled negative log posterior."""
import itertools

import numpy as np
import tensorflow as tf

from .. import bnn
from ..core import Violation

BOUNDS = ("Objective: data sets of 1..5 (thorough 1..7) and of 20..130 points, every batch size 1..N+1 and 20, 5 architectures, 1-2 features, "
          "float64/32, all normalisation flags; in every training every ordered selection (N <= 3) or window and "
          "mirrored window of rows is fed as a batch at weights taken from a grid that spans log variances -60..40; every cost the sampler reports is "
          "compared. Gradient and scale: every step of the chain (in and after burn-in, SGHMC and SGLD, several "
          "sampler options) is compared with a sampler run directly on the written-out objective with gradient scale N.")
ASSUMPTIONS = ["batches have min(batch_size, N) rows, as generate_batches' have",
               "costs agree within 1e-8 (float32: 1e-3), chains within 1e-6 over 8 steps"]
TECHNIQUE = ("explicit-state enumeration of data sets, batches and weights on the real implementation, every reported cost and "
             "state compared with a reference model")


def plan(tier, rng):
    out = []
    k = 0
    for net in bnn.NETS:
        for n in range(1, 8 if tier == "thorough" else 6):
            for size in sorted(set([1, n - 1, n, n + 1, 20] if tier == "quick" else list(range(1, n + 2)) + [20]) - {0}):
                k += 1
                if tier == "quick" and k % 2 and net not in ("linear", "hetero"):
                    continue
                out.append(dict(kind="costs", net=net, n=n, size=size, d=1 + k % 2, dtype="float32" if k % 4 == 0 else "float64",
                                ni=bool(k % 3), no=bool(k % 5), method="SGLD" if k % 2 else "SGHMC", data=(0, 0, 1, 3 if k % 4 else 0, 2)[k % 5] if k % 3 and k % 5 else 0))
    for net in bnn.NETS:
        for method in ("SGHMC", "SGLD"):
            for n, size in ((3, 2), (4, 20), (1, 1)):
                k += 1
                if tier == "quick" and n == 1 and net != "linear":
                    continue
                out.append(dict(kind="chain", net=net, method=method, n=n, size=size, burn=k % 4, options=k % 3, seed=k % 5))
    for j, (net, n, size) in enumerate((("linear", 45, 20), ("mlp", 21, 20), ("hetero", 130, 64), ("scalar", 33, 32), ("const", 20, 20))):
        out.append(dict(kind="costs", net=net, n=n, size=size, d=1 + j % 2, dtype="float64", ni=bool(j % 2), no=True, method="SGHMC", data=0))
    for net in ("linear", "mlp"):
        out.append(dict(kind="direct", net=net))
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def grid(net, d, dtype, k):
    """Weights number k; the variables that make up s span -60..40."""
    values = bnn.initial(net, d, dtype, shift=k)
    s = (-1.0, 4.0, -6.9, 0.0, -13.8, 1.5, -30.0, 40.0, -60.0)[k % 9]
    if net == "const":
        values[0][0, 1] = s
    elif net == "linear":
        values[2][0, 0] = s
    elif net == "hetero":
        values[1][1] = s
    elif net == "mlp":
        values[3][1] = s
    else:
        values[0] = np.asarray(s, dtype)
    return values


class Loading(bnn.Recorder):
    """Puts the variables on the next point of the grid before every step."""

    def __next__(self):
        values = grid(self.net, self.d, self.dtype, len(self.before))
        for variable, value in zip(self.get_net.variables, values):
            variable.load(value, self.session)
        return super().__next__()


def selections(n, size):
    b = min(size, n)
    if n <= 3:
        return list(itertools.permutations(range(n), b)) + [(0,) * b, (n - 1,) * b]
    windows = [tuple(range(i, i + b)) for i in range(n - b + 1)]
    return windows + [w[::-1] for w in windows] + [w[1:] + w[:1] for w in windows]


def costs(item, R):
    n, size, d, dtype, net = item["n"], item["size"], item["d"], item["dtype"], item["net"]
    rows = [s for s in selections(n, size) for _ in range(7 if n <= 2 else 3)][:60]

    def generator(x, y, x_placeholder, y_placeholder, batch_size=20, seed=None):
        for k in itertools.count():
            pick = list(rows[k % len(rows)])
            yield {x_placeholder: np.asarray(x)[pick], y_placeholder: np.asarray(y)[pick].reshape(-1, 1)}

    def before(t):
        t.recorder = Loading(t.session, t.get_net, [1e-5])
        t.recorder.net, t.recorder.d, t.recorder.dtype = net, d, dtype

    with bnn.Trained(net=net, n=n, d=d, dtype=dtype, data=item["data"], method=item["method"], batch_generator=generator,
                     before=before, batch_size=size, normalize_input=item["ni"], normalize_output=item["no"],
                     n_nets=1, n_iters=len(rows), burn_in_steps=len(rows) + 1, sample_steps=1) as t:
        (xm, xs), (ym, ys) = t.statistics()
        x = (t.given[0].astype(np.longdouble) - xm) / np.where(xs == 0, 1, xs)
        y = (t.given[1].astype(np.longdouble) - ym) / np.where(ys == 0, 1, ys)
        R.require(t.steps == len(rows), "%d steps" % t.steps, key="steps")
        rtol = 1e-8 if dtype == "float64" else 1e-3
        for k, pick in enumerate(rows):
            want = float(bnn.objective_np(net, t.recorder.before[k], x[list(pick)], y[list(pick)], n))
            args, kwargs = t.recorder.updates[k]
            got = np.asarray(kwargs.get("cost", args[-1] if args else np.nan), float)
            if got.size != 1 or not bnn.close(got.reshape(()), want, rtol, rtol):
                raise Violation("the cost of rows %r at %r is %r, should be %r" % (
                    pick, [v.tolist() for v in t.recorder.before[k]], got.tolist(), want), key="cost", **{"item": item})
            R.step()
            R.state(sorted(item.items()), pick, k)
        R.trace()


OPTIONS = {"SGHMC": ({}, dict(mdecay=0.2), dict(mdecay=0.01)), "SGLD": ({}, dict(A=2.0), dict(A=0.5))}


def chain(item, R):
    from pysgmcmc.sampling import Sampler
    net, method, n, size = item["net"], item["method"], item["n"], item["size"]
    extra = OPTIONS[method][item["options"]]
    stepsizes = [0.02, 0.05, 0.03] if method == "SGHMC" else [1e-4, 3e-4]
    with bnn.Trained(net=net, n=n, d=2, method=method, stepsizes=stepsizes, batch_size=size, seed=item["seed"], n_nets=8, n_iters=8,
                     burn_in_steps=item["burn"], sample_steps=1, **extra) as t:
        (xm, xs), (ym, ys) = t.statistics()
        x = ((t.given[0].astype(np.longdouble) - xm) / np.where(xs == 0, 1, xs)).astype(float)
        y = ((t.given[1].astype(np.longdouble) - ym) / np.where(ys == 0, 1, ys)).astype(float)
        # the batches the sampler was given, as rows of the data
        picks = []
        for batch in t.source.batches:
            two = [v for v in batch.values() if v.ndim == 2 and v.shape[1] == 2]
            one = [v for v in batch.values() if v.ndim == 2 and v.shape[1] == 1]
            R.require(len(two) == len(one) == 1 and len(two[0]) == min(n, size), "unexpected batch %r" % batch, key="batch")
            b = len(two[0])
            starts = [i for i in range(n - b + 1) if bnn.close(two[0], x[i:i + b], 1e-9, 1e-9) and bnn.close(one[0][:, 0], y[i:i + b], 1e-9, 1e-9)]
            R.require(starts, "the sampler's batch %r is not made of the normalised training data" % batch, key="batch")
            picks.append(list(range(starts[0], starts[0] + b)))
        with tf.Graph().as_default(), tf.Session() as session:
            px, py = tf.placeholder(tf.float64, (None, 2)), tf.placeholder(tf.float64, (None, 1))
            variables = [tf.Variable(v) for v in bnn.initial(net, 2, "float64")]
            kw = dict(params=variables, cost_fun=lambda ps: bnn.objective(net, ps, px, py, float(min(n, size)), float(n)),
                      batch_generator=iter([{px: x[p], py: y[p][:, None]} for p in picks]), session=session, seed=item["seed"],
                      dtype=tf.float64, stepsize_schedule=Schedule(stepsizes), scale_grad=float(n),
                      burn_in_steps=item["burn"])
            kw.update(extra)
            sampler = Sampler.get_sampler(getattr(Sampler, method), **kw)
            session.run(tf.global_variables_initializer())
            for k in range(t.steps):
                next(sampler)
                want = [np.array(v) for v in session.run(variables)]
                if not all(np.isfinite(v).all() for v in want):
                    R.count("diverged")
                    return
                for a, b in zip(t.chain[k], want):
                    if not bnn.close(a, b, 1e-6, 1e-8):
                        raise Violation("after step %d the variables are %r, a sampler of the objective with gradient scale N=%d "
                                        "has %r" % (k, [v.tolist() for v in t.chain[k]], n, [v.tolist() for v in want]),
                                        key="chain", item=item)
                R.step()
                R.state(sorted(item.items()), k)
        R.trace()


class Schedule(object):
    def __init__(self, values):
        self.values, self.initial_value, self.k = values, values[0], -1

    def __iter__(self):
        return self

    def __next__(self):
        self.k += 1
        return self.values[self.k % len(self.values)]

    def update(self, *args, **kwargs):
        pass


def direct(item, R):
    """negative_log_likelihood evaluated on its own, with the error reported."""
    net = item["net"]
    for n, size in ((3, 2), (4, 20)):
        with bnn.Trained(net=net, n=n, d=2, n_nets=1, n_iters=1, burn_in_steps=1, sample_steps=1, batch_size=size,
                         stepsizes=[1e-5]) as t:
            with t.graph.as_default():
                old = list(t.get_net.variables)
                px, py = tf.placeholder(tf.float64, (None, 2)), tf.placeholder(tf.float64)
                nll, mse = t.bnn.negative_log_likelihood(X=px, Y=py)
                new = list(t.get_net.variables)
                t.session.run(tf.variables_initializer([v for v in tf.trainable_variables() if v not in old]))
                b = min(n, size)
                for k in range(14):
                    values = grid(net, 2, "float64", k)
                    for v, value in zip(new, values):
                        v.load(value, t.session)
                    x = np.array([[0.3 * i - k, 0.1 * i * k] for i in range(b)])
                    y = np.array([[0.7 * i + 0.2 * k] for i in range(b)])
                    got_nll, got_mse = t.session.run([nll, mse], {px: x, py: y})
                    every = t.session.run(tf.trainable_variables())
                    want = float(bnn.objective_np(net, values, x, y, n, every))
                    R.require(bnn.close(got_nll, want, 1e-8, 1e-8), "nll is %r, should be %r" % (got_nll, want), key="cost")
                    error = float(np.mean((y - bnn.forward(net, values, x, np)[:, :1]) ** 2))
                    R.require(bnn.close(got_mse, error, 1e-9, 1e-12), "error is %r, should be %r" % (got_mse, error), key="error")
                    R.step()
                    R.state(net, n, k)
        R.trace()
