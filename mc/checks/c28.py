"""C28: training is seeded, sees only its data and gates prediction."""
import inspect
import itertools
import random

import numpy as np
import tensorflow as tf

from .. import bnn, fresh
from ..core import Violation

BOUNDS = ("All 20 interleavings of construct/train/predict of two networks in separate graphs (same and different options, seeds "
          "0, 1, 2**31-1), with uses of the global random generators between and during them and other sessions being the default one, compared with networks trained alone; "
          "seeded initial weights; every history of two (thorough three) trainings of one network on three data sets, each in a session of its own, the first of which may be "
          "interrupted at step 0, 1 or 7, equals a fresh network. Every construction option (and the default of each): data, placeholders, batch size and "
          "seed reaching the batch generator, the network function's arguments, the sampler's chain compared with a sampler run "
          "directly with exactly these options. Predictions before training for every architecture; read-only, float32, "
          "strided and integer training data with plain and shuffled batches. Seeded networks' predictions"
          " equal bit by bit in three further processes (different hash salts) and this one.")
ASSUMPTIONS = ["training is one call: interleavings are those of whole calls, and of uses of global generators within it"]
TECHNIQUE = ("explicit-state exploration: all bounded histories of operations on really trained networks, compared with each "
             "other and with a directly run sampler")


def plan(tier, rng):
    out = []
    seeds = (1, 0, 2 ** 31 - 1) if tier == "thorough" else (1,)
    for seed in seeds:
        for other in ("same", "other"):
            for method in ("SGHMC", "SGLD") if tier == "thorough" or other == "same" else ("SGHMC",):
                orders = sorted(set(itertools.permutations("aaabbb")))
                for i in range(0, len(orders), 2):
                    out.append(dict(kind="interleave", seed=seed, method=method, other=other, orders=["".join(o) for o in orders[i:i + 2]], weight=5))
    for seed in (0, 1, 7, 2 ** 31 - 1):
        out.append(dict(kind="twice", seed=seed, net=("mlp", "linear", "const", "hetero")[seed % 4], weight=2))
    k = 0
    for method, extras in (("SGHMC", ({}, dict(mdecay=0.3))), ("SGLD", ({}, dict(A=0.25)))):
        for extra in extras:
            for batch_size in (None, 1, 3):
                for burn in (None, 0, 2):
                    k += 1
                    out.append(dict(kind="options", method=method, extra=extra, batch_size=batch_size, burn=burn,
                                    dtype=("float64", "float32", None)[k % 3], seed=(None, 3, 0)[k % 3 if k % 2 else 1],
                                    stepsize=(None, [0.004, 0.0001])[k % 2], shuffled=bool(k % 4 == 1), weight=1))
    out.append(dict(kind="defaults", weight=2))
    for method in ("SGHMC", "SGLD"):
        for fail in (None, 0, 1, 7):
            for first in range(3):
                if tier == "thorough" or (first == 0 if method == "SGHMC" else first == 1 and fail in (None, 7)):
                    out.append(dict(kind="again", method=method, fail=fail, first=first, length=3 if tier == "thorough" else 2, weight=6))
    for net in bnn.NETS:
        out.append(dict(kind="gate", net=net))
    for style in ("readonly", "strided", "float32", "int", "fortran"):
        for ni, no in itertools.product((True, False), repeat=2):
            out.append(dict(kind="data", style=style, ni=ni, no=no, shuffled=bool(ni != no)))
    out.append(dict(kind="processes", weight=6))
    return out


def processes(item, R):
    fresh.compare("networks", R, "processes")


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


class Network(object):
    """A network under construct / train / predict operations."""

    def __init__(self, seed=1, method="SGHMC", net="mlp", disturb=False, n=5, burn=2):
        self.seed, self.method, self.net, self.disturb, self.n, self.burn = seed, method, net, disturb, n, burn
        self.stage = 0
        self.graph = tf.Graph()
        self.session = tf.Session(graph=self.graph)
        self.x, self.y = bnn.dataset(n, 2, kind=0)
        self.test = np.array([[0.1, 0.2], [-1.0, 3.0]])

    def batches(self, x, y, x_placeholder, y_placeholder, batch_size=20, seed=None):
        from pysgmcmc.data_batches import generate_batches
        inner = generate_batches(x, y, x_placeholder, y_placeholder, batch_size=batch_size, seed=seed)

        def source():
            for k, batch in enumerate(inner):
                if self.disturb:
                    disturb(k)
                yield batch
        return source()

    def go(self):
        self.stage += 1
        if self.disturb:        # in the session of somebody else
            with tf.Session(graph=self.graph).as_default():
                return self.work()
        return self.work()

    def work(self):
        from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
        from pysgmcmc.sampling import Sampler
        with self.graph.as_default():
            if self.stage == 1:
                self.bnn = BayesianNeuralNetwork(
                    session=self.session, sampling_method=getattr(Sampler, self.method), seed=self.seed, batch_size=3,
                    get_net=bnn.make_net(self.net, tf.float64, random=True), batch_generator=self.batches,
                    stepsize_schedule=bnn_schedule([0.01, 0.02] if self.method == "SGHMC" else [1e-4]),
                    n_nets=3, n_iters=12, burn_in_steps=self.burn, sample_steps=2)
                with tf.Session(graph=self.graph):
                    gated(self.bnn, self.test)
            elif self.stage == 2:
                self.bnn.train(self.x, self.y)
            else:
                return [np.array(v) for v in self.bnn.predict(self.test, return_individual_predictions=True)
                        + tuple(self.bnn.predict(self.test))]


def bnn_schedule(values):
    from .c24 import Schedule
    return Schedule(values)


def disturb(k):
    np.random.seed(k + 17)
    np.random.rand(3)
    random.seed(k)


def gated(model, x, **kw):
    for kw in ({}, dict(return_individual_predictions=True)):
        try:
            out = model.predict(x, **kw)
        except ValueError:
            continue
        except Exception as e:
            raise Violation("predict before train raises %r instead of ValueError" % e, key="gate")
        raise Violation("predict before train returns %r" % (out,), key="gate")


def alone(R, **kw):
    net = Network(**kw)
    net.go()
    net.go()
    out = net.go()
    net.session.close()
    if not all(np.isfinite(o).all() for o in out):
        R.count("diverged")
    return out


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and x.tobytes() == y.tobytes() for x, y in zip(a, b))


def interleave(item, R):
    options = dict(a=dict(seed=item["seed"], method=item["method"]), b=dict(seed=item["seed"], method=item["method"]))
    if item["other"] == "other":
        options["b"] = dict(seed=item["seed"] // 2 + 5, method="SGLD", net="linear", n=4, burn=1)
    want = {k: alone(R, **v) for k, v in options.items()}
    if item["other"] == "same":
        R.require(same(want["a"], want["b"]), "two networks trained alike predict differently", key="seed", item=item)
    for order in item["orders"]:
        nets = {k: Network(disturb=True, **v) for k, v in options.items()}
        for k, who in enumerate(order):
            disturb(k)
            tf.set_random_seed(k)          # of the default graph, which is not the networks'
            out = nets[who].go()
            R.step()
            R.state(item["seed"], item["method"], item["other"], order[:k + 1])
            if out is not None:
                R.require(same(out, want[who]), "predictions depend on what happens between construct, train and predict",
                          key="isolation", order=order, network=who, item={k: v for k, v in item.items() if k != "orders"})
        for net in nets.values():
            net.session.close()
        R.trace()


def twice(item, R):
    results = []
    for k in range(3):
        disturb(k * 3)
        results.append(alone(R, seed=item["seed"], net=item["net"], method="SGHMC" if item["seed"] % 2 else "SGLD", disturb=k == 1))
        R.step(12)
    for other in results[1:]:
        R.require(same(results[0], other), "networks trained twice with seed %d differ" % item["seed"], key="seed")
    R.state(item["seed"], [r.tolist() for r in results[0]])
    R.trace()


def again(item, R):
    """A network that was trained before, in another session, or failed to be."""
    from pysgmcmc.data_batches import generate_batches
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    from pysgmcmc.sampling import Sampler
    test = {d: np.array([[0.1, 0.2], [-1.0, 3.0]])[:, :d] for d in (1, 2)}

    class Interrupted(Exception):
        pass

    def fit(data, model=None, fail=None):
        (x, y), graph = data, tf.Graph()
        given = x.copy(), y.copy()

        def batches(*args, **kwargs):
            for k, batch in enumerate(generate_batches(*args, **kwargs)):
                if k == fit.fail:
                    raise Interrupted()
                yield batch
        fit.fail = fail
        with graph.as_default():
            session = tf.Session(graph=graph)
            if model is None:
                model = BayesianNeuralNetwork(
                    session=session, sampling_method=getattr(Sampler, item["method"]), seed=4, batch_size=3, get_net=bnn.make_net("linear", tf.float64),
                    batch_generator=batches, stepsize_schedule=bnn_schedule([0.01 if item["method"] == "SGHMC" else 1e-4]),
                    n_nets=3, n_iters=12, burn_in_steps=2, sample_steps=2)
            model.session = session
            try:
                model.train(x, y)
            except Interrupted:
                if fail is None:
                    raise
                gated(model, test[x.shape[1]])      # it was never trained
                return model, None
            R.require(np.array_equal(x, given[0]) and np.array_equal(y, given[1]), "the training data was modified", key="data")
            out = [np.array(v) for v in model.predict(test[x.shape[1]], return_individual_predictions=True) + tuple(model.predict(test[x.shape[1]]))]
        return model, out
    data = [bnn.dataset(5, 2, kind=0), bnn.dataset(4, 1, kind=0), bnn.dataset(7, 2, kind=3), (bnn.dataset(5, 2, kind=0)[0] * 3 - 1, bnn.dataset(5, 2, kind=0)[1][::-1] * 40 + 7)]
    want = [fit(d)[1] for d in data]
    for history in itertools.product(range(4), repeat=item["length"] - 1):
        history, model = (item["first"],) + history, None
        for k, which in enumerate(history):
            model, out = fit(data[which], model, fail=item["fail"] if k == 0 else None)
            if out is None and k:
                raise Violation("training fails", key="again", history=history)
            if out is not None and not same(out, want[which]):
                raise Violation("a network trained on data set %d after %r predicts %r, a fresh one %r" % (
                    which, history[:k], [o.tolist() for o in out], [o.tolist() for o in want[which]]), key="again", history=history, item=item)
            R.step()
            R.state(item["method"], item["fail"], history[:k + 1])
        R.trace()


def options(item, R):
    from pysgmcmc.data_batches import generate_batches, generate_shuffled_batches
    generator = generate_shuffled_batches if item["shuffled"] else generate_batches
    options = dict(n_nets=2, n_iters=7, sample_steps=2)
    if item["batch_size"] is not None:
        options["batch_size"] = item["batch_size"]
    options["burn_in_steps"] = item["burn"] if item["burn"] is not None else 1
    options.update(item["extra"])
    dtype = item["dtype"] or "float64"
    stepsizes = item["stepsize"] or [0.01]
    if item["method"] == "SGLD":
        stepsizes = [s * 0.01 for s in stepsizes]
    n = 25 if item["batch_size"] is None else 4
    with bnn.Trained(net="linear", n=n, d=2, dtype=dtype, method=item["method"], stepsizes=stepsizes, seed=item["seed"],
                     batch_generator=generator, **options) as t:
        inspect_calls(t, item["seed"], options.get("batch_size", 20), generator, R)
        R.require(all(v.dtype == np.dtype(dtype) for values in t.chain for v in values), "samples are not of dtype %s" % dtype, key="dtype")
        if item["seed"] is not None:
            follow(t, item["method"], options, stepsizes, item["seed"], dtype, R)
        R.step(t.steps)
        R.state(sorted(item.items(), key=str))
        unchanged(t, R)
    R.trace()


def inspect_calls(t, seed, batch_size, generator, R):
    (xm, xs), (ym, ys) = t.statistics()
    x = (t.given[0].astype(np.longdouble) - xm) / np.where(xs == 0, 1, xs)
    y = (t.given[1].astype(np.longdouble) - ym) / np.where(ys == 0, 1, ys)
    R.require(len(t.source.calls) == 1, "the batch generator is created %d times" % len(t.source.calls), key="batches")
    args, kwargs = t.source.calls[0]
    bound = inspect.signature(generator).bind(*args, **kwargs)
    bound.apply_defaults()
    got = bound.arguments
    eps = 1e-9 if t.dtype == "float64" else 1e-5
    R.require(bnn.close(got["x"], x, eps, eps) and bnn.close(np.ravel(got["y"]), y, eps, eps),
              "batches are not drawn from the (normalised) training data", key="data")
    R.require(got["batch_size"] == batch_size, "batches of %r rows, should be %r" % (got["batch_size"], batch_size), key="batch_size")
    R.require(got["seed"] == seed, "the batch generator gets seed %r, should be %r" % (got["seed"], seed), key="seed")
    R.require(len(t.calls) >= 1, "get_net is never called", key="get_net")
    inputs, net_seed, net_dtype = t.calls[-1]
    R.require(net_seed == seed and net_dtype == tf.as_dtype(t.dtype) and inputs is got["x_placeholder"]
              and inputs.dtype == tf.as_dtype(t.dtype), "get_net gets %r" % (t.calls[-1],), key="get_net")


def follow(t, method, options, stepsizes, seed, dtype, R):
    """A sampler run directly with the options must give the same chain."""
    from pysgmcmc.sampling import Sampler
    n = len(t.x)
    with tf.Graph().as_default(), tf.Session() as session:
        px, py = tf.placeholder(dtype, (None, 2)), tf.placeholder(dtype, (None, 1))
        variables = [tf.Variable(v) for v in bnn.initial("linear", 2, dtype)]
        feeds = []
        for batch in t.source.batches:
            two, one = sorted(batch.values(), key=lambda v: -v.shape[1])
            feeds.append({px: two, py: one})
        rows = len(t.source.batches[0][list(t.source.batches[0])[0]])
        kw = dict(params=variables, cost_fun=lambda ps: bnn.objective("linear", ps, px, py, rows, n),
                  batch_generator=iter(feeds), session=session, seed=seed, dtype=tf.as_dtype(dtype),
                  stepsize_schedule=bnn_schedule(stepsizes), scale_grad=n, burn_in_steps=options["burn_in_steps"])
        kw.update({k: v for k, v in options.items() if k in ("mdecay", "A")})
        sampler = Sampler.get_sampler(getattr(Sampler, method), **kw)
        session.run(tf.global_variables_initializer())
        tolerance = 1e-6 if dtype == "float64" else 2e-3
        for k in range(t.steps):
            next(sampler)
            want = [np.array(v) for v in session.run(variables)]
            if not all(np.isfinite(v).all() for v in want):
                return R.count("diverged")
            for a, b in zip(t.chain[k], want):
                if not bnn.close(a, b, tolerance, tolerance):
                    raise Violation("after step %d the variables are %r; a sampler with the options given has %r" % (
                        k, [v.tolist() for v in t.chain[k]], [v.tolist() for v in want]), key="options",
                        method=method, options=options, stepsizes=stepsizes, seed=seed)


def defaults(item, R):
    """Without any options: SGHMC, float64, batches of 20, stepsize 0.01."""
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    from pysgmcmc.data_batches import generate_batches
    t = bnn.Trained.__new__(bnn.Trained)
    t.net, t.dtype, t.options = "linear", "float64", dict(burn_in_steps=1000)
    t.x, t.y = bnn.dataset(25, 2)
    t.given, t.calls, t.graph = (t.x.copy(), t.y.copy()), [], tf.Graph()
    with t.graph.as_default(), tf.Session(graph=t.graph) as session:
        t.session = session
        inner = bnn.make_net("linear", tf.float64, t.calls)

        chain = []
        t.source = bnn.RecordedBatches(generate_batches)

        def source(*args, **kwargs):
            for batch in t.source(*args, **kwargs):
                chain.append([np.array(v) for v in session.run(inner.variables)])
                yield batch
        # one option at a time is given, so that all others are the defaults
        model = BayesianNeuralNetwork(session, get_net=inner, batch_generator=source, n_iters=12, seed=5)
        model.train(t.x, t.y)
        t.steps, t.chain = len(chain) - 1, chain[1:]
        inspect_calls(t, 5, 20, generate_batches, R)
        follow(t, "SGHMC", dict(burn_in_steps=1000), [0.01], 5, "float64", R)
        R.step(t.steps)
    R.state("defaults")
    R.trace()


def unchanged(t, R):
    R.require(np.array_equal(t.x, t.given[0]) and np.array_equal(t.y, t.given[1]), "the training data was modified", key="data")


def gate(item, R):
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    with tf.Graph().as_default(), tf.Session() as session:
        model = BayesianNeuralNetwork(session, get_net=bnn.make_net(item["net"], tf.float64), n_nets=2, n_iters=10,
                                      burn_in_steps=2, sample_steps=2, stepsize_schedule=bnn_schedule([0.01]))
        x, y = bnn.dataset(4, 2)
        gated(model, x)
        try:
            model.train(x[:, 0], y)
        except Exception:
            pass
        else:
            raise Violation("training with one-dimensional inputs succeeds", key="gate")
        gated(model, x)
        model.train(x, y)
        for kw in ({}, dict(return_individual_predictions=True)):
            got = model.predict(x, **kw)
            R.require(len(got) == 2 and np.shape(got[0])[-1] == 4, "predict after training returns %r" % (got,), key="gate")
        R.step(4)
        R.state(item["net"])
    R.trace()


def data(item, R):
    from pysgmcmc.data_batches import generate_batches, generate_shuffled_batches
    x, y = bnn.dataset(5, 2)
    style = item["style"]
    if style == "float32":
        x, y = x.astype("float32"), y.astype("float32")
    if style == "int":
        x, y = np.round(x * 4).astype(int), np.round(y * 4).astype(int)
    if style == "strided":
        bx, by = np.zeros((10, 4)), np.zeros(10)
        bx[::2, ::2], by[::2] = x, y
        x, y = bx[::2, ::2], by[::2]
    if style == "fortran":
        x = np.asfortranarray(x)
    if style == "readonly":
        x.flags.writeable = y.flags.writeable = False
    generator = generate_shuffled_batches if item["shuffled"] else generate_batches
    with bnn.Trained(net="linear", x=x, y=y, batch_size=3, normalize_input=item["ni"], normalize_output=item["no"], stepsizes=[1e-4],
                     batch_generator=generator, n_nets=2, n_iters=9, burn_in_steps=2, sample_steps=2) as t:
        unchanged(t, R)
        mean, noise = bnn.require_networks(t, R, item=item)
        for r, i in enumerate(t.kept()):
            if not np.isfinite(np.concatenate([np.ravel(v) for v in t.chain[i]])).all():
                return R.count("diverged")
            want = t.outputs(t.chain[i], t.given[0].astype(float))
            # the data is normalised in the precision it is given in
            eps = 2e-4 if style == "float32" else 1e-9
            R.require(bnn.close(mean[r], want[0], eps, eps * 5) and bnn.close(noise[r], want[1], eps),
                      "network %d predicts %r, should be %r" % (r, mean[r].tolist(), np.asarray(want[0], float).tolist()), key="data", item=item)
        unchanged(t, R)
        R.step(t.steps)
        R.state(sorted(item.items()))
    R.trace()
