"""C35: the default network is the documented architecture and is trained as a whole."""
import itertools

import numpy as np
import tensorflow as tf

from .. import bnn, fresh
from ..core import Violation

BOUNDS = ("Every single connection (every unit of a layer to every unit of the next, every bias, alone in an otherwise silent "
          "network) and 16 (thorough 80) dense valuations of all parameters (a quarter of them with extreme outputs), on batches of every size 0..4 over the values {-1000, -1, 0, "
          "0.5, 2}, 1..3 inputs (also 49 to 130), 2 dtypes, outputs compared with the definition and with those of the rows on their own; all of "
          "15 seeds with initial weights compared pairwise, with other random ops in the graph before; trainings of networks "
          "that are given no architecture with SGHMC and SGLD, every kept network's predictions recomputed from the chain. Seeded initial weights"
          " equal bit by bit in three further processes (different hash salts) and this one.")
ASSUMPTIONS = ["tensorflow.contrib's initializer (not installed) is replaced by tensorflow's own",
               "parameters are recognised by their sizes and, where those agree, by what they do"]
TECHNIQUE = "VALUE"
H = 50


def plan(tier, rng):
    out = []
    for dtype in ("float64", "float32"):
        for d in (1, 2, 3):
            for layer in range(4):
                out.append(dict(kind="connections", d=d, dtype=dtype, layer=layer, every=1 if tier == "thorough" or (d == 2 and dtype == "float64") else 7, weight=4))
            out.append(dict(kind="valuations", d=d, dtype=dtype, n=80 if tier == "thorough" else 16, weight=2))
        for d in (49, 50, 51, 60, 130):
            out.append(dict(kind="wide", d=d, dtype=dtype, weight=2))
        out.append(dict(kind="initial", dtype=dtype, weight=3))
        for method in ("SGHMC", "SGLD"):
            for data in ((0, 1, 2, 3) if tier == "thorough" else (0, 3)):
                out.append(dict(kind="training", dtype=dtype, method=method, data=data, weight=3))
    out.append(dict(kind="processes", weight=6))
    return out


def processes(item, R):
    fresh.compare("defaultnet", R, "processes")


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def forward(values, x):
    w1, b1, w2, b2, w3, b3, w4, b4, s = values
    h = np.tanh(x @ w1 + b1)
    h = np.tanh(h @ w2 + b2)
    h = np.tanh(h @ w3 + b3)
    out = h @ w4 + b4
    return np.concatenate([out, np.full_like(out, s)], axis=1)


SIZES = lambda d: [(d, H), (H,), (H, H), (H,), (H, H), (H,), (H, 1), (1,), (1,)]      # noqa: E731


class Net(object):
    def __init__(self, d, dtype, seed=1, noise=0):
        from pysgmcmc.models.bayesian_neural_network import get_default_net
        self.d, self.dtype = d, dtype
        self.graph = tf.Graph()
        self.session = tf.Session(graph=self.graph)
        with self.graph.as_default():
            for k in range(noise):
                tf.random_normal((3,), seed=k)
            self.x = tf.placeholder(dtype, (None, d))
            self.out = get_default_net(inputs=self.x, seed=seed, dtype=tf.as_dtype(dtype))
            self.variables = tf.trainable_variables()
            self.session.run(tf.global_variables_initializer())
        self.shapes = [tuple(v.shape.as_list()) for v in self.variables]
        size = lambda shapes: sorted(int(np.prod(s, dtype=int)) for s in shapes)      # noqa: E731
        if size(self.shapes) != size(SIZES(d)):
            raise Violation("the trainable variables have shapes %r, should be three layers of %d units and an output" % (self.shapes, H),
                            key="architecture")
        if any(v.dtype.base_dtype.name != dtype for v in self.variables) or self.out.dtype.name != dtype:
            raise Violation("dtypes are %r and %r instead of %s" % ([v.dtype for v in self.variables], self.out.dtype, dtype), key="dtype")
        self.roles = self.assign()

    def run(self, values, x):
        """values in the order of SIZES."""
        feed = {self.variables[v]: np.asarray(value, self.dtype).reshape(self.shapes[v]) for v, value in zip(self.roles, values)}
        feed[self.x] = np.asarray(x, self.dtype).reshape(-1, self.d)
        return np.array(self.session.run(self.out, feed))

    def assign(self):
        """Which variable plays which role: the assignment that explains the outputs."""
        slots = SIZES(self.d)
        x = np.arange(2. * self.d).reshape(2, self.d) / 3 - 0.4
        values = dense(self.d, 0)
        candidates = []
        groups = {}
        for i, s in enumerate(slots):
            groups.setdefault(int(np.prod(s)), []).append(i)
        have = {}
        for v, s in enumerate(self.shapes):
            have.setdefault(int(np.prod(s, dtype=int)), []).append(v)
        sizes = sorted(groups)
        for perms in itertools.product(*[itertools.permutations(have[n]) for n in sizes]):
            roles = [None] * len(slots)
            for n, perm in zip(sizes, perms):
                for slot, v in zip(groups[n], perm):
                    roles[slot] = v
            candidates.append(roles)
        candidates.sort(key=lambda r: sum(a != b for a, b in zip(r, sorted(r))))
        want = forward([np.asarray(v, np.longdouble) for v in values], x)
        for roles in candidates:
            self.roles = roles
            got = self.run(values, x)
            if got.shape == want.shape and np.allclose(got.astype(float), want.astype(float), rtol=1e-3, atol=1e-5):
                return roles
        self.roles = candidates[0]
        raise Violation("no way to read the variables %r explains the network's output; in order: %r instead of %r" % (
            [v.name for v in self.variables], self.run(values, x).tolist(), want.astype(float).tolist()), key="output")

    def compare(self, values, x, R, what):
        x = np.asarray(x, float).reshape(-1, self.d)
        want = forward([np.asarray(np.asarray(v, self.dtype), np.longdouble) for v in values], np.asarray(np.asarray(x, self.dtype), np.longdouble))
        got = self.run(values, x)
        tol = 1e-9 if self.dtype == "float64" else 2e-4
        if got.shape != want.shape or not np.allclose(got.astype(float), want.astype(float), rtol=tol, atol=tol):
            raise Violation("%s: the output for %r is %r, should be %r" % (what, x.tolist(), got.tolist(), want.astype(float).tolist()), key="output")
        R.step()
        return got


def dense(d, k):
    out = []
    for j, shape in enumerate(SIZES(d)):
        n = int(np.prod(shape, dtype=int))
        scale = (0.3, 0.05, 1.0, 3.0)[k % 4] if len(shape) == 2 and shape[0] != d else 0.8
        out.append((((np.arange(n) * (7 + 2 * j + k) + 3 * k + j) % 13 - 6.0) / 6 * scale).reshape(shape))
    return out


VALUES = (-1000.0, -1.0, 0.0, 0.5, 2.0)


def inputs(d):
    points = list(itertools.product(VALUES, repeat=d))
    return points if d < 3 else points[::5]


def connections(item, R):
    d, layer = item["d"], item["layer"]
    x = np.array([[0.7 - 0.9 * k for k in range(d)], [0.1] * d, [2.0 * k - 1 for k in range(d)]])
    net = Net(d, item["dtype"])
    rows, columns = SIZES(d)[2 * layer]
    for index, (a, b) in enumerate(itertools.product(range(rows), range(columns))):
        if index % item["every"]:
            continue
        values = [np.zeros(s) for s in SIZES(d)]
        path = {0: (a, b, b, (7 * b + a) % H), 1: (b % d, a, b, (a + b) % H), 2: ((a + b) % d, (a + 3) % H, a, b),
                3: (a % d, a, (a + 1) % H, a)}[layer]
        i, u, v, w = path
        if layer == 0:
            u, v = b, (b + 9 * a) % H
        values[0][i, u] = 0.8
        values[2][u, v] = -0.9
        values[4][v, w] = 1.1
        values[6][w, 0] = 0.7
        # biases of the units on the path and of some beside it
        values[1][u] = 0.05 * (index % 3 - 1)
        values[3][v] = 0.02 * (index % 5 - 2)
        values[5][w] = -0.03 * (index % 4)
        values[1][(u + 1) % H] = values[3][(v + 1) % H] = values[5][(w + 1) % H] = 0.4
        values[7][0] = 0.1 * (index % 2)
        values[8][0] = index % 7 - 3.5
        net.compare(values, x, R, "connection %d -> %d of layer %d" % (a, b, layer + 1))
        R.state(item["d"], item["dtype"], layer, a, b)
    R.trace()
    net.session.close()


def valuations(item, R):
    d = item["d"]
    net = Net(d, item["dtype"])
    points = inputs(d)
    for k, values in [(k, dense(d, k)) for k in range(item["n"])]:
        if k % 4 == 3:          # extreme outputs
            values[8][0], values[7][0] = (-60., 40., -500., 1000.)[k // 4 % 4], (1e4, -1e6, 50., 0.)[k // 4 % 4]
        whole = net.compare(values, points, R, "dense valuation %d" % k)
        for size in (0, 1, 2, 3, 4):
            for start in range(0, len(points) - size + 1, 3):
                got = net.run(values, points[start:start + size])
                if got.shape != (size, 2):
                    raise Violation("%d rows give an output of shape %r" % (size, got.shape), key="rows")
                if not np.allclose(got, whole[start:start + size], rtol=1e-4, atol=1e-5):
                    raise Violation("rows %d..%d give %r on their own but %r among others" % (
                        start, start + size - 1, got.tolist(), whole[start:start + size].tolist()), key="rows")
                R.step()
        R.state(d, item["dtype"], k)
    R.trace()
    net.session.close()


def wide(item, R):
    """As many inputs as units, and more."""
    d = item["d"]
    net = Net(d, item["dtype"])
    x = [[((3 * i + 5 * k) % 7 - 3) / 4. for k in range(d)] for i in range(9)]
    for k in range(4):
        values = dense(d, k)
        values[0] = values[0] * 0.2
        net.compare(values, x, R, "dense valuation %d of %d inputs" % (k, d))
        R.state(d, item["dtype"], k)
    values = [np.zeros(s) for s in SIZES(d)]
    for unit in range(d):
        values[0][...] = 0
        values[0][unit, unit % H] = 0.8
        values[2][unit % H, 3] = 0.7
        values[4][3, 4], values[6][4, 0] = 1.1, 0.9
        net.compare(values, x[:2], R, "input %d of %d" % (unit, d))
    R.trace()
    net.session.close()


def initial(item, R):
    seeds = list(range(12)) + [12345, 2 ** 31 - 2, None]
    seen = {}
    for seed in seeds:
        versions = []
        for noise in (0, 0, 2):
            net = Net(2, item["dtype"], seed=seed, noise=noise)
            values = [np.array(net.session.run(net.variables[v])).reshape(s) for v, s in zip(net.roles, SIZES(2))]
            got = net.session.run(net.out, {net.x: [[0.5, 1.0], [2.0, -1.0]]})
            net.session.close()
            for j in (1, 3, 5, 7):
                if np.any(values[j]):
                    raise Violation("a bias starts at %r" % values[j].tolist(), key="initial-bias")
            if not np.allclose(values[8], np.log(1e-3), rtol=1e-6) or not np.allclose(got[:, 1], np.log(1e-3), rtol=1e-6):
                raise Violation("the log variance starts at %r" % values[8].tolist(), key="initial-variance")
            for j in (0, 2, 4, 6):
                w = values[j]
                if not np.all(np.isfinite(w)) or np.unique(w).size < 0.99 * w.size:
                    raise Violation("weights of layer %d start degenerate" % (j // 2 + 1), key="initial-weights")
                if np.abs(w).max() * np.sqrt(w.shape[0]) > 5 or np.sqrt(np.mean(w ** 2) * w.shape[0]) < 0.3:
                    raise Violation("weights of layer %d start at a scale of %g for %d inputs" % (j // 2 + 1, np.sqrt(np.mean(w ** 2)), w.shape[0]),
                                    key="initial-weights")
            versions.append(tuple(v.tobytes() for v in values))
            R.step()
            R.state(item["dtype"], seed, noise)
        if seed is not None and len(set(versions)) != 1:
            raise Violation("the same seed %r gives different initial weights" % seed, key="seed")
        if seed is None and len(set(versions)) != 3:
            raise Violation("unseeded networks start with the same weights", key="seed")
        for v in versions[:1] if seed is not None else versions:
            if v in seen:
                raise Violation("seeds %r and %r give the same initial weights" % (seen[v], seed), key="seed")
            seen[v] = seed
    R.trace()


class Chain(object):
    """A schedule that records all trainable variables before every step."""

    def __init__(self, session, stepsizes):
        self.session, self.values, self.before = session, stepsizes, []
        self.initial_value = stepsizes[0]

    def __iter__(self):
        return self

    def current(self):
        return [np.array(v) for v in self.session.run(self.session.graph.get_collection(tf.GraphKeys.TRAINABLE_VARIABLES))]

    def __next__(self):
        self.before.append(self.current())
        return self.values[(len(self.before) - 1) % len(self.values)]

    def update(self, *args, **kwargs):
        pass


def training(item, R):
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    from pysgmcmc.sampling import Sampler
    dtype, d = item["dtype"], 2
    x, y = bnn.dataset(6, d, dtype, item["data"])
    given = x.copy(), y.copy()
    roles = Net(d, dtype)
    roles.session.close()
    with tf.Graph().as_default() as graph:
        session = tf.Session(graph=graph)
        chain = Chain(session, [0.01, 0.02] if item["method"] == "SGHMC" else [1e-4, 1e-3])
        model = BayesianNeuralNetwork(
            session=session, sampling_method=getattr(Sampler, item["method"]), stepsize_schedule=chain, seed=3, batch_size=4,
            dtype=tf.as_dtype(dtype), n_nets=4, n_iters=14, burn_in_steps=3, sample_steps=2)
        model.train(x, y)
        states = chain.before[1:] + [chain.current()]
        if len(chain.before) != 11:
            raise Violation("%d steps instead of 11" % len(chain.before), key="steps")
        for v, (first, last) in enumerate(zip(chain.before[0], states[-1])):
            if np.any(first == last):
                raise Violation("%d elements of parameter %d of shape %r are not sampled" % (np.sum(first == last), v, first.shape), key="sampled")
        kept = [states[i] for i in range(len(states)) if i > 3 and i % 2 == 0]
        test = np.array([[0.1, 0.2], [-1.0, 3.0], [4.0, 4.0]], dtype)
        means, noises = model.predict(test, return_individual_predictions=True)
        mean, variance = model.predict(test)
        session.close()
    stats = [(v.astype(np.longdouble).mean(axis=0), v.astype(np.longdouble).std(axis=0)) for v in given]
    (xm, xs), (ym, ys) = [(m, np.where(s == 0, 1, s)) for m, s in stats]
    real = stats[1][1]
    rtol = 1e-7 if dtype == "float64" else 2e-3
    if len(means) != len(kept) or len(noises) != len(kept):
        raise Violation("%d networks instead of %d" % (len(means), len(kept)), key="networks")
    outs = []
    for k, state in enumerate(kept):
        values = [np.asarray(state[v], np.longdouble).reshape(s) for v, s in zip(roles.roles, SIZES(d))]
        out = forward(values, (test.astype(np.longdouble) - xm) / xs)
        outs.append(out[:, 0] * real + ym)
        R.step()
        R.state(sorted(item.items()), k)
        if not bnn.close(means[k], outs[-1], rtol, rtol * float(ys)) or not bnn.close(noises[k], np.exp(out[:, 1]) * real ** 2, rtol, rtol * 1e-3):
            raise Violation("network %d predicts %r +- %r, should be %r +- %r" % (
                k, means[k].tolist(), noises[k].tolist(), outs[-1].astype(float).tolist(), (np.exp(out[:, 1]) * real ** 2).astype(float).tolist()), key="predict")
    want = np.mean(outs, axis=0), np.var(outs, axis=0)
    if not bnn.close(mean, want[0], rtol, rtol * float(ys)) or not bnn.close(variance, want[1], 100 * rtol, 10 * rtol * float(ys) ** 2):
        raise Violation("predicts %r +- %r, should be %r +- %r" % (mean.tolist(), variance.tolist(), want[0].astype(float).tolist(), want[1].astype(float).tolist()),
                        key="predict")
    if not (np.array_equal(x, given[0]) and np.array_equal(y, given[1])):
        raise Violation("training changed the data", key="data")
    R.trace()
