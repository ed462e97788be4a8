"""A closed world around one Bayesian neural network: networks with known
formulas, a recording stepsize schedule and a recording source of batches."""
import numpy as np
import tensorflow as tf

from .core import Violation

# variables of each network: name -> shape for d inputs
NETS = {
    "const": lambda d: [(1, 2)],
    "linear": lambda d: [(d, 1), (1,), (1, 1)],
    "hetero": lambda d: [(d, 2), (2,)],
    "mlp": lambda d: [(d, 2), (2,), (2, 2), (2,)],
    "scalar": lambda d: [(), (d, 1)],
}


def forward(net, values, x, m):
    """The network's output; m is numpy or tensorflow (same formula)."""
    dot = np.dot if m is np else tf.matmul
    concat = (lambda a: np.concatenate(a, axis=1)) if m is np else (lambda a: tf.concat(a, axis=1))
    if net == "const":
        return x[:, :1] * 0 + values[0]
    if net == "linear":
        w, b, s = values
        mean = dot(x, w) + b
        return concat([mean, mean * 0 + s])
    if net == "hetero":
        return dot(x, values[0]) + values[1]
    if net == "mlp":
        return dot(m.tanh(dot(x, values[0]) + values[1]), values[2]) + values[3]
    if net == "scalar":
        s, w = values
        mean = dot(x, w)
        return concat([mean, 0.5 * mean + s])
    raise ValueError(net)


def initial(net, d, dtype, shift=0):
    out = []
    for k, shape in enumerate(NETS[net](d)):
        n = int(np.prod(shape, dtype=int))
        out.append((np.array([((3 * i + 5 * k + shift) % 7 - 3) * 0.11 + 0.05 for i in range(n)])).reshape(shape).astype(dtype))
    return out


def make_net(net, dtype, calls=None, init=None, random=False):
    def get_net(inputs, seed=None, dtype=dtype):
        if calls is not None:
            calls.append((inputs, seed, dtype))
        d = inputs.shape.as_list()[1]
        np_dtype = tf.as_dtype(dtype).as_numpy_dtype
        if random:
            values = [tf.random_normal(shape, dtype=dtype, seed=None if seed is None else seed + k, stddev=0.3)
                      for k, shape in enumerate(NETS[net](d))]
        else:
            values = initial(net, d, np_dtype) if init is None else init
        variables = [tf.Variable(v, dtype=dtype, name="net_%d" % k) for k, v in enumerate(values)]
        get_net.variables = variables
        return forward(net, variables, inputs, tf)
    return get_net


class Recorder(object):
    """A schedule that records the parameters' values before every step."""

    def __init__(self, session, get_net, values=(0.05,)):
        self.session, self.get_net, self.values = session, get_net, list(values)
        self.initial_value = self.values[0]
        self.before, self.updates = [], []

    def __iter__(self):
        return self

    def current(self):
        return [np.array(v) for v in self.session.run(self.get_net.variables)]

    def __next__(self):
        self.before.append(self.current())
        return self.values[(len(self.before) - 1) % len(self.values)]

    def update(self, *args, **kwargs):
        self.updates.append((args, kwargs))


class RecordedBatches(object):
    """Passes a batch generator's calls and batches on, keeping copies."""

    def __init__(self, generator):
        self.generator, self.calls, self.batches = generator, [], []

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        inner = self.generator(*args, **kwargs)

        def source():
            for batch in inner:
                self.batches.append({k: np.array(v) for k, v in batch.items()})
                yield batch
        return source()


def dataset(n, d, dtype="float64", kind=0):
    x = np.array([[((7 * i + 3 * k + kind) % 11) * 0.4 - 1.5 for k in range(d)] for i in range(n)])
    y = np.array([((5 * i + 2 + kind) % 9) * 0.7 - 1.0 for i in range(n)])
    if kind == 1:
        x[:, 0] = 2.5                     # a constant feature
    if kind == 2:
        y[:] = -1.25                      # constant targets
    if kind == 3:
        x, y = x * 1e3 + 1e4, y * 1e-3 - 50
    return x.astype(dtype), y.astype(dtype)


def close(a, b, rtol, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


class Trained(object):
    """Trains a network and keeps everything observable about it."""

    def __init__(self, net="linear", n=5, d=1, dtype="float64", data=0, method="SGLD", stepsizes=(0.05,), random=False,
                 batch_generator=None, seed=1, before=None, init=None, x=None, y=None, **options):
        from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
        from pysgmcmc.sampling import Sampler
        from pysgmcmc.data_batches import generate_batches
        self.net, self.dtype, self.options = net, dtype, dict(options)
        self.x, self.y = dataset(n, d, dtype, data) if x is None else (x, y)
        self.given = self.x.copy(), self.y.copy()
        self.calls = []
        self.graph = tf.Graph()
        with self.graph.as_default():
            self.session = tf.Session(graph=self.graph)
            self.get_net = make_net(net, tf.as_dtype(dtype), self.calls, init, random)
            self.recorder = Recorder(self.session, self.get_net, stepsizes)
            self.source = RecordedBatches(batch_generator or generate_batches)
            if before:
                before(self)
            self.bnn = BayesianNeuralNetwork(
                session=self.session, sampling_method=getattr(Sampler, method), get_net=self.get_net,
                batch_generator=self.source, stepsize_schedule=self.recorder, seed=seed, dtype=tf.as_dtype(dtype), **options)
            self.bnn.train(self.x, self.y)
            self.steps = len(self.recorder.before)
            # the sample of iteration i is the state before iteration i + 1
            self.chain = self.recorder.before[1:] + [self.recorder.current()] if self.steps else []

    def kept(self, burn_in=1000, every=100, n_nets=100):
        o = self.options
        burn_in, every = o.get("burn_in_steps", burn_in), o.get("sample_steps", every)
        out = [i for i in range(self.steps) if i > burn_in and i % every == 0]
        return out[:o.get("n_nets", n_nets)]

    def statistics(self):
        """Of the training data, by definition; a constant has deviation 1."""
        def stats(v, on):
            if not on:
                return np.zeros(v.shape[1:]), np.ones(v.shape[1:])
            v = v.astype(np.longdouble)
            mean = v.sum(axis=0) / len(v)
            std = np.sqrt(((v - mean) ** 2).sum(axis=0) / len(v))
            return mean, std
        xs = stats(self.given[0], self.options.get("normalize_input", True))
        ys = stats(self.given[1], self.options.get("normalize_output", True))
        return xs, ys

    def outputs(self, values, x):
        """Mean and noise variance of a network in original units."""
        (xm, xs), (ym, ys) = self.statistics()
        z = (x.astype(np.longdouble) - xm) / np.where(xs == 0, 1, xs)
        out = forward(self.net, [np.asarray(v, np.longdouble) for v in values], z, np)
        return out[:, 0] * ys + ym, np.exp(out[:, 1]) * ys ** 2

    def close(self):
        self.session.close()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


def objective(net, variables, x, y, batch_rows, n):
    """The documented objective, in tensorflow, written from its definition."""
    out = forward(net, variables, x, tf)
    mu, s = out[:, :1], out[:, 1:]
    y = tf.reshape(y, (-1, 1))
    loglike = tf.reduce_sum(-(y - mu) ** 2 / (2 * (tf.exp(s) + 1e-16)) - s / 2) / batch_rows
    prior_s = tf.reduce_mean(-(s - np.log(1e-6)) ** 2 / (2 * 0.01) - np.log(0.01) / 2)
    total = sum(int(np.prod(v.shape.as_list(), dtype=int)) for v in variables)
    prior_w = -0.5 * sum(tf.reduce_sum(v ** 2) for v in variables) / total
    return -(loglike + prior_s / n + prior_w / n)


def objective_np(net, values, x, y, n, all_values=None):
    values = [np.asarray(v, np.longdouble) for v in values]
    out = forward(net, values, np.asarray(x, np.longdouble), np)
    mu, s = out[:, 0], out[:, 1]
    y = np.ravel(y)
    loglike = np.sum(-(y - mu) ** 2 / (2 * (np.exp(s) + np.longdouble(1e-16))) - s / 2) / len(x)
    prior_s = np.mean(-(s - np.log(np.longdouble(1e-6))) ** 2 / (2 * np.longdouble(0.01)) - np.log(np.longdouble(0.01)) / 2)
    weights = values if all_values is None else [np.asarray(v, np.longdouble) for v in all_values]
    prior_w = -0.5 * sum(np.sum(v ** 2) for v in weights) / sum(v.size for v in weights)
    return -(loglike + prior_s / n + prior_w / n)


def require_networks(t, R, **where):
    """The number of networks predict uses is as many as were kept."""
    mean, noise = t.bnn.predict(t.x, return_individual_predictions=True)
    if len(mean) != len(t.kept()) or len(noise) != len(t.kept()):
        raise Violation("%d networks, should be %d" % (len(mean), len(t.kept())), key="networks", **where)
    return mean, noise
