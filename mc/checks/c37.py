"""C37: samplers, networks and batches leave shared state alone."""
import itertools
import gc
import logging
import os
import random
import signal
import sys
import warnings

import numpy as np
import tensorflow as tf

from .. import bnn, grids
from ..core import Violation
from ..world import MCSession, World, sampler_class, single_threaded

BOUNDS = ("Every sequence of up to 3 (thorough 4) operations out of: construct a sampler of each of the 4 kinds (every optional "
          "keyword absent or given in rotation), step each, train a seeded network in a graph of its own, predict, draw from seeded "
          "batch generators, extract a trace; before and after each operation the state of python's and numpy's global generators, "
          "numpy's error handling and print options, logging levels, warning filters, environment and working directory, signal handlers, "
          "the module search path, tensorflow's default graph and session, the graph's seed and trainable variables, the values of "
          "all variables the caller made, the caller's lists and dictionaries and the default arguments of all constructors are compared. The same over 260 (thorough 1100) steps of all samplers, a training of 1100 steps, "
          "1000 batches and a trace of 60 samples.")
ASSUMPTIONS = ["everything that is random is seeded (unseeded sources may draw from global generators)"]
TECHNIQUE = "explicit-state exploration: all bounded operation sequences on the real implementation, frame condition on shared state"
KINDS = ("SGHMC", "SGLD", "Relativistic", "SVGD")
OPS = tuple("new " + k for k in KINDS) + ("next", "train", "predict", "batches", "trace")
OPTIONAL = dict(SGHMC=[{}, dict(mdecay=0.2), dict(scale_grad=4.0, burn_in_steps=1)], SGLD=[{}, dict(A=0.5), dict(scale_grad=4.0, burn_in_steps=0)],
                Relativistic=[{}, dict(mass=2.0, speed_of_light=1.5), dict(D=0.5, Bhat=0.1)], SVGD=[{}, dict(alpha=0.5), dict(fudge_factor=0.01)])


def plan(tier, rng):
    depth = 4 if tier == "thorough" else 3
    return [dict(kind="long", offset=offset, steps=1100 if tier == "thorough" else 260, weight=4) for offset in range(3)] + [
        dict(first=first, second=second, depth=depth, weight=2)
            for first in OPS for second in OPS if first.startswith("new") or first in ("train", "batches")]


def classes():
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    return [sampler_class(k) for k in KINDS] + [BayesianNeuralNetwork]


def describe(value):
    """What there is to see of a default argument."""
    if hasattr(value, "__dict__") and not callable(value):
        return type(value).__name__, tuple(sorted((k, repr(v)) for k, v in vars(value).items()))
    return repr(value)


class Shared(object):
    def __init__(self):
        random.seed(11)
        np.random.seed(12)
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
        warnings.filterwarnings("ignore", "never mind", RuntimeWarning)
        logging.getLogger().setLevel(47)
        np.set_printoptions(precision=7)
        sys.setrecursionlimit(4321)
        self.graph = tf.Graph()
        self.session = MCSession(graph=self.graph, config=single_threaded())
        with self.graph.as_default():
            tf.set_random_seed(99)
            self.bystanders = [tf.Variable(1.5, name="bystander", dtype=tf.float64), tf.Variable([2.5], trainable=False, name="other", dtype=tf.float64)]
            self.session.run(tf.variables_initializer(self.bystanders))
        self.samplers, self.lists, self.nets, self.count = [], [], [], 0
        self.own = list(self.bystanders)
        self.feed = {}

    def view(self):
        with self.graph.as_default():
            trainable = [v.name for v in tf.trainable_variables()]
        py, (name, keys, pos, gauss, cached) = random.getstate(), np.random.get_state()
        return dict(
            python=hash(py), numpy=(name, hash(keys.tobytes()), pos, gauss, cached), errors=tuple(sorted(np.geterr().items())),
            graph=id(tf.get_default_graph()), session=id(tf.get_default_session()), seed=self.graph.seed, trainable=trainable,
            bystanders=[np.array(v).tolist() for v in self.session.run(self.bystanders)], lists=[[id(v) for v in entry] for entry in self.lists],
            logging=(logging.getLogger().level, logging.root.manager.disable, tf.logging.get_verbosity()), warnings=repr(warnings.filters),
            printing=repr(sorted(np.get_printoptions().items())), recursion=sys.getrecursionlimit(), directory=os.getcwd(),
            environment=hash(tuple(sorted(os.environ.items()))), path=sys.path[:], gc=gc.isenabled(),
            signals=[repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM)],
            defaults=[[describe(d) for d in c.__init__.__defaults__ or ()] for c in classes()])

    def operate(self, op, long=False):
        self.count += 1
        if op.startswith("new"):
            return self.construct(op.split()[1])
        if op == "next":
            for sampler in self.samplers:
                next(sampler)
        elif op == "train":
            graph = tf.Graph()
            with graph.as_default(), tf.Session(graph=graph, config=single_threaded()) as session:
                from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
                kwargs = dict(mdecay=0.1)
                model = BayesianNeuralNetwork(session=session, seed=4, n_nets=2 if not long else 40, n_iters=4 if not long else 1100, burn_in_steps=0 if not long else 520,
                                              sample_steps=1 if not long else 9, batch_size=2,
                                              get_net=bnn.make_net("linear", tf.float64), **kwargs)
                inner = self.view()
                data = bnn.dataset(3, 1)
                model.train(*data)
                self.same(inner, self.view(), "train")
                self.untouched(data, "train")
            self.nets = [model]
            if kwargs != dict(mdecay=0.1):
                raise Violation("train changed the caller's keywords: %r" % kwargs, key="keywords")
        elif op == "predict":
            graph = tf.Graph()
            with graph.as_default(), tf.Session(graph=graph, config=single_threaded()) as session:
                t = bnn.Trained(net="linear", n=3, d=1, n_nets=1, n_iters=2, burn_in_steps=0, sample_steps=1)
                inner = self.view()
                t.bnn.predict(np.array([[0.5]]))
                t.bnn.predict(np.array([[0.5]]), return_individual_predictions=True)
                self.same(inner, self.view(), "predict")
                t.close()
        elif op == "batches":
            from pysgmcmc.data_batches import generate_batches, generate_shuffled_batches
            x, y = bnn.dataset(5, 2)
            for generator in (generate_batches, generate_shuffled_batches):
                for _ in itertools.islice(generator(x=x, y=y, x_placeholder="x", y_placeholder="y", batch_size=2, seed=self.count), 3 if not long else 1000):
                    pass
            self.untouched((x, y), "drawing batches")
        elif op == "trace":
            from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
            for sampler in self.samplers:
                trace = PYSGMCMCTrace.from_sampler(chain_id=0, sampler=sampler, n_samples=2 if not long else 60)
                trace.get_values(trace.varnames[0])

    def untouched(self, data, what):
        want = bnn.dataset(len(data[0]), data[0].shape[1])
        for got, w in zip(data, want):
            if not got.flags.writeable or got.shape != w.shape or got.dtype != w.dtype or not np.array_equal(got, w):
                raise Violation("%s changed the caller's data: %r" % (what, got), key="data")

    def construct(self, kind):
        with self.graph.as_default():
            shapes = {"SGHMC": [(2,), ()], "SGLD": [(1, 2), ()], "Relativistic": [(), ()], "SVGD": [(2,), (2,), (2,)]}[kind]
            params = [tf.Variable(np.full(s, 0.4 + 0.3 * i), name="own_%d" % self.count, dtype=tf.float64, trainable=self.count % 2 == 0)
                      for i, s in enumerate(shapes)]
            self.lists.append(params)
            before = self.view()
            kwargs = dict(OPTIONAL[kind][self.count % 3])
            given = dict(kwargs)
            sampler = sampler_class(kind)(
                params, cost_fun=lambda p: sum(tf.reduce_sum(tf.square(v)) for v in (p if isinstance(p, (list, tuple)) else [p])),
                session=self.session, seed=5, **kwargs)
            self.same(before, self.view(), "constructing %s" % kind)
            if kwargs != given:
                raise Violation("constructing %s changed the caller's keywords" % kind, key="keywords")
            # what a sampler needs and does not initialise itself
            self.session.run(tf.variables_initializer([v for v in tf.global_variables() if v not in self.own and v not in params]
                                                      if not self.samplers else
                                                      [v for v in tf.global_variables() if not self.session.run(tf.is_variable_initialized(v))]))
            self.own += params
            self.samplers.append(sampler)

    def same(self, before, after, what):
        for key in before:
            if before[key] != after[key]:
                raise Violation("%s changed shared state: %s was %r, is %r" % (what, key, before[key], after[key]), key=key)


WARM = []


def check(item, R):
    R.sample(item)
    if not WARM:        # modules that are imported at their first use may change settings
        WARM.append(True)
        shared = Shared()
        for op in OPS:
            shared.operate(op)
        shared.session.close()
    if item.get("kind") == "long":
        shared = Shared()
        shared.count = item["offset"]
        for op in ["new " + k for k in KINDS] + ["batches", "train", "trace"] + ["next"] * item["steps"]:
            before = shared.view()
            shared.operate(op, long=True)
            after = shared.view()
            if op.startswith("new"):
                for key in ("trainable", "lists"):
                    before.pop(key)
            shared.same(before, after, op)
            R.step()
        R.state(item["offset"], item["steps"])
        R.trace()
        shared.session.close()
        return
    for rest in itertools.product(OPS, repeat=item["depth"] - 2):
        history = (item["first"], item["second"]) + rest
        if any(op in ("next", "trace") and not any(o.startswith("new") for o in history[:k]) for k, op in enumerate(history)):
            continue
        if sum(op in ("train", "predict") for op in history) > 1 + (item["depth"] > 3):
            continue
        if item["depth"] == 3 and all(op.startswith("new") for op in history):
            continue
        shared = Shared()
        for op in history:
            before = shared.view()
            try:
                shared.operate(op)
            except Violation as v:
                v.detail.update(history=history)
                raise
            after = shared.view()
            if op.startswith("new"):        # the caller's own doing
                for key in ("trainable", "lists"):
                    before.pop(key)
            shared.same(before, after, op)
            R.step()
            R.state(history[:history.index(op) + 1], repr(after["numpy"][2:3]))
        R.trace()
        shared.session.close()
