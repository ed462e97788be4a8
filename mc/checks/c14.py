"""C14: invalid arguments are rejected before anything is changed."""
import functools
import importlib
import itertools
import sys

import numpy as np
import tensorflow as tf

from .. import costs, grids
from ..core import Violation
from ..world import MCSession, Sched, sampler_class, single_threaded

BOUNDS = ("Constructors of the four samplers and of the network, and both batch generators: every single and pairwise "
          "(thorough: three-way) deviation from a valid call over an alphabet of 3-8 invalid and 1-5 valid values per "
          "argument. Every call with an invalid value raises AssertionError or ValueError, leaves the target "
          "parameters without value and consumes nothing from batch source or schedule; every other call is accepted "
          "and makes a step (yields a batch). Default session: none, given, default at construction, modules imported "
          "while another (meanwhile closed) session was the default.")
ASSUMPTIONS = ["values outside the alphabet behave like those of the same type"]


def Partial(names):
    """A schedule that may lack part of the interface."""
    return type("Partial", (), {name: 0.05 if name == "initial_value" else (lambda *a, **k: 0.05) for name in names})()


class NotAnIterator(object):
    def __iter__(self):
        return iter([])


class CallableCost(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)


INTERFACE = ("update", "__next__", "initial_value")


def partial_schedules():
    out = []
    for n in range(3):
        for names in itertools.combinations(INTERFACE, n):
            out.append(Partial(names))
    return out


class Setup(object):
    """Argument alphabets of a sampler in a fresh graph."""

    def __init__(self, kind):
        self.kind = kind
        self.graph = tf.Graph()
        self.session = MCSession(graph=self.graph, config=single_threaded())
        with self.graph.as_default():
            shapes = dict(SGHMC=[(2,), ()], SGLD=[(2,), ()], Relativistic=[(), (1,)], SVGD=[(2,), (2,), (2,)])[kind]
            self.params = [tf.Variable(np.asarray(s["init"]), dtype=tf.float64) for s in grids.params(*shapes)]
            self.flags = [tf.is_variable_initialized(p) for p in self.params]
            self.placeholder = tf.placeholder(tf.float64, (None,))
        self.log = []
        self.schedule = Sched([0.05, 0.03], log=self.log)
        self.session_b = MCSession(graph=self.graph, config=single_threaded())

        def batches():
            while True:
                self.log.append("batch")
                yield {self.placeholder: np.array([0.5, 1.5])}

        def cost(params, *_):
            return tf.reduce_sum(costs.flatten(params) ** 2)
        from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
        invalid, valid = {}, {}
        invalid["batch_generator"] = [[], {}, 3, "batches", NotAnIterator(), batches, lambda: None, np.zeros(3)]
        valid["batch_generator"] = [None, batches()]
        invalid["seed"] = [1.0, "1", (1,), 2.5, 1j, [3]]
        valid["seed"] = [None, 0, 1, 2 ** 31 - 1]
        invalid["session"] = ["session", 0, object(), tf.Graph(), self.graph, True]
        valid["session"] = [self.session]
        invalid["dtype"] = [None, "float64", np.float64, float, 64]
        valid["dtype"] = [tf.float64]
        invalid["cost_fun"] = [None, 1., "cost", self.params, []]
        valid["cost_fun"] = [cost, functools.partial(cost), CallableCost(cost), lambda p: cost(p)]
        invalid["stepsize_schedule"] = partial_schedules() + [0.05, None, [0.05], "constant", iter([0.05])]
        valid["stepsize_schedule"] = [self.schedule, ConstantStepsizeSchedule(0.01), Partial(INTERFACE)]
        if kind in ("SGHMC", "SGLD"):
            invalid["burn_in_steps"] = [1.0, "3", None, [3], 2.5, (1,)]
            valid["burn_in_steps"] = [0, 1, 5]
        if kind == "SVGD":
            invalid["alpha"] = ["0.9", None, [0.9]]
            valid["alpha"] = [0.9, 0, 1, 0.5]
            invalid["fudge_factor"] = ["x", None, (1.,)]
            valid["fudge_factor"] = [1e-6, 1, 0.1]
        if kind == "Relativistic":
            invalid["mass"] = [None, "1", [1.0]]
            valid["mass"] = [1.0, 2.5]
            invalid["speed_of_light"] = ["c", None, (2.,)]
            valid["speed_of_light"] = [1.0, 0.5]
        self.invalid, self.valid = invalid, valid
        valid = dict(self.valid)
        self.base = {k: v[0] for k, v in valid.items()}
        self.base["particles" if kind == "SVGD" else "params"] = self.params

    def values(self, name):
        """(ok, index) of every value"""
        return [(False, i) for i in range(len(self.invalid[name]))] + [(True, i) for i in range(len(self.valid[name]))]

    def kwargs(self, deviation):
        kw, ok = dict(self.base), True
        for name, good, i in deviation:
            kw[name] = (self.valid if good else self.invalid)[name][i]
            ok = ok and good
        return kw, ok


def deviations(setup, n):
    names = sorted(setup.invalid)
    yield ()
    for k in range(1, n + 1):
        for some in itertools.combinations(names, k):
            for choice in itertools.product(*[setup.values(name) for name in some]):
                if k > 1 and any(good and i == 0 for good, i in choice):
                    continue        # the value of the base call: no deviation
                yield tuple((name, good, i) for name, (good, i) in zip(some, choice))


def plan(tier, rng):
    out = []
    depth = 3 if tier == "thorough" else 2
    for kind in ("SGHMC", "SGLD", "Relativistic", "SVGD"):
        for part in range(6):
            out.append(dict(kind="sampler", sampler=kind, depth=depth, part=part, parts=6, weight=3))
        out.append(dict(kind="session", sampler=kind, weight=1))
    for part in range(4):
        out.append(dict(kind="network", depth=depth, part=part, parts=4, weight=2))
    for f in ("generate_batches", "generate_shuffled_batches"):
        out.append(dict(kind="batches", function=f, depth=depth, weight=1))
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


LATE = ("mass", "speed_of_light")     # physical constants, of no concern to the statement's last clause
REJECTIONS = (AssertionError, ValueError)


def rejected(what, f):
    try:
        f()
    except REJECTIONS:
        return
    except Exception as e:
        raise Violation("%s raises %s (%s), not AssertionError or ValueError" % (what, type(e).__name__, str(e)[:200]),
                        key="wrong-exception")
    raise Violation("%s is accepted" % what, key="accepted")


def sampler(item, R):
    kind = item["sampler"]
    cls = sampler_class(kind)
    setup = Setup(kind)
    refused, late = 0, None
    for k, deviation in enumerate(deviations(setup, item["depth"])):
        if k % item["parts"] != item["part"]:
            continue
        kw, ok = setup.kwargs(deviation)
        what = "%s with %s" % (kind, ", ".join("%s=%r" % (n, (setup.valid if g else setup.invalid)[n][i]) for n, g, i in deviation))
        R.state(kind, deviation)
        R.step()
        if not ok and all(g or n in LATE for n, g, _ in deviation):
            late = late or Setup(kind)          # may have been initialised before
            kw, _ = late.kwargs(deviation)
            with late.graph.as_default():
                rejected(what, lambda: cls(**kw))
            continue
        if not ok:
            with setup.graph.as_default():
                rejected(what, lambda: cls(**kw))
            refused += 1
            # evaluation of the flags every now and then, and at the end
            if refused % 8 == 0 or refused < 4:
                untouched(setup, what, R)
            continue
        # valid calls change the graph: a fresh one for each
        fresh = Setup(kind)
        kw, _ = fresh.kwargs(deviation)
        with fresh.graph.as_default():
            try:
                s = cls(**kw)
                fresh.session.run(tf.global_variables_initializer())
                next(s)
            except Exception as e:
                raise Violation("%s is valid, raises %s: %s" % (what, type(e).__name__, str(e)[:300]), key="valid")
        R.trace()
        fresh.session.close()
        fresh.session_b.close()
    untouched(setup, "some call", R)


def untouched(setup, what, R):
    R.require(not any(setup.session.run(setup.flags)), "rejecting %s gave parameters a value" % what, key="changed")
    R.require(not setup.log, "rejecting %s consumed %r" % (what, setup.log), key="changed")


def session(item, R):
    """Which session is used if none is given."""
    kind = item["sampler"]
    cls = sampler_class(kind)

    def build(setup, cls, **kw):
        kwargs = dict(setup.base)
        kwargs.pop("session")
        kwargs.update(kw)
        return cls(**kwargs)
    for given in ({}, dict(session=None)):
        setup = Setup(kind)
        with setup.graph.as_default():
            rejected("%s without any session" % kind, lambda: build(setup, cls, **given))
            untouched(setup, "no session", R)
            with setup.session_b.as_default():
                s = build(setup, cls, **given)
            R.require(s.session is setup.session_b, "%s does not use the default session" % kind, key="default-session")
            R.require(all(setup.session_b.run(setup.flags)) and not any(setup.session.run(setup.flags)),
                      "parameters initialised in the wrong session", key="default-session")
            setup.session_b.run(tf.global_variables_initializer())
            next(s)
            with setup.session.as_default():
                next(s)           # stays with its session
            R.state(kind, "default", repr(given))
            R.step(2)
        setup = Setup(kind)
        with setup.graph.as_default(), setup.session_b.as_default():
            s = build(setup, cls, session=setup.session)
            R.require(s.session is setup.session, "%s ignores the given session" % kind, key="default-session")
            R.require(all(setup.session.run(setup.flags)) and not any(setup.session_b.run(setup.flags)),
                      "parameters initialised in the wrong session", key="default-session")
            setup.session.run(tf.global_variables_initializer())
            next(s)
            R.state(kind, "given", repr(given))
            R.step()
    # modules imported while some session was the default
    saved = {n: m for n, m in sys.modules.items() if n.split(".")[0] == "pysgmcmc"}
    name = cls.__module__
    try:
        for n in saved:
            del sys.modules[n]
        graph = tf.Graph()
        with tf.Session(graph=graph, config=single_threaded()):
            again = getattr(importlib.import_module(name), cls.__name__)
        setup = Setup(kind)
        with setup.graph.as_default():
            rejected("%s without any session (imported inside of one)" % kind, lambda: build(setup, again))
            with setup.session_b.as_default():
                try:
                    s = build(setup, again)
                except Exception as e:
                    raise Violation("%s, imported while another session was the default, raises %r in a new default session" % (
                        kind, e), key="stale-session")
            R.require(s.session is setup.session_b, "%s uses a session from its import" % kind, key="stale-session")
            R.state(kind, "import")
    finally:
        for n in [n for n in sys.modules if n.split(".")[0] == "pysgmcmc"]:
            del sys.modules[n]
        sys.modules.update(saved)
    R.trace()


class NetworkSetup(object):
    values, kwargs = Setup.values, Setup.kwargs

    def __init__(self, session):
        from pysgmcmc.sampling import Sampler
        from pysgmcmc.data_batches import generate_batches, generate_shuffled_batches
        from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
        count = [0, -1, 1.0, "3", None, [3], 2.5]
        self.invalid = dict(n_nets=count, n_iters=count, sample_steps=count, batch_size=count,
                            burn_in_steps=[-1, -100, 1.0, "3", None, [3]],
                            dtype=[None, "float64", np.float64, float],
                            get_net=[None, 3, "net", []], batch_generator=[None, 5, "x", iter([])],
                            stepsize_schedule=[Partial(()), Partial(("update",)), Partial(("__next__",)),
                                               Partial(("initial_value",)), 0.1, None, [0.1]],
                            sampling_method=[None, 0, "SGHMC", "test", Sampler.SVGD, Sampler.RelativisticSGHMC, []])
        positive = [2, 1, 100]
        self.valid = dict(n_nets=positive, n_iters=positive, sample_steps=positive, batch_size=positive,
                          burn_in_steps=[1, 0, 3000], dtype=[tf.float64, tf.float32],
                          get_net=[lambda inputs, seed, dtype: None, CallableCost(len)],
                          batch_generator=[generate_batches, generate_shuffled_batches, lambda **_: None],
                          stepsize_schedule=[ConstantStepsizeSchedule(0.1), Sched([0.1])],
                          sampling_method=[Sampler.SGHMC, Sampler.SGLD])
        self.base = {k: v[0] for k, v in self.valid.items()}
        self.base["session"] = session


def network(item, R):
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    with tf.Graph().as_default() as graph, MCSession(graph=graph, config=single_threaded()) as sess:
        setup = NetworkSetup(sess)
        n_ops = len(graph.get_operations())
        for k, deviation in enumerate(deviations(setup, item["depth"])):
            if k % item["parts"] != item["part"]:
                continue
            kw, ok = setup.kwargs(deviation)
            what = "network with %s" % ", ".join("%s=%r" % (n, (setup.valid if g else setup.invalid)[n][i]) for n, g, i in deviation)
            R.state("network", deviation)
            R.step()
            if not ok:
                rejected(what, lambda: BayesianNeuralNetwork(**kw))
            else:
                try:
                    BayesianNeuralNetwork(**kw)
                except Exception as e:
                    raise Violation("%s is valid, raises %s: %s" % (what, type(e).__name__, e), key="valid")
                R.trace()
        R.require(len(graph.get_operations()) == n_ops and sess.runs == 0, "constructing networks changes the graph or runs it",
                  key="changed")


class BatchSetup(object):
    values, kwargs = Setup.values, Setup.kwargs

    def __init__(self):
        x = np.arange(12.).reshape(6, 2)
        y = np.arange(6.)
        self.invalid = dict(batch_size=[0, -1, 1.0, "3", None, [2], 2.5],
                            seed=[-1, 1.0, "1", 2.5, 2 ** 32, 2 ** 40, (1,)],
                            y=[np.arange(5.), np.arange(7.), np.zeros(0), np.arange(1.)])
        self.valid = dict(batch_size=[2, 1, 6, 7, 1000], seed=[None, 0, 1, 2 ** 32 - 1], y=[y, y + 1, y.astype(np.float32)])
        self.base = {k: v[0] for k, v in self.valid.items()}
        self.base.update(x=x, x_placeholder="x", y_placeholder="y")


def batches(item, R):
    import pysgmcmc.data_batches as module
    f = getattr(module, item["function"])
    setup = BatchSetup()
    before = {k: [np.array(v).tolist() for v in (setup.valid["y"] + setup.invalid["y"])] for k in "y"}
    for deviation in deviations(setup, 3):
        kw, ok = setup.kwargs(deviation)
        what = "%s with %s" % (item["function"], ", ".join("%s=%r" % (n, (setup.valid if g else setup.invalid)[n][i]) for n, g, i in deviation))
        R.state(item["function"], deviation)
        R.step()
        if not ok:
            rejected(what, lambda: next(f(**kw)))
        else:
            try:
                gen = f(**kw)
                for _ in range(3):
                    batch = next(gen)
                if len(batch["x"]) != min(6, kw["batch_size"]):
                    raise Violation("%s yields %d rows" % (what, len(batch["x"])), key="valid")
            except REJECTIONS + (TypeError, IndexError) as e:
                raise Violation("%s is valid, raises %r" % (what, e), key="valid")
            R.trace()
    R.require(before == {k: [np.array(v).tolist() for v in (setup.valid["y"] + setup.invalid["y"])] for k in "y"},
              "data changed", key="changed")
