"""C36: steps, predictions and traces never grow the graph."""
import itertools

import numpy as np
import tensorflow as tf

from .. import bnn, grids
from ..core import Violation
from ..world import World

BOUNDS = ("Every history of 4 (thorough 5) operations out of step, step with a caller's feed, re-initialisation of the parameters' "
          "values, extraction of a trace of two samples and iteration over two samples, for every sampler, with burn-ins of 0, 2 and "
          "more steps than made, one and several parameters, batches or none: after an operation was done once in a phase, doing it "
          "again adds no operation, variable or collection entry to the graph; 300 (thorough 3000) steps. Networks: 4 (thorough 6) predictions of every kind in "
          "every order after training; test sets of 1..40 rows and up to 5000; trainings of 6 and of 60 iterations build graphs of the same size.")
ASSUMPTIONS = ["a kind of operation may build what it needs when it is used for the first time in a phase"]
TECHNIQUE = "explicit-state exploration: all bounded operation histories on the real implementation, invariant on the graph's size"
OPS = ("step", "feed", "values", "trace", "islice")


def plan(tier, rng):
    out = []
    for kind in ("SGHMC", "SGLD", "Relativistic", "SVGD"):
        for single in (False, True):
            if single and kind == "SVGD":
                continue
            for burn in ((0, 2, 50) if kind in ("SGHMC", "SGLD") else (None,)):
                out.append(dict(kind="sampler", sampler=kind, single=single, burn=burn, batches=not single,
                                depth=5 if tier == "thorough" else 4, weight=3))
    for method in ("SGHMC", "SGLD"):
        out.append(dict(kind="network", method=method, depth=6 if tier == "thorough" else 4, weight=3))
        out.append(dict(kind="iterations", method=method, weight=3))
        out.append(dict(kind="rows", method=method, weight=1))
    for kind in ("SGHMC", "SGLD", "Relativistic", "SVGD"):
        for burn in ((0, 2, 150) if kind in ("SGHMC", "SGLD") else (None,)):
            out.append(dict(kind="endurance", sampler=kind, single=False, burn=burn, batches=True, steps=3000 if tier == "thorough" else 300, weight=2))
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def size(graph):
    return (len(graph.get_operations()), tuple(sorted((str(name), len(graph.get_collection(name))) for name in graph.get_all_collection_keys())))


def endurance(item, R):
    """Hundreds of steps, predictions: what is built is built in the first steps of a phase."""
    world = build(item)
    steps, burn = item["steps"], item["burn"] or 0
    grown = []
    before = size(world.graph)
    for k in range(steps):
        next(world.sampler)
        after = size(world.graph)
        if after != before:
            grown.append(k)
        before = after
        R.step()
        R.state(item["sampler"], item["burn"], k)
    bad = [k for k in grown if k not in (0, burn - 1, burn)]
    R.require(not bad, "steps %r added to the graph" % bad[:10], key="growth", **item)
    R.trace()
    world.close()


def rows(item, R):
    """Test sets of every size up to 40 and larger ones."""
    with bnn.Trained(net="mlp", d=2, n=5, method=item["method"], stepsizes=[1e-3], n_nets=3, n_iters=8, burn_in_steps=1, sample_steps=2) as t:
        with t.graph.as_default():
            for flag in (False, True):
                sizes = list(range(1, 41)) + [64, 100, 101, 333, 1000, 5000, 0]
                grown, before = [], size(t.graph)
                for n in sizes + sizes:
                    t.bnn.predict(np.ones((n, 2)) * 0.25, return_individual_predictions=flag)
                    after = size(t.graph)
                    if after != before:
                        grown.append(n)
                    before = after
                    R.step()
                    R.state(item["method"], flag, n)
                # what different ways of predicting need may be built once, when they are first used
                R.require(len(grown) <= 3 and len(set(grown)) == len(grown), "predictions of %r rows added to the graph" % grown[:8],
                          key="growth", **item)
    R.trace()


def build(item):
    kind = item["sampler"]
    shapes = {"SGHMC": [(2,), ()], "SGLD": [(1, 2), ()], "Relativistic": [(), ()], "SVGD": [(2,), (2,), (2,)]}[kind]
    cfg = dict(sampler=kind, params=grids.params(*(shapes[-1:] if item["single"] else shapes)), dtype="float64",
               cost=dict(name="coupled_batch" if item["batches"] else "quad"), opts=dict(seed=3), eps=[0.01, 0.005],
               batches=grids.BATCHES if item["batches"] else None)
    if item["burn"] is not None:
        cfg["opts"]["burn_in_steps"] = item["burn"]
    if kind == "Relativistic":
        cfg["momenta"] = [0.3]
    return World(cfg)


def sampler(item, R):
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    world = build(item)
    slots = [(v, np.array(world.session.run(v))) for v in world.params]
    done = {}
    steps = 0

    def phase():
        return item["burn"] is not None and steps < item["burn"]

    def operate(op):
        if op == "step":
            next(world.sampler)
            return 1
        if op == "feed":
            world.sampler.__next__(feed_dict={world.user_feed: 2.0})
            return 1
        if op == "values":
            for v, value in slots:
                v.load(value * 1.5, world.session)
            return 0
        if op == "trace":
            PYSGMCMCTrace.from_sampler(chain_id=0, sampler=world.sampler, n_samples=2)
            return 2
        return sum(1 for _ in itertools.islice(world.sampler, 2))
    start = world.snapshot()
    for history in itertools.product(OPS, repeat=item["depth"]):
        if "step" not in history and "trace" not in history:
            continue
        world.restore(start)
        steps = 0
        for k, op in enumerate(history):
            before = size(world.graph)
            first = phase()
            n = operate(op)
            steps += n
            after = size(world.graph)
            key = op, first, phase()
            if after != before:
                if key in done:
                    raise Violation("operation %r added %d operations to the graph although it had been done before (after %d steps)" % (
                        op, after[0] - before[0], steps), key="growth", history=history[:k + 1], **item)
            done[key] = True
            R.step()
        R.state(sorted(item.items()), history)
    R.trace()
    world.close()


def network(item, R):
    points = [np.array([[0.1, 0.2]]), np.array([[0.1, 0.2], [-1.0, 3.0], [0.0, 0.0]])]
    ops = [(p, flag) for p in range(2) for flag in (False, True)]
    with bnn.Trained(net="mlp", d=2, n=5, method=item["method"], stepsizes=[1e-3], n_nets=3, n_iters=8, burn_in_steps=1, sample_steps=2) as t:
        done = set()
        with t.graph.as_default():
            for history in itertools.product(range(len(ops)), repeat=item["depth"]):
                for k, i in enumerate(history):
                    p, flag = ops[i]
                    before = size(t.graph)
                    t.bnn.predict(points[p], return_individual_predictions=flag)
                    after = size(t.graph)
                    if after != before and flag in done:
                        raise Violation("predict added %d operations to the graph" % (after[0] - before[0]), key="growth", history=history[:k + 1], **item)
                    done.add(flag)
                    R.step()
                R.state(item["method"], history)
    R.trace()


def iterations(item, R):
    sizes = {}
    for n in (6, 60):
        for nets in (2, 20):
            with bnn.Trained(net="mlp", d=2, n=5, method=item["method"], stepsizes=[1e-3], n_nets=nets, n_iters=n, burn_in_steps=1, sample_steps=1) as t:
                # trainings that end within burn-in do without what comes after it
                sizes[n, nets] = size(t.graph)
                R.step(t.steps)
                R.state(item["method"], n, nets)
    if len(set(sizes.values())) != 1:
        raise Violation("graphs of trainings with (iterations, networks): %r" % {k: v[0] for k, v in sizes.items()}, key="growth", **item)
    R.trace()
