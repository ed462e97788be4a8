"""C38: a chain does not depend on how and where its sampler is consumed."""
import contextlib
import itertools
import threading

import numpy as np
import tensorflow as tf

from .. import bnn, grids
from ..core import Violation
from ..world import Sched, World

BOUNDS = ("Every history of 3 (thorough 4) uses of a sampler out of: next, the method itself, a new iterator, the same "
          "iterator again, a for loop left after one or two samples, islice from 0 and with a start and a step, islice of nothing, zip "
          "with a shorter list, a generator expression, star-unpacking of an islice; every sequence of 4 (thorough 5) steps each made in one of: no context, "
          "own graph and session as default, another graph as default, another session as default, another thread, two nested contexts; for every sampler, burn-in "
          "0, 2 and longer than the history, seeded, compared bit by bit with a sampler stepped by next alone. Predictions of a trained "
          "network in every sequence of 2 such contexts, with its sampler stepped, its variables overwritten and the defaults reset in between.")
ASSUMPTIONS = ["executor with a single thread", "zip and islice draw what python's semantics say"]
TECHNIQUE = "explicit-state exploration: all bounded use histories on real seeded samplers, bit-exact differential oracle"
USES = ("next", "method", "iter", "again", "for1", "for2", "islice2", "window", "nothing", "zip", "genexp", "star")
PLACES = ("none", "own", "graph", "session", "thread", "nested")


def plan(tier, rng):
    out = []
    for kind in ("SGHMC", "SGLD", "Relativistic", "SVGD"):
        for burn in ((0, 2, 99) if kind in ("SGHMC", "SGLD") else (None,)):
            for single in (False, True):
                if single and (kind == "SVGD" or tier != "thorough" and burn != 2):
                    continue
                out.append(dict(kind="uses", sampler=kind, burn=burn, single=single, depth=4 if tier == "thorough" else 3, weight=5))
                out.append(dict(kind="places", sampler=kind, burn=burn, single=single, depth=5 if tier == "thorough" else 4, weight=5))
    for method in ("SGHMC", "SGLD"):
        out.append(dict(kind="predictions", method=method, weight=2))
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def build(item, schedule):
    kind = item["sampler"]
    shapes = {"SGHMC": [(2,), ()], "SGLD": [(1, 2), ()], "Relativistic": [(), ()], "SVGD": [(2,), (2,), (2,)]}[kind]
    cfg = dict(sampler=kind, params=grids.params(*(shapes[-1:] if item["single"] else shapes)), dtype="float64", cost=dict(name="coupled_batch"),
               opts=dict(seed=7), eps=[0.05, 0.03, 0.04], batches=grids.BATCHES)
    if item["burn"] is not None:
        cfg["opts"]["burn_in_steps"] = item["burn"]
    if kind == "Relativistic":
        cfg["momenta"] = [0.3, -0.2]
    return World(cfg, schedule=schedule)


class NoisySched(Sched):
    """A schedule that, as a step takes its stepsize, chooses the step's noise."""
    world = noise = None

    def __next__(self):
        self.world.set_noise(self.noise[self.position % 16])
        return super().__next__()


class Fed(object):
    """A world whose noise is a fixed function of the step."""

    def __init__(self, item):
        schedule = NoisySched([0.05, 0.03, 0.04])
        self.world = world = build(item, schedule)
        schedule.world = world
        schedule.noise = [np.array([((5 * k + 3 * j) % 7 - 3) / 2. for j in range(world.n_noise)]) for k in range(16)]
        self.start = world.snapshot()

    @property
    def steps(self):
        return self.world.schedule.position

    def rewind(self):
        self.world.restore(self.start)

    def row(self, pair):
        sample, cost = pair
        return self.world.normalise(sample).tobytes(), np.array(cost).tobytes()


def reference(fed, n):
    fed.rewind()
    return [fed.row(next(fed.world.sampler)) for _ in range(n)]


def uses(item, R):
    fed = Fed(item)
    sampler = fed.world.sampler
    want = reference(fed, 4 * item["depth"] + 2)
    for history in itertools.product(USES, repeat=item["depth"]):
        fed.rewind()
        position, rows = 0, []          # rows: (index in the chain, row)
        iterator = [None]
        for use in history:
            n = position
            if use == "next":
                got, skip = [next(sampler)], [0]
            elif use == "method":
                got, skip = [sampler.__next__()], [0]
            elif use == "iter":
                iterator[0] = iter(sampler)
                got, skip = [next(iterator[0])], [0]
            elif use == "again":
                iterator[0] = iterator[0] or iter(sampler)
                got, skip = [next(iterator[0]), next(iterator[0])], [0, 1]
            elif use in ("for1", "for2"):
                got = []
                for pair in sampler:
                    got.append(pair)
                    if len(got) == int(use[-1]):
                        break
                skip = list(range(len(got)))
            elif use == "islice2":
                got, skip = list(itertools.islice(sampler, 2)), [0, 1]
            elif use == "window":
                got, skip = list(itertools.islice(sampler, 1, 4, 2)), [1, 3]
            elif use == "nothing":
                got, skip = list(itertools.islice(sampler, 0)), []
            elif use == "zip":
                got, skip = [pair for _, pair in zip([1, 2], sampler)], [0, 1]
            elif use == "genexp":
                source = (pair for pair in sampler)
                got, skip = [next(source)], [0]
                source.close()
            else:
                got, skip = [*itertools.islice(sampler, 1)], [0]
            drawn = skip[-1] + 1 if skip else 0
            if len(got) != len(skip):
                raise Violation("%s gave %d samples instead of %d" % (use, len(got), len(skip)), key="number", history=history)
            rows += [(n + k, fed.row(pair)) for k, pair in zip(skip, got)]
            position += drawn
            if fed.steps != position:
                raise Violation("after %s the chain stands at step %d instead of %d" % (use, fed.steps, position), key="position", history=history)
            R.step(drawn)
        for index, row in rows:
            if row != want[index]:
                raise Violation("sample %d differs from the one next gives" % index, key="chain", history=history, **item)
        R.state(sorted(item.items()), history)
    R.trace()
    fed.world.close()


@contextlib.contextmanager
def place(name, graph, session, other_graph, other_session):
    with contextlib.ExitStack() as stack:
        if name == "own":
            stack.enter_context(graph.as_default())
            stack.enter_context(session.as_default())
        elif name == "graph":
            stack.enter_context(other_graph.as_default())
        elif name == "session":
            stack.enter_context(other_session.as_default())
        elif name == "nested":
            stack.enter_context(session.as_default())
            stack.enter_context(other_graph.as_default())
            stack.enter_context(other_session.as_default())
            stack.enter_context(tf.name_scope("scope"))
        yield


def run_at(name, call, *where):
    if name != "thread":
        with place(name, *where):
            return call()
    out = []

    def body():
        try:
            out.append((True, call()))
        except BaseException as e:
            out.append((False, e))
    thread = threading.Thread(target=body)
    thread.start()
    thread.join()
    if not out[0][0]:
        raise out[0][1]
    return out[0][1]


def elsewhere():
    other = tf.Graph()
    with other.as_default():
        tf.Variable(3.0, name="elsewhere")
    return other, tf.Session(graph=other)


def places(item, R):
    fed = Fed(item)
    world = fed.world
    want = reference(fed, item["depth"])
    where = (world.graph, world.session) + elsewhere()
    for history in itertools.product(PLACES, repeat=item["depth"]):
        fed.rewind()
        for k, name in enumerate(history):
            try:
                row = fed.row(run_at(name, lambda: next(world.sampler), *where))
            except Violation:
                raise
            except Exception as e:
                raise Violation("a step in context %r fails: %r" % (name, e), key="context", history=history, **item)
            if row != want[k]:
                raise Violation("step %d in context %r differs" % (k, name), key="context", history=history, **item)
            R.step()
        R.state(sorted(item.items()), history)
    R.trace()
    where[-1].close()
    world.close()


def predictions(item, R):
    with bnn.Trained(net="mlp", d=2, n=5, method=item["method"], stepsizes=[1e-3], n_nets=3, n_iters=8, burn_in_steps=1, sample_steps=2) as t:
        test = np.array([[0.1, 0.2], [-1.0, 3.0]])
        want = [np.array(v) for v in t.bnn.predict(test) + tuple(t.bnn.predict(test, return_individual_predictions=True))]
        where = (t.graph, t.session) + elsewhere()
        events = ("nothing", "step", "overwrite", "reset")
        for history in itertools.product(itertools.product(PLACES, events), repeat=2):
            for name, event in history:
                if event == "step" and hasattr(t.bnn, "sampler"):
                    next(t.bnn.sampler)
                elif event == "overwrite":
                    for k, v in enumerate(t.get_net.variables):
                        v.load(np.full(v.shape.as_list(), 9.0 + k), t.session)
                elif event == "reset":
                    with t.graph.as_default():
                        t.reset = getattr(t, "reset", None) or tf.global_variables_initializer()
                        t.session.run(t.reset)
                try:
                    got = run_at(name, lambda: t.bnn.predict(test) + tuple(t.bnn.predict(test, return_individual_predictions=True)), *where)
                except Exception as e:
                    raise Violation("predict in context %r after %r fails: %r" % (name, event, e), key="predict", history=history, **item)
                if not all(np.array_equal(g, w) for g, w in zip(got, want)):
                    raise Violation("predictions in context %r after %r are %r instead of %r" % (
                        name, event, [np.asarray(g).tolist() for g in got], [w.tolist() for w in want]), key="predict", history=history, **item)
                R.step()
            R.state(item["method"], history)
        where[-1].close()
    R.trace()
