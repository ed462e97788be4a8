"""C08: seeded chains are reproducible and isolated from each other."""
import itertools
import random

import numpy as np
import tensorflow as tf

from .. import fresh, grids
from ..world import MCSession, World, single_threaded

BOUNDS = ("Every merge of the histories [construct, step, step] (different samplers or seeds: [construct, step]; thorough: three "
          "steps) of two chains (all pairs of samplers, equal and different seeds; own graphs and sessions, or one "
          "graph and session for both), with uses of the global "
          "generators of numpy, python and tensorflow (other graphs) between all operations and other sessions (also of the same graph) being the default one, samples and costs "
          "compared bit by bit with those of the chain on its own; triples of chains in rotation; seeds 0..6 (thorough 0..23) and "
          "extremes: equal seeds equal chains, different seeds pairwise different chains; chains of all samplers, three seeds, equal bit by bit in "
          "three further processes (with different hash salts) and in this one.")
ASSUMPTIONS = ["executor with a single thread"]
KINDS = ("SGHMC", "SGLD", "Relativistic", "SVGD")


def config(kind, seed, variant=0):
    shapes = {"SGHMC": [(2,), ()], "SGLD": [(), (1, 2)], "Relativistic": [(), ()], "SVGD": [(2,), (2,), (2,)]}[kind]
    if variant:
        shapes = shapes[:1] + shapes
    opts = dict(seed=seed)
    if kind in ("SGHMC", "SGLD"):
        opts["burn_in_steps"] = 2
    return dict(sampler=kind, params=grids.params(*shapes), dtype="float64", cost=dict(name="coupled_batch"),
                opts=opts, eps=[0.05, 0.03], batches=grids.BATCHES)


def plan(tier, rng):
    out = []
    for a, b in itertools.combinations_with_replacement(KINDS, 2):
        for seeds in ((3, 3), (3, 4)):
            for shared in (False, True):
                if tier != "thorough" and seeds == (3, 4) and (shared or a != b):
                    continue
                steps = 3 if tier == "thorough" else (2 if a == b and not shared and seeds == (3, 3) else 1)
                for first in range(steps + 2):       # chain 0 makes that many operations first
                    out.append(dict(kind="merge", chains=[config(a, seeds[0]), config(b, seeds[1], a == b)],
                                    shared=shared, first=first, steps=steps, weight=3))
    for kind in KINDS:
        out.append(dict(kind="seeds", sampler=kind, seeds=list(range(24 if tier == "thorough" else 7)) +
                        [10 ** 6, 2 ** 31 - 1, 2 ** 32 - 1, 65537, 65521 * 65537, 2 ** 31, 4190266080, 10 ** 9] +
                        ([-1, -2, 2 ** 32 + 1, -2 ** 31, 2 ** 40 + 1] if kind in ("SGHMC", "SGLD") else []), weight=3))
        out.append(dict(kind="default-schedule", sampler=kind, weight=1))
    out.append(dict(kind="processes", weight=6))
    for order in itertools.combinations(KINDS, 3):
        out.append(dict(kind="rotate", chains=[config(k, 5) for k in order], weight=1))
    return out


class Chain(object):
    def __init__(self, cfg, shared=None):
        self.cfg, self.shared, self.rows, self.world = cfg, shared, [], None

    def advance(self):
        if self.world is None:
            kw = {}
            if self.shared:
                kw = dict(graph=self.shared[0], session=self.shared[1])
            self.world = World(self.cfg, free_noise=True, **kw)
            return
        sample, cost = next(self.world.sampler)
        self.rows.append((self.world.normalise(sample).tobytes(), np.array(cost).tobytes()))

    def close(self):
        if self.world is not None and not self.shared:
            self.world.close()


def disturb(k):
    np.random.seed(k)
    np.random.rand(3)
    random.seed(k)
    random.random()
    if k % 2:
        with tf.Graph().as_default():
            tf.set_random_seed(k)
            with tf.Session(config=single_threaded()) as session:
                session.run(tf.random_normal((2,), seed=3))


_alone = {}


def alone(cfg, steps):
    key = repr(cfg), steps
    if key not in _alone:
        chain = Chain(cfg)
        for _ in range(steps + 1):
            chain.advance()
        chain.close()
        _alone[key] = chain.rows
    return _alone[key]


def check(item, R):
    R.sample(item)
    if item["kind"] == "merge":
        steps = item["steps"]
        for positions in itertools.combinations(range(2 * steps + 2), steps + 1):
            order = [0 if i in positions else 1 for i in range(2 * steps + 2)]
            if order.index(1) != item["first"]:
                continue
            run(item, order, steps, R)
    elif item["kind"] == "rotate":
        run(item, [0, 1, 2] * 5, 4, R)
        run(item, [0] * 5 + [2] + [1, 2] * 4 + [1], 4, R)
    elif item["kind"] == "processes":
        fresh.compare("chains", R, "processes")
    elif item["kind"] == "default-schedule":
        defaults(item, R)
    else:
        chains = {}
        for seed in item["seeds"]:
            cfg = config(item["sampler"], seed)
            rows = alone(cfg, 3)
            again = Chain(cfg)
            disturb(seed % 97)
            for _ in range(4):
                again.advance()
            again.close()
            R.step(8)
            R.state(item["sampler"], seed, rows)
            R.require(again.rows == rows, "two %s chains with seed %d differ" % (item["sampler"], seed), key="seed")
            if item["sampler"] != "SVGD":
                for other, theirs in chains.items():
                    for k in range(3):
                        R.require(theirs[k][0] != rows[k][0], "%s chains with seeds %d and %d have the same sample %d" % (
                            item["sampler"], seed, other, k), key="seed")
            chains[seed] = rows
            R.trace()


def run(item, order, steps, R):
    shared = None
    if item.get("shared"):
        graph = tf.Graph()
        shared = graph, MCSession(graph=graph, config=single_threaded())
    chains = [Chain(cfg, shared) for cfg in item["chains"]]
    strangers = [tf.Session(graph=graph, config=single_threaded()) for graph in [tf.Graph()] + ([shared[0]] if shared else [])]
    for k, which in enumerate(order):
        disturb(k)
        if k % 2:       # inside the session of somebody else
            with strangers[k // 2 % len(strangers)].as_default():
                chains[which].advance()
        else:
            chains[which].advance()
        R.step()
    for stranger in strangers:
        stranger.close()
    for which, chain in enumerate(chains):
        want = alone(chain.cfg, steps)
        R.state(item["chains"], which, order, item.get("shared"))
        equal = [a == b for a, b in zip(chain.rows, want)]
        R.require(all(equal), "%s chain with seed %r is not the chain it is on its own (steps equal: %r)" % (
            chain.cfg["sampler"], chain.cfg["opts"]["seed"], equal), key="isolation",
            order=order, chains=item["chains"], shared=item.get("shared"))
        chain.close()
    if shared:
        shared[1].close()
    R.trace()


def defaults(item, R):
    """Samplers that all use the default schedule, whatever others do to theirs."""
    from ..world import sampler_class, PARAM_KW
    kind = item["sampler"]

    def build(seed, wild):
        graph = tf.Graph()
        session = MCSession(graph=graph, config=single_threaded())
        with graph.as_default():
            dtype = tf.float32 if wild else tf.float64
            x = [tf.Variable(0.5 + i, dtype=dtype) for i in range(2)]
            if kind == "SVGD":
                x = [tf.Variable([0.5, 1. + i], dtype=dtype) for i in range(2)]
            kw = {PARAM_KW.get(kind, "params"): x}
            cost = (lambda p: tf.reduce_sum(p ** 2)) if kind == "SVGD" else (lambda p: p[0] ** 2 + p[1] ** 2)
            sampler = sampler_class(kind)(cost_fun=cost, session=session, seed=seed, dtype=dtype, **kw)
            session.run(tf.global_variables_initializer())
        return session, sampler

    def steps(sampler, n):
        return [(np.asarray(s).tobytes(), np.asarray(c).tobytes()) for s, c in (next(sampler) for _ in range(n))]
    session, sampler = build(1, False)
    want = steps(sampler, 4)
    session.close()
    pairs = [build(1, False), build(2, True), build(1, False)]
    rows = [[], [], []]
    for k in range(4):
        for i, (_, sampler) in enumerate(pairs):
            rows[i] += steps(sampler, 1)
            R.step()
    R.state(kind, want)
    R.require(rows[0] == want and rows[2] == want, "chains with default options depend on other samplers", key="isolation")
    R.trace()
    for session, _ in pairs:
        session.close()
