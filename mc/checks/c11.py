"""C11: returned samples never change; what the user hands over is never modified."""
import itertools

import numpy as np
import tensorflow as tf

from .. import grids, refs
from ..core import Violation
from ..explore import Tol
from ..world import World

BOUNDS = ("All four samplers, burn-in 0/1/2/3, 1-3 parameters of different shapes, float32/float64: every sequence over "
          "{step, feeding step, step and overwrite the sample just returned, step and overwrite all samples returned so "
          "far, step with a source that reuses its buffer and dictionary, step with read-only batch} of length 4 "
          "(thorough 5), followed by 3 plain steps; all samples, costs, batches, dictionaries and lists ever exchanged "
          "are compared bit by bit with copies made at once, after every step; every step equals the reference, so "
          "overwriting has no influence on the chain. Plain runs of 300 (thorough 2000) steps (up to 200 of them in burn-in), all results compared with copies.")
ASSUMPTIONS = ["noise fed as 0"]
OPS = ["step", "feed", "overwrite", "overwrite-all", "reuse", "readonly"]
EPS = [0.05, 0.02, 0.03, 0.04]


def plan(tier, rng):
    out = []

    def add(sampler, shapes, cost, opts, dtype="float64"):
        cfg = dict(sampler=sampler, params=grids.params(*shapes), dtype=dtype, cost=dict(name=cost, user_feed=True),
                   opts=opts, eps=EPS, batches=grids.BATCHES if "batch" in cost else None)
        if sampler == "Relativistic":
            cfg["momenta"] = [0.4, -1.3, 2.1]
        for first in OPS:
            out.append(dict(kind="sequences", cfg=cfg, first=first, length=5 if tier == "thorough" else 4, weight=2))
    for sampler in ("SGHMC", "SGLD"):
        for burn in (0, 2, 3):
            add(sampler, [(2,), ()], "coupled_batch", dict(burn_in_steps=burn))
        add(sampler, [(2,)], "quad_batch", dict(burn_in_steps=2))
        add(sampler, [(), (1, 2), (2,)], "coupled", dict(burn_in_steps=1), dtype="float32")
    add("Relativistic", [()], "quad_batch", {})
    add("Relativistic", [(), (1,), ()], "coupled_batch", {})
    add("SVGD", [(2,), (2,), (2,)], "quad_batch", {})
    for last in {item["cfg"]["sampler"] + str(len(item["cfg"]["params"])): item for item in out}.values():
        out.append(dict(kind="long", cfg=last["cfg"], steps=2000 if tier == "thorough" else 300, weight=4))
        if "burn_in_steps" in last["cfg"]["opts"]:
            cfg = dict(last["cfg"], opts=dict(last["cfg"]["opts"], burn_in_steps=200))
            out.append(dict(kind="long", cfg=cfg, steps=2000 if tier == "thorough" else 300, weight=4))
    return out


class Source(object):
    """Yields batches in the ways users do; remembers what it handed out."""

    def __init__(self, placeholder, values, dtype):
        self.placeholder, self.dtype = placeholder, dtype
        self.values = [np.asarray(v, dtype=dtype) for v in values]
        self.buffer, self.bag = None, {}
        self.mode, self.handed = "fresh", None
        self.position_ = 0

    def __iter__(self):
        return self

    def __next__(self):
        value = self.values[self.position_ % len(self.values)]
        self.position_ += 1
        if self.mode == "reuse":
            if self.buffer is None or self.buffer.shape != value.shape:
                self.buffer = value.copy()
            self.buffer[...] = value
            self.bag[self.placeholder] = self.buffer
            self.handed = self.bag, self.buffer, value.copy()
            return self.bag
        array = value.copy()
        if self.mode == "readonly":
            array.flags.writeable = False
        self.handed = {self.placeholder: array}, array, value.copy()
        return self.handed[0]


def build(cfg):
    def before(world):
        world.source = None
        if cfg["batches"]:
            world.source = Source(world.placeholder, cfg["batches"], world.np_dtype)
            world.kwargs["batch_generator"] = world.batches = world.source
        world.list_given = world.kwargs["particles" if cfg["sampler"] == "SVGD" else "params"]
        world.list_copy = list(world.list_given)
        world.kwargs_copy = dict(world.kwargs)
    return World(cfg, before=before)


def check(item, R):
    R.sample(item)
    cfg = item["cfg"]
    if item["kind"] == "long":
        return endurance(item, R)
    world = build(cfg)
    snap = world.snapshot()
    for path in itertools.product(OPS, repeat=item["length"] - 1):
        path = (item["first"],) + path + ("step", "step", "step")
        if cfg["batches"] is None and ("reuse" in path or "readonly" in path):
            continue
        world.restore(snap)
        try:
            walk(world, cfg, path, R)
        except Violation:
            world.close()
            world = build(cfg)
            walk(world, cfg, path, R)
            world = build(cfg)
            snap = world.snapshot()
            R.count("fresh_mode")
    world.close()


def arrays_of(x):
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays_of(v)]
    return [x] if isinstance(x, np.ndarray) else []


def freeze(x):
    if isinstance(x, (list, tuple)):
        return type(x).__name__, len(x), [freeze(v) for v in x]
    a = np.asarray(x)
    return str(a.dtype), a.shape, a.tobytes()


def endurance(item, R):
    """Everything a long run returned stays as it was."""
    world = build(item["cfg"])
    kept, owners = [], {}
    for k in range(item["steps"]):
        sample, cost = next(world.sampler)
        parts = arrays_of(sample) + arrays_of(cost)
        for a in parts:
            start = a.__array_interface__["data"][0]
            for j in owners.get(start, ()):
                if any(np.shares_memory(a, b) for b in arrays_of(kept[j][0]) + arrays_of(kept[j][1])):
                    raise Violation("samples %d and %d share memory" % (j, k), key="shared", cfg=item["cfg"])
            owners.setdefault(start, []).append(k)
        kept.append((sample, cost, freeze(sample), freeze(cost)))
        R.step()
        if k % 50 == 49 or k == item["steps"] - 1:
            for j, (s, c, fs, fc) in enumerate(kept):
                R.require(freeze(s) == fs, "sample %d changed until step %d" % (j, k), key="sample", cfg=item["cfg"])
                R.require(freeze(c) == fc, "cost %d changed until step %d" % (j, k), key="returned-cost", cfg=item["cfg"])
        R.state(item["cfg"], k)
    R.trace()
    world.close()


def walk(world, cfg, path, R):
    tol = Tol(cfg["dtype"])
    chain = refs.Chain(world)
    kept = []                      # [sample, cost, frozen]
    if world.source is not None:
        world.source.position_, world.source.buffer, world.source.bag = 0, None, {}
    for k, op in enumerate(path):
        where = dict(path=path, step=k, cfg=cfg)
        u, feed, before = 1., None, None
        if world.source is not None:
            world.source.mode = op if op in ("reuse", "readonly") else "fresh"
        if op == "feed":
            u = 2.
            value = np.asarray(u, dtype=world.np_dtype)
            feed = {world.user_feed: value}
            sample, cost = world.sampler.__next__(feed_dict=feed)
            R.require(list(feed) == [world.user_feed] and feed[world.user_feed] is value and float(value) == u,
                      "the caller's feed_dict was modified: %r" % feed, key="feed", **where)
        else:
            sample, cost = next(world.sampler)
        R.step()
        batch = None
        if world.source is not None:
            bag, array, value = world.source.handed
            R.require(list(bag) == [world.placeholder] and bag[world.placeholder] is array,
                      "dictionary of the batch source was modified: %r" % bag, key="batch", **where)
            R.require(np.array_equal(array, value), "batch was modified", key="batch", **where)
            batch = cfg["batches"][k % len(cfg["batches"])]
        want, want_cost = chain.step(batch, EPS[(k) % len(EPS)], u)
        got = world.normalise(sample)
        R.require(tol.close(got, want, 20 * (1 + np.max(np.abs(want)))), "step %d is %r, should be %r" % (
            k, got.tolist(), want.tolist()), key="step", **where)
        R.require(tol.close(np.ravel(cost), np.ravel(want_cost), 1 + np.max(np.abs(want_cost))), "cost %r, should be %r" % (
            np.ravel(cost).tolist(), np.ravel(want_cost).tolist()), key="cost", **where)
        for j, (s, c, frozen) in enumerate(kept):
            R.require(freeze(s) == frozen[0], "sample %d changed in step %d" % (j, k), key="sample", **where)
            R.require(freeze(c) == frozen[1], "cost %d changed in step %d" % (j, k), key="returned-cost", **where)
            for a in arrays_of(s) + arrays_of(c):
                for b in arrays_of(sample) + arrays_of(cost):
                    R.require(not np.shares_memory(a, b), "samples %d and %d share memory" % (j, k), key="shared", **where)
        own = arrays_of(sample) + arrays_of(cost)
        for a, b in itertools.combinations(own, 2):
            R.require(not np.shares_memory(a, b), "parts of sample %d share memory" % k, key="shared", **where)
        kept.append([sample, cost, (freeze(sample), freeze(cost))])
        if op.startswith("overwrite"):
            for entry in (kept if op == "overwrite-all" else kept[-1:]):
                for a in arrays_of(entry[0]):
                    if a.flags.writeable:
                        a[...] = 1e3 + k
                if isinstance(entry[0], list):
                    entry[0].append("user")
                    entry[0].pop()
                entry[2] = freeze(entry[0]), freeze(entry[1])
            session = world.theta()
            R.require(np.array_equal(session, got), "overwriting a returned sample changed the parameters",
                      key="overwrite", **where)
        R.require(len(world.list_given) == len(world.list_copy) and
                  all(a is b for a, b in zip(world.list_given, world.list_copy)),
                  "the caller's list of parameters was modified", key="list", **where)
        R.state(cfg, path[:k + 1])
    R.trace()
