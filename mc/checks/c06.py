"""C06: one batch and one stepsize per step, in order, with current cost."""
import copy
import itertools

import numpy as np

from .. import grids, refs
from ..core import Violation
from ..explore import Tol
from ..world import Batches, Sched, World

BOUNDS = ("All four samplers, 1-3 parameters, burn-in 0/1/2/4 where there is one, with and without batches: every "
          "sequence of {next(), next with a placeholder fed (2 values), next with an empty dict, next with a reused "
          "dict} of length 4, 5 for burn-in 4 (thorough 6, 7), fixed and reactive stepsize scripts; paths of 270 (thorough 3000) steps. Every step: exactly one batch, one "
          "stepsize, one schedule update with the returned pair, iteration count, step and cost equal to those of the "
          "reference for exactly that batch, stepsize and feed; sample equal to the session's values.")
ASSUMPTIONS = ["noise fed as 0, so that the step exposes the batch, stepsize and feed that were used"]

CALLS = ["plain", "feed2", "feed-1", "empty", "reuse"]
SCRIPT = [0.05, 0.02, 0.08, 0.03, 0.06, 0.01, 0.07]


class Reactive(Sched):
    """Shrinks when the cost rose, depends on every sample it is told."""

    def __init__(self, log):
        super().__init__([0.05], log=log)
        self.last, self.next_value, self.told = None, 0.05, 0

    def react(self, sample, cost):
        total = float(np.sum(cost))
        self.next_value = 0.05 if self.last is None else (0.02 if total > self.last else 0.06)
        self.next_value += 1e-3 * float(np.tanh(sum(np.sum(a) for a in np.asarray(sample, dtype=object).ravel())))
        self.last, self.told = total, self.told + 1

    def __next__(self):
        value = super().__next__()
        del value
        return self.next_value

    def update(self, *args, **kwargs):
        super().update(*args, **kwargs)
        sample, cost = (list(args) + list(kwargs.values()))[:2]
        self.react(np.concatenate([np.ravel(a) for a in (sample if isinstance(sample, (list, tuple)) else [sample])]), cost)


def plan(tier, rng):
    out = []
    length = 6 if tier == "thorough" else 4

    def add(sampler, shapes, cost, opts, **kw):
        cfg = dict(sampler=sampler, params=grids.params(*shapes), dtype=kw.pop("dtype", "float64"),
                   cost=dict(name=cost, user_feed=cost != "first"), opts=opts, eps=SCRIPT,
                   batches=grids.BATCHES if "batch" in cost else None)
        if sampler == "Relativistic":
            cfg["momenta"] = [0.4, -1.3, 2.1]
        for reactive in (False, True):
            out.append(dict(kind="seq", cfg=cfg, length=length + (opts.get("burn_in_steps") == 4) - (1 if reactive else 0), reactive=reactive,
                            weight=2, **kw))
    for sampler in ("SGHMC", "SGLD"):
        for burn in (0, 1, 2, 4):
            add(sampler, [(2,), ()], "coupled_batch", dict(burn_in_steps=burn))
            add(sampler, [(2,)], "quad_batch", dict(burn_in_steps=burn))
        add(sampler, [(), (1, 2), (2,)], "coupled", dict(burn_in_steps=2))
        add(sampler, [()], "quartic_batch", dict(burn_in_steps=2), dtype="float32")
        add(sampler, [(1,)], "first", dict(burn_in_steps=2))
    add("Relativistic", [()], "first", {})
    add("Relativistic", [(), (1,)], "coupled_batch", {})
    add("Relativistic", [()], "quad_batch", {})
    add("Relativistic", [(), (), ()], "coupled", {})
    add("SVGD", [(2,), (2,), (2,)], "quad_batch", {})
    add("SVGD", [(1,), (1,)], "coupled", {})
    steps = 3000 if tier == "thorough" else 270
    for k in [i for i, it in enumerate(out) if it["cfg"]["cost"]["name"] == "coupled_batch" or it["cfg"]["sampler"] == "SVGD"]:
        # settles: the target is confining and steps are small
        if not out[k]["cfg"]["opts"].get("burn_in_steps", 2) in (2, 4):
            continue
        out.append(dict(out[k], kind="long", length=steps, weight=3))
    return out


def check(item, R):
    cfg = item["cfg"]
    R.sample(dict(cfg=cfg, length=item["length"], reactive=item["reactive"]))
    world, snap0 = None, None
    if item["kind"] == "long":
        world = build(cfg, item)
        walk(world, cfg, item, [("plain", "plain", "empty", "feed2", "reuse")[k % 5 if k % 7 else 0] for k in range(item["length"])], R)
        world.close()
        return
    for path in itertools.product(CALLS, repeat=item["length"]):
        # 'reuse' only makes sense after another feeding call; one feed value early on
        if path[0] == "reuse" or sum(c == "empty" for c in path) > 1 or sum(c == "feed-1" for c in path) > 1:
            continue
        if world is None:
            world = build(cfg, item)
            snap0 = world.snapshot()
        world.restore(snap0)
        try:
            walk(world, cfg, item, path, R)
        except Violation:
            fresh = build(cfg, item)
            walk(fresh, cfg, item, path, R)       # confirmed without snapshots
            fresh.close()
            # state the snapshot cannot hold: continue with fresh samplers only
            world.close()
            world = None
            R.count("fresh_mode")
    if world is not None:
        world.close()


def build(cfg, item):
    if not item["reactive"]:
        return World(cfg)
    log = []
    world = World(cfg, schedule=Reactive(log))
    if world.batches is not None:
        world.batches.log = log
    world.log = log
    return world


def walk(world, cfg, item, path, R):
    tol = Tol(cfg["dtype"])
    chain = refs.Chain(world)
    reused = {}
    shadow = Reactive([]) if item["reactive"] else None
    n0 = world.sampler.n_iterations
    for k, call in enumerate(path):
        where = dict(path=path[:6], step=k, cfg=cfg)
        n_log = len(world.log)
        batch = cfg["batches"][k % len(cfg["batches"])] if cfg["batches"] else None
        eps = shadow.next_value if shadow else SCRIPT[k % len(SCRIPT)]
        u, before = 1., None
        if call == "plain":
            sample, cost = next(world.sampler)
        else:
            if call == "empty":
                feed = {}
            elif call == "reuse":
                feed = reused
                u = float(feed.get(world.user_feed, 1.))
            else:
                u = float(call[4:]) if cfg["cost"]["user_feed"] else 1.
                feed = {world.user_feed: np.asarray(u, dtype=world.np_dtype)}
                reused = feed
            before = dict(feed)
            sample, cost = world.sampler.__next__(feed_dict=feed)
        R.step()
        new = world.log[n_log:]
        kinds = [e[0] for e in new]
        R.require(kinds.count("batch") == (1 if batch is not None else 0) and
                  (batch is None or ("batch", k) in new),
                  "step %d consumed batches %r" % (k, [e for e in new if e[0] == "batch"]), key="batch-count", **where)
        R.require(kinds.count("stepsize") == 1 and ("stepsize", k) in new,
                  "step %d consumed stepsizes %r" % (k, [e for e in new if e[0] == "stepsize"]), key="stepsize-count", **where)
        R.require(kinds.count("update") == 1 and kinds[-1] == "update",
                  "step %d informed the schedule %d times" % (k, kinds.count("update")), key="update-count", **where)
        R.require(world.sampler.n_iterations - n0 == k + 1, "%r iterations counted after %d steps" % (
            world.sampler.n_iterations - n0, k + 1), key="iterations", **where)
        told = list(new[-1][1]) + list(new[-1][2].values())
        R.require(len(told) >= 2, "schedule informed without sample and cost", key="update-args", **where)
        flat_told, flat = world.normalise(told[0]), world.normalise(sample)
        R.require(np.array_equal(flat_told, flat) and np.array_equal(np.asarray(told[1]), np.asarray(cost)),
                  "schedule was told %r, the step returned %r" % (told[:2], [sample, cost]), key="update-args", **where)
        want, want_cost = chain.step(batch, eps, u)
        got_cost = np.asarray(cost, dtype=float)
        R.require(tol.close(got_cost.ravel(), np.ravel(want_cost), 1 + np.max(np.abs(want_cost))),
                  "cost %r, should be %r (cost before the step on this step's batch)" % (
                      got_cost.tolist(), np.asarray(want_cost).tolist()), key="cost", **where)
        R.require(tol.close(flat, want.ravel(), 10 * (1 + np.max(np.abs(want)))),
                  "step %d is %r, should be %r for its batch, stepsize and feeds" % (k, flat.tolist(), want.tolist()),
                  key="step", **where)
        R.require(np.array_equal(world.theta(), flat), "sample %r, session has %r" % (flat.tolist(), world.theta().tolist()),
                  key="session", **where)
        if shadow:
            shadow.react(flat, cost)
        R.state(cfg["sampler"], k, call, np.round(flat, 8).tolist())
    R.trace()
