"""C12: a failing batch or stepsize source leaves the chain intact."""
import itertools

import numpy as np

from .. import grids, refs
from ..core import Violation
from ..explore import Tol
from ..world import Batches, Sched, World

BOUNDS = ("All four samplers, burn-in 0/1/2/3, with and without batches, plain and feeding calls: every set of up to 2 "
          "(thorough 3) failures, each at any attempt of any step of either source, of any of 4 kinds "
          "(exception, StopIteration, KeyboardInterrupt, a value the graph does not accept), over chains of 5 (thorough 6) successful steps. After each "
          "failure: the very exception arrives, no variable of the graph, no counter, no burn-in status changed, the "
          "schedule was not informed, the caller's dictionary is untouched; afterwards every step equals the reference "
          "on what the sources still have. Finite sources of length 0..5 for every burn-in length: iteration ends with "
          "exactly that many samples, repeatedly.")
ASSUMPTIONS = ["noise fed as 0", "failures after the step was made (in the schedule's update) are out of scope"]


class Boom(Exception):
    pass


class Unfit(Exception):
    """Not raised: the source yields something the graph does not accept."""


EXC = {"error": Boom, "stop": StopIteration, "interrupt": KeyboardInterrupt, "unfit": Unfit}


class FlakyBatches(Batches):
    plan, fired = (), 0

    def __next__(self):
        for k, (pos, exc) in enumerate(self.plan):
            if pos == self.position:
                self.plan = self.plan[:k] + self.plan[k + 1:]
                self.fired += 1
                if isinstance(exc, Unfit):
                    return {key: np.zeros((2, 2), np.asarray(v).dtype) for key, v in super().__next__().items()}
                raise exc
        value = super().__next__()
        return value


class FlakySched(Sched):
    plan, fired = (), 0

    def __next__(self):
        for k, (pos, exc) in enumerate(self.plan):
            if pos == self.position:
                self.plan = self.plan[:k] + self.plan[k + 1:]
                self.fired += 1
                if isinstance(exc, Unfit):
                    return [super().__next__()] * 3
                raise exc
        return super().__next__()


EPS = [0.05, 0.02, 0.08, 0.03, 0.06, 0.01, 0.07]


def plan(tier, rng):
    out = []
    steps = 6 if tier == "thorough" else 5

    def add(sampler, shapes, cost, opts):
        cfg = dict(sampler=sampler, params=grids.params(*shapes), dtype="float64", cost=dict(name=cost, user_feed=True),
                   opts=opts, eps=EPS, batches=[[0.5, -0.25], [1.5], [-0.75, 0.25, 1.0], [0.1, 0.9], [2.]]
                   if "batch" in cost else None)
        if sampler == "Relativistic":
            cfg["momenta"] = [0.4, -1.3, 2.1]
        for feeding in (False, True):
            out.append(dict(kind="faults", cfg=cfg, steps=steps, feeding=feeding,
                            faults=3 if tier == "thorough" else 2, weight=3))
        if "batch" in cost:
            out.append(dict(kind="finite", cfg=cfg, weight=1))
    for sampler in ("SGHMC", "SGLD"):
        for burn in (0, 1, 2, 3):
            add(sampler, [(2,), ()], "coupled_batch", dict(burn_in_steps=burn))
        add(sampler, [(2,)], "quad_batch", dict(burn_in_steps=2))
        add(sampler, [(), (2, 1)], "coupled", dict(burn_in_steps=2))
    add("Relativistic", [(), (1,)], "coupled_batch", {})
    add("SVGD", [(2,), (2,), (2,)], "quad_batch", {})
    return out


def check(item, R):
    R.sample(item)
    cfg = item["cfg"]
    if item["kind"] == "finite":
        return finite(cfg, R)
    sources = ["stepsize"] + (["batch"] if cfg["batches"] else [])
    single = list(itertools.product(sources, range(item["steps"]), sorted(EXC)))
    world = build(cfg)
    snap = world.snapshot()
    for n in range(1, item["faults"] + 1):
        for faults in itertools.combinations_with_replacement(single, n):
            # several failures: ordinary ones, except the first
            if any(f[2] != "error" for f in faults[1:]):
                continue
            world.restore(snap)
            try:
                walk(world, cfg, item, faults, R)
            except Violation:
                world = build(cfg)
                walk(world, cfg, item, faults, R)
                snap_world = build(cfg)         # state hides from snapshots: only fresh samplers from here on
                world, snap = snap_world, snap_world.snapshot()
                R.count("fresh_mode")
    world.close()


def build(cfg):
    log = []

    def before(world):
        if cfg["batches"]:
            world.kwargs["batch_generator"] = world.batches = FlakyBatches(
                world.placeholder, [np.asarray(b, dtype=world.np_dtype) for b in cfg["batches"]], log=log)
        world.log = log
    return World(cfg, schedule=FlakySched(EPS, log=log), before=before)


def everything(world):
    if not hasattr(world, "_variables"):
        world._prepare_restore()
    return [np.array(v).tobytes() for v in world.plain_run(world._variables)]


def fired(world):
    return sum(source.fired for source in (world.batches, world.schedule) if source is not None)


def walk(world, cfg, item, faults, R):
    tol = Tol(cfg["dtype"])
    chain = refs.Chain(world)
    made = [(source, pos, EXC[kind]("planned")) for source, pos, kind in faults]
    world.schedule.plan = tuple((p, e) for s, p, e in made if s == "stepsize")
    if world.batches is not None:
        world.batches.plan = tuple((p, e) for s, p, e in made if s == "batch")
    for source in (world.batches, world.schedule):
        if source is not None:
            source.fired = 0
    n0 = world.sampler.n_iterations
    done = failures = 0
    burn = cfg["opts"].get("burn_in_steps")
    attempts = 0
    while done < item["steps"]:
        where = dict(faults=faults, step=done, cfg=cfg)
        attempts += 1
        R.require(attempts < 30, "chain does not advance after failures", key="stuck", **where)
        batch_pos = world.batches.position if world.batches is not None else None
        eps_pos = world.schedule.position
        state = everything(world) if failures < len(faults) else None
        u = [1., 2., -0.5][attempts % 3] if item["feeding"] else 1.
        feed = {world.user_feed: np.asarray(u, dtype=world.np_dtype)}
        before = dict(feed)
        n_log, n_fired = len(world.log), fired(world)
        try:
            result = world.sampler.__next__(feed_dict=feed) if item["feeding"] else next(world.sampler)
        except (Boom, StopIteration, KeyboardInterrupt, ValueError, TypeError) as e:
            failures = fired(world)             # both sources may have failed in the same attempt
            unfit = isinstance(e, (ValueError, TypeError)) and any(isinstance(x, Unfit) for _, _, x in made)
            R.require(unfit or any(e is x for _, _, x in made), "another exception arrives: %r" % (e,), key="exception", **where)
            R.require(everything(world) == state, "a variable changed in a step that failed", key="variables", **where)
            R.require(world.sampler.n_iterations - n0 == done, "%d iterations counted after %d steps and a failure" % (
                world.sampler.n_iterations - n0, done), key="iterations", **where)
            if burn:
                R.require(bool(world.sampler.is_burning_in) == (done < burn), "burn-in status changed by a failure",
                          key="status", **where)
            R.require(not any(entry[0] == "update" for entry in world.log[n_log:]),
                      "schedule informed about a failed step", key="update", **where)
            R.require(list(feed) == list(before) and feed[world.user_feed] is before[world.user_feed],
                      "caller's dictionary changed by a failed step", key="feed", **where)
            R.require(batch_pos is None or world.batches.position <= batch_pos + 1, "several batches lost", key="lost", **where)
            R.require(world.schedule.position <= eps_pos + 1, "several stepsizes lost", key="lost", **where)
            R.step()
            R.state(cfg, item["feeding"], faults, done, "failed", failures)
            continue
        R.require(fired(world) == n_fired, "a failure did not reach the caller", key="swallowed", **where)
        sample, cost = result
        batch = None if batch_pos is None else cfg["batches"][batch_pos % len(cfg["batches"])]
        want, want_cost = chain.step(batch, EPS[eps_pos % len(EPS)], u)
        got = world.normalise(sample)
        R.require(tol.close(np.ravel(cost), np.ravel(want_cost), 1 + np.max(np.abs(want_cost))),
                  "cost %r, should be %r" % (np.ravel(cost).tolist(), np.ravel(want_cost).tolist()), key="cost", **where)
        R.require(tol.close(got, want, 10 * (1 + np.max(np.abs(want)))), "step after failures is %r, should be %r" % (
            got.tolist(), want.tolist()), key="step", **where)
        done += 1
        R.step()
        R.require(world.sampler.n_iterations - n0 == done, "%d iterations counted after %d steps" % (
            world.sampler.n_iterations - n0, done), key="iterations", **where)
        R.state(cfg, item["feeding"], faults, done, np.round(got, 8).tolist())
    R.require(fired(world) == len(faults), "%d of %d failures happened" % (fired(world), len(faults)), key="swallowed",
              faults=faults, cfg=cfg)
    R.trace()


def finite(cfg, R):
    tol = Tol(cfg["dtype"])
    for length in range(6):
        for style in ("for", "list", "generator"):
            batches = None

            def before(world):
                values = [np.asarray(cfg["batches"][k % len(cfg["batches"])], dtype=world.np_dtype) for k in range(length)]
                source = Batches(world.placeholder, values, finite=True)
                world.batches = (dict(d) for d in list({world.placeholder: v} for v in values)) if style == "generator" else source
                world.kwargs["batch_generator"] = world.batches
            world = World(cfg, before=before)
            chain = refs.Chain(world)
            got = []
            if style == "for":
                for sample, _ in world.sampler:
                    got.append(world.normalise(sample))
                    R.require(len(got) <= length, "more samples than batches", key="finite", cfg=cfg)
            else:
                got = [world.normalise(s) for s, _ in list(world.sampler)]
            R.require(len(got) == length, "%d samples from %d batches" % (len(got), length), key="finite", cfg=cfg)
            for k, sample in enumerate(got):
                want, _ = chain.step(cfg["batches"][k % len(cfg["batches"])], EPS[k % len(EPS)])
                R.require(tol.close(sample, want, 10 * (1 + np.max(np.abs(want)))), "sample %d of a finite source is wrong" % k,
                          key="finite", cfg=cfg)
                R.step()
            for _ in range(2):
                theta = everything(world)
                try:
                    next(world.sampler)
                except StopIteration:
                    pass
                else:
                    raise Violation("a step without a batch", key="finite", cfg=cfg)
                R.require(everything(world) == theta, "a step without a batch changed a variable", key="finite", cfg=cfg)
                R.require(world.sampler.n_iterations == length, "step without a batch counted", key="finite", cfg=cfg)
            R.state(cfg, length, style)
            R.trace()
            world.close()
