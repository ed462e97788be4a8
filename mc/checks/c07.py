"""C07: a step has one outcome under every execution order."""
import numpy as np
import tensorflow as tf

from .. import grids, refs
from ..core import Violation
from ..explore import Tol
from ..schedules import Cone, Scheduler
from ..world import World

BOUNDS = ("All samplers, 1-3 coupled parameters, costs that read the parameters in four ways, the steps at positions "
          "0..burn-in+1 and sampler initialisation. Partial order of the operations of each run: all conflicting but "
          "unordered accesses; executed on the real runtime: for every operation that writes (thorough: or reads) state, the execution "
          "order that runs it as early and the one that runs it as late as possible (so either orientation of every "
          "single unordered pair), all orientations of the unordered pairs together (at most 2^6, beyond that all with "
          "up to two flipped), creation order and its reverse; three later steps compared as well.")
ASSUMPTIONS = ["operations read their inputs and write their outputs atomically",
               "the only shared state of the operations of a run are tensorflow variables",
               "noise is fixed"]
CAP = 64


def plan(tier, rng):
    out = []

    def add(sampler, shapes, cost, opts, positions, reads=None, dtype="float64", **kw):
        cfg = dict(sampler=sampler, params=grids.params(*shapes), dtype=dtype, cost=dict(name=cost, reads=reads),
                   opts=opts, eps=[0.05, 0.02], batches=grids.BATCHES if "batch" in cost else None)
        cfg.update(kw)
        if sampler == "Relativistic":
            cfg["momenta"] = [0.4, -1.3, 2.1]
        for position in positions:
            out.append(dict(kind="step", cfg=cfg, position=position, weight=3 * len(shapes)))
        if reads in (None, "direct"):
            out.append(dict(kind="init", cfg=cfg, weight=3 * len(shapes)))
    for sampler in ("SGHMC", "SGLD"):
        for reads in ("direct", "prebuilt", "fresh", "ref"):
            add(sampler, [(2,), ()], "coupled_batch", dict(burn_in_steps=2, seed=3), (0, 3), reads)
        add(sampler, [()], "quad", dict(burn_in_steps=1), (0, 1, 2), "direct")
        add(sampler, [(), ()], "coupled", dict(burn_in_steps=1), (1,), "fresh")
        add(sampler, [(2, 1), ()], "coupled", dict(burn_in_steps=2, seed=0), (1, 2), "direct")
        add(sampler, [(), (2,), ()], "coupled", dict(burn_in_steps=2), (1, 4), "fresh")
        add(sampler, [(2,)], "quad", dict(burn_in_steps=0), (1,), "ref")
        add(sampler, [()], "first", dict(burn_in_steps=1), (0, 1), "direct")
    for reads in ("direct", "prebuilt", "fresh", "ref"):
        add("Relativistic", [(), (1,)], "coupled", {}, (0, 1), reads)
    add("Relativistic", [()], "quad_batch", {}, (1,), "direct")
    add("Relativistic", [(), (), ()], "coupled", {}, (1,), "fresh")
    add("Relativistic", [()], "first", {}, (0,), "direct")
    add("SVGD", [(2,), (2,)], "coupled", {}, (0, 1))
    add("SVGD", [(1,), (1,), (1,)], "quad_batch", {}, (0,))
    if tier == "thorough":
        for sampler in ("SGHMC", "SGLD"):
            for reads in ("direct", "prebuilt", "fresh", "ref"):
                for burn in (0, 1, 3):
                    add(sampler, [(2,), (), (1, 2)], "coupled_batch", dict(burn_in_steps=burn), range(burn + 2), reads)
                    add(sampler, [(), (), (), (2,)], "quartic", dict(burn_in_steps=burn), (burn, burn + 1), reads)
                    add(sampler, [(2,), ()], "coupled", dict(burn_in_steps=burn), (0, burn), reads, dtype="float32")
        for reads in ("direct", "prebuilt", "fresh", "ref"):
            add("Relativistic", [(), (), (), ()], "coupled_batch", {}, (0, 1, 2), reads)
        add("SVGD", [(2,)] * 4, "coupled", {}, (0, 2))
    for item in out:
        item["all"] = tier == "thorough"
    return out


def attach(world):
    world.session.scheduler = Scheduler(world.session)


def noise_of(world):
    return [((5 * k) % 7 - 3) / 2.3 for k in range(world.n_noise)]


def outcome(world, later):
    """The step and the steps that follow it."""
    rows = []
    for _ in range(1 + later):
        sample, cost = world.step()
        world.session.scheduler.disarm()
        rows.append((sample, cost))
    return rows


def same(a, b, tol):
    return all(tol(x, y) and tol(np.ravel(c), np.ravel(d)) for (x, c), (y, d) in zip(a, b))


def equal(x, y):
    return np.allclose(x, y, rtol=1e-6 if np.asarray(x).dtype == np.float32 else 1e-11, atol=1e-12, equal_nan=True)


def show(rows):
    return [dict(sample=s.tolist(), cost=np.asarray(c).tolist()) for s, c in rows]


def check(item, R):
    cfg = item["cfg"]
    R.sample(dict(kind=item["kind"], cfg=cfg, position=item.get("position")))
    if item["kind"] == "init":
        return initialisation(cfg, R)
    world = World(cfg, prepare=attach)
    scheduler = world.session.scheduler
    simultaneous(world, item["position"], R)
    world.set_noise(noise_of(world))
    for _ in range(item["position"]):
        world.step()
    before = world.theta()
    snap = world.snapshot()
    later = 3
    scheduler.record()
    base = outcome(world, later)
    world.restore(snap)
    scheduler.record()
    world.step()
    runs = scheduler.recording
    scheduler.disarm()
    R.count("runs_analysed", len(runs))
    for index, (fetches, fed, _) in enumerate(runs):
        cone = Cone(fetches, fed)
        R.count("operations", len(cone.ops))
        R.count("state_accesses", sum(len(a) for a in cone.access.values()))
        R.count("unordered_conflicts", len(cone.races))
        for name, order in schedules(cone, item.get("all")):
            world.restore(snap)
            if not np.array_equal(world.theta(), before):
                raise RuntimeError("restore failed")
            scheduler.enforce(index, cone, order)
            rows = outcome(world, later)
            R.step(len(order))
            if R.state(item["position"], index, tuple(order)):
                R.trace()
            if not same(rows, base, equal):
                raise Violation("execution order changes the outcome of the step (%s)" % name, key="order",
                                schedule=order, this=show(rows), other=show(base), cfg=cfg,
                                unordered_conflicts=cone.races[:6])
    world.close()


def schedules(cone, everything):
    seen = set()
    for name, order in cone.extremes(everything):
        if order is None:
            raise RuntimeError("no linear extension")
        if tuple(order) not in seen:
            seen.add(tuple(order))
            yield name, order
    if cone.races:
        for name, order in cone.orientations(CAP):
            if tuple(order) not in seen:
                seen.add(tuple(order))
                yield name, order


def simultaneous(world, position, R):
    """All parameters are updated from the old values of all parameters."""
    snap = world.snapshot()
    world.set_noise(np.zeros(world.n_noise))
    chain, tol, cfg = refs.Chain(world), Tol(world.cfg["dtype"]), world.cfg
    for k in range(position + 1):
        batch = cfg["batches"][k % len(cfg["batches"])] if cfg["batches"] else None
        sample, cost = world.step()
        want, want_cost = chain.step(batch, cfg["eps"][k % len(cfg["eps"])])
        R.step()
        R.require(tol.close(np.ravel(cost), np.ravel(want_cost), 1 + np.max(np.abs(want_cost))) and
                  tol.close(sample, np.ravel(want), 10 * (1 + np.max(np.abs(want)))),
                  "step %d does not evaluate cost and gradients at the old values of all parameters" % k,
                  key="simultaneous", got=sample.tolist(), want=np.ravel(want).tolist(), cost=np.asarray(cost).tolist(),
                  want_cost=np.asarray(want_cost).tolist(), cfg=cfg)
    world.restore(snap)


def initialisation(cfg, R):
    def prepare(world):
        attach(world)
        world.session.scheduler.record(keep_state=True)
    world = World(cfg, init=False, free_noise=True, prepare=prepare)
    scheduler = world.session.scheduler
    constructing = list(scheduler.recording)
    scheduler.recording.clear()
    with world.graph.as_default():
        init = tf.global_variables_initializer()
    world.session.run(init)
    runs = [(False, r) for r in constructing] + [(True, r) for r in scheduler.recording]
    scheduler.disarm()
    world._own_noise()
    world.set_noise(noise_of(world))
    base_state = scheduler.state.get()
    snap = world.snapshot()
    base = outcome(world, 3)
    for is_global, (fetches, fed, before) in runs:
        cone = Cone(fetches, fed)
        R.count("runs_analysed")
        R.count("operations", len(cone.ops))
        R.count("unordered_conflicts", len(cone.races))
        reference = None
        for name, order in schedules(cone, False):
            _, after = scheduler.execute(fetches, {}, cone, order, before)
            R.step(len(order))
            if R.state("init", tuple(order)):
                R.trace()
            if is_global:
                world.restore(snap)
                scheduler.state.put(after)
                rows = outcome(world, 3)
                if not same(rows, base, equal):
                    raise Violation("order of initialisation changes the chain (%s)" % name, key="init-order",
                                    schedule=order, this=show(rows), other=show(base), cfg=cfg,
                                    state={k: [after[k].tolist(), base_state[k].tolist()] for k in after
                                           if not np.array_equal(after[k], base_state.get(k))})
            else:
                if reference is None:
                    reference = after
                if set(after) != set(reference) or not all(equal(after[k], reference[k]) for k in after):
                    raise Violation("order of initialisation in the constructor changes the outcome (%s)" % name,
                                    key="init-order", schedule=order, cfg=cfg)
    world.close()
