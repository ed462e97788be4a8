"""C05: the mass matrix adapts exactly during burn-in and is frozen afterwards."""
import itertools

import numpy as np

from .. import grids, refs
from ..core import Violation
from ..explore import Explorer, explore
from ..stepcheck import item as step_item
from ..world import World

BOUNDS = ("SGHMC and SGLD, burn-in lengths 1..5 (thorough 1..7), 1-3 and 17 parameters: every sequence over two batches with "
          "very different gradients up to burn-in length + 3 steps. In every state the mass matrix in use is measured "
          "from the response of the step to its gradient (no reference model involved) and must be that of the last "
          "burn-in step from then on; the whole transition law is also compared with the reference. Burn-in status "
          "checked before/after every step, also when steps fail over to long histories (burn-in 40 of 100 steps, 5000 (thorough 20000) steps).")
ASSUMPTIONS = ["noise enters through tensorflow normal random ops"]

WILD = [[0.3, -0.1], [25.0, 12.0]]


def plan(tier, rng):
    out = []
    top = 7 if tier == "thorough" else 5
    for sampler in ("SGHMC", "SGLD"):
        for burn in range(1, top + 1):
            for shapes in ([()], [(2,), ()], [(), (1, 2), (2,)]):
                it = step_item(sampler, shapes, "quad_batch", dict(burn_in_steps=burn), batches=2, eps=(0.05,))
                it["cfg"]["batches"] = WILD
                it.update(kind="freeze", burn=burn, depth=burn + 3, weight=burn)
                out.append(it)
            it = step_item(sampler, [(2,), ()], "coupled_batch", dict(burn_in_steps=burn), batches=2,
                           eps=(0.05,), patterns=1, depth=min(burn + 3, 7), weight=2 * burn)
            it["cfg"]["batches"] = WILD
            out.append(it)
        for burn in (1, 2):        # many parameters: every one of them has its own mass matrix
            it = step_item(sampler, [()] * 17, "quad_batch", dict(burn_in_steps=burn), batches=2, eps=(0.05,))
            it["cfg"]["batches"] = WILD
            it.update(kind="freeze", burn=burn, depth=burn + 2, weight=4)
            out.append(it)
        for burn, steps in ((40, 100), (1, 60), (100, 140), (5000, 5003)) + (((20000, 20003),) if tier == "thorough" else ()):
            it = step_item(sampler, [(2,), ()], "quad_batch", dict(burn_in_steps=burn), batches=2)
            it["cfg"]["batches"] = WILD
            it.update(kind="status", burn=burn, depth=steps, weight=1 + steps // 300)
            out.append(it)
    return out


def check(item, R):
    cfg = item["cfg"]
    R.sample(dict(kind=item["kind"], cfg=cfg, depth=item["depth"]))
    if item["kind"] == "explore":
        return explore(cfg, R, item["depth"], WILD, item["eps"], grids.PATTERNS[:item["patterns"]])
    burn = item["burn"]
    if item["kind"] == "status":
        return status(cfg, burn, item["depth"], R)
    for path in itertools.product(range(2), repeat=item["depth"]):
        # the wild batch everywhere during burn-in makes steps too large: at most twice
        if sum(path[:burn]) > 2:
            continue
        freeze(cfg, burn, path, R)


_worlds = {}


def freeze(cfg, burn, path, R):
    key = repr(cfg)
    if key not in _worlds:
        for w, _ in _worlds.values():
            w.close()
        _worlds.clear()
        w = World(cfg)
        _worlds[key] = (w, w.snapshot())
    world, snap0 = _worlds[key]
    world.restore(snap0)
    verdict = walk(world, cfg, burn, path, R)
    if verdict is not None:                 # confirm on an untouched sampler
        fresh = World(cfg)
        again = walk(fresh, cfg, burn, path, R)
        fresh.close()
        if again is not None:
            raise Violation(again, key="freeze", path=list(path), cfg=cfg)


def measured_mass(world, cfg, theta, eps):
    """m from the difference of two steps that differ in their gradient only."""
    snap = world.snapshot()
    ends, grads = [], []
    for batch in ([0.2, 0.1], [0.2, 0.9]):
        world.restore(snap)
        world.batches.override = np.asarray(batch, dtype=world.np_dtype)
        end, _ = world.step(np.zeros(world.n_noise))
        ends.append(end)
        grads.append(world.cost.grad(theta, batch))
    world.restore(snap)
    factor = eps ** 2 if cfg["sampler"] == "SGHMC" else eps * cfg["opts"].get("A", 1.0)
    return -(ends[1] - ends[0]) / (factor * (grads[1] - grads[0]))


def walk(world, cfg, burn, path, R):
    eps = 0.05
    world.schedule.override = eps
    last = None
    changed_in_burn_in = False
    theta = world.theta()
    for k, choice in enumerate(path):
        expected = k < burn
        if bool(world.sampler.is_burning_in) != expected:
            return "after %d of %d burn-in steps the sampler reports burning_in=%r" % (
                k, burn, world.sampler.is_burning_in)
        m = measured_mass(world, cfg, theta, eps)
        R.step(2)
        R.state(burn, k, path[:k], np.round(m, 8).tolist())
        if k >= burn and not np.allclose(m, last, rtol=1e-6):
            return "step %d (burn-in %d) uses mass matrix %r, the last burn-in step used %r" % (
                k, burn, m.tolist(), last.tolist())
        if last is not None and k < burn and not np.allclose(m, last, rtol=1e-9):
            changed_in_burn_in = True
        if k >= 2 and k == burn - 1 and not changed_in_burn_in:
            return "mass matrix is not adapted during burn-in"
        last = m
        world.batches.override = np.asarray(WILD[choice], dtype=world.np_dtype)
        theta, _ = world.step(np.array([0.3 * (-1) ** j for j in range(world.n_noise)]))
        R.step()
    R.trace()


def status(cfg, burn, steps, R):
    world = World(cfg)
    ref = refs.model(cfg)
    for k in range(steps):
        R.require(bool(world.sampler.is_burning_in) == (k < burn),
                  "after %d of %d burn-in steps the sampler reports burning_in=%r" % (k, burn, world.sampler.is_burning_in),
                  key="status")
        world.step()
        R.step()
        if k < 200 or k % 50 == 0 or abs(k - burn) < 5:
            R.state(cfg["sampler"], burn, k)
    R.trace()
    world.close()
