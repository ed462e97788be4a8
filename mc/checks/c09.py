"""C09: injected noise is fresh, standard normal and independent."""
import itertools

import numpy as np

from .. import grids, refs
from ..core import Violation
from ..explore import explore
from ..stepcheck import item as step_item
from ..world import World

BOUNDS = ("(1) The real draws: innovations recovered from chains of 40 steps (long chains: 400) of every stochastic "
          "sampler with 1-4 and 17 parameters (equal and different shapes; up to 4003 elements), for seeds 0..23 (thorough 0..99), extremes and "
          "no seed: no two of all (element, parameter, step) triples share a value, no two elements or "
          "steps are correlated, moments of a standard normal within wide limits; several unseeded chains differ. (2) "
          "Transition law: for all noise values at once, the covariance is diagonal with the right variance in every "
          "state of all paths up to depth 2.")
ASSUMPTIONS = ["tensorflow's normal op yields independent standard normal values within one op and over its executions"]

LAYOUTS = [[(), ()], [(2,), (2,), (1, 2)], [(3,)], [(), (2,), (1,), (2, 1)]]
SCALAR = [[(), ()], [(), (1,), ()], [()], [(), (), (), ()]]


def config(sampler, shapes, seed, dtype="float64", burn=5):
    opts, n = dict(seed=seed), sum(int(np.prod(s, dtype=int)) for s in shapes)
    cfg = dict(sampler=sampler, params=grids.params(*shapes), dtype=dtype, cost=dict(name="quad" if n <= 20 else "mild"), opts=opts,
               eps=[0.2], batches=None)
    if sampler == "Relativistic":
        cfg["momenta"] = [0.4, -1.3, 2.1, -0.2] if len(shapes) <= 4 else [0.37 * i - 2.9 for i in range(len(shapes))]
    else:
        opts["burn_in_steps"] = burn
        cfg["eps"] = [0.2 if sampler == "SGHMC" else 0.05]
    return cfg


def plan(tier, rng):
    out = []
    seeds = list(range(100 if tier == "thorough" else 24)) + [12345, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, None, None]
    for sampler in ("SGHMC", "SGLD", "Relativistic"):
        layouts = SCALAR if sampler == "Relativistic" else LAYOUTS
        for layout in layouts:
            for chunk in range(0, len(seeds), 8):
                out.append(dict(kind="draws", sampler=sampler, layout=layout, seeds=seeds[chunk:chunk + 8], steps=40, weight=2))
        for seed in (0, 1, 7, None):
            out.append(dict(kind="draws", sampler=sampler, layout=layouts[1], seeds=[seed], steps=400, weight=2))
        out.append(dict(kind="draws", sampler=sampler, layout=layouts[0], seeds=[0, 3, None], steps=40, dtype="float32"))
        out.append(dict(kind="unseeded", sampler=sampler, layout=layouts[1], n=5))
        out.append(dict(kind="draws", sampler=sampler, layout=[()] * 17, seeds=[0, 5, None], steps=25, weight=3))
        if sampler != "Relativistic":
            for layout in ([(3000,)], [(40, 50), (2000,), (3,)]):
                for seed in (0, 3, None):
                    out.append(dict(kind="draws", sampler=sampler, layout=layout, seeds=[seed], steps=4, weight=3))
        for layout in layouts:
            it = step_item(sampler, layout, "coupled", dict(seed=4), depth=2, patterns=2, weight=2)
            it["kind"] = "law"
            out.append(it)
    return out


def check(item, R):
    R.sample({k: v for k, v in item.items() if k != "weight"})
    if item["kind"] == "law":
        return explore(item["cfg"], R, item["depth"], [None], item["eps"], grids.PATTERNS)
    if item["kind"] == "unseeded":
        chains = []
        for _ in range(item["n"]):
            z = innovations(config(item["sampler"], item["layout"], None), 4, R)
            chains.append(np.round(z, 9).ravel().tolist())
            R.trace()
        for a, b in itertools.combinations(chains, 2):
            R.require(not set(a) & set(b), "unseeded chains share their noise", key="unseeded")
        R.state(item["sampler"], chains)
        return
    for seed in item["seeds"]:
        cfg = config(item["sampler"], item["layout"], seed, item.get("dtype", "float64"))
        z = innovations(cfg, item["steps"], R)
        judge(z, cfg, item, R)
        R.trace()


def innovations(cfg, steps, R):
    """(steps x elements) standardised innovations of a chain with real noise."""
    world = World(cfg, free_noise=True)
    theta = world.theta().astype(float)
    ref = refs.model(cfg)
    eps = cfg["eps"][0]
    relativistic = cfg["sampler"] == "Relativistic"
    out = []
    for _ in range(steps):
        grad = world.cost.grad(theta, None)
        new, _ = world.step()
        new = new.astype(float)
        R.step()
        if relativistic:
            mean, sigma = ref.momentum(grad, eps)
            u = (new - theta) / eps
            z = (ref.m * u / np.sqrt(1. - u ** 2 / ref.c ** 2) - mean) / sigma
        else:
            mean, sigma = ref.predict(theta, grad, eps)
            z = (new - mean) / sigma
        if cfg["dtype"] == "float64":
            ref.advance(theta, grad, eps, z)
        else:
            ref.advance_exact(theta, grad, eps, z)
        theta = new
        out.append(z)
    world.close()
    return np.array(out)


def judge(z, cfg, item, R):
    where = dict(cfg=cfg, first=z[:3].tolist())
    R.require(np.all(np.isfinite(z)), "innovations are not finite", key="finite", **where)
    flat = np.abs(z.ravel())
    order = np.sort(flat)
    R.state(cfg["sampler"], cfg["opts"], np.round(z[0], 6).tolist())
    if cfg["dtype"] == "float64":
        near = int(np.sum(np.diff(order) < 1e-9 * (1 + order[1:])))
        if near > 2 + 2e-8 * len(flat) ** 2:        # coincidences
            raise Violation("%d of %d noise values repeat another one" % (near, len(flat)), key="repeats", **where)
    n, k = z.shape
    for i, j in itertools.combinations(range(k if k <= 50 else 0), 2):
        c = np.corrcoef(z[:, i], z[:, j])[0, 1]
        R.require(abs(c) < 8. / np.sqrt(n) or abs(c) < 0.9 and n < 100,
                  "noise of elements %d and %d is correlated (%.2f)" % (i, j, c), key="correlated", **where)
    for lag in (1, 2, 3):
        for i in range(k if k <= 50 else 0):
            c = np.corrcoef(z[lag:, i], z[:-lag, i])[0, 1]
            R.require(abs(c) < 8. / np.sqrt(n) or abs(c) < 0.9 and n < 100,
                      "noise of element %d is correlated with that %d steps before (%.2f)" % (i, lag, c),
                      key="correlated", **where)
    size = n * k
    R.require(abs(np.mean(z)) < 7. / np.sqrt(size), "noise has mean %.3f" % np.mean(z), key="moments", **where)
    R.require(abs(np.mean(z ** 2) - 1) < 7. * np.sqrt(2. / size), "noise has second moment %.3f" % np.mean(z ** 2),
              key="moments", **where)
    if size >= 1000:
        R.require(2.0 < np.mean(z ** 4) < 4.5 and np.max(flat) > 2.5, "noise has fourth moment %.3f, maximum %.3f" % (
            np.mean(z ** 4), np.max(flat)), key="moments", **where)
        inside = np.mean(flat < 0.6745)
        R.require(abs(inside - 0.5) < 0.1, "%.3f of the noise within the quartiles" % inside, key="moments", **where)
