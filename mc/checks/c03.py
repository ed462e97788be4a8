"""C03: relativistic SGHMC steps follow the relativistic dynamics."""
import numpy as np

from .. import stepcheck
from ..core import Violation
from ..explore import Tol
from ..stepcheck import item, long_item
from ..world import World

BOUNDS = ("All paths over {1-2 batches} x {2-3 stepsizes} x {2 noise vectors} up to depth 3 (thorough 4) for 1-4 and 12 "
          "scalar parameters (shapes (), (1,), (1,1)), 5 target functions, mass, speed of light, D, Bhat, dtypes and "
          "initial momenta; law of the momentum recovered from positions for all noise values. Speed limit: huge "
          "noise and gradients (up to 1e8). Initial momenta: requested log density compared on a grid, values passed "
          "on unchanged, and the real sampler (arspy) run for seeds 0..5.")
ASSUMPTIONS = ["target parameters hold one element each (the sampler rejects others)",
               "arspy's adaptive rejection sampler draws from the log density it is given"]


def plan(tier, rng):
    out = []
    add = lambda *a, **kw: out.append(item("Relativistic", *a, **kw))  # noqa
    shapes = [[()], [(1,)], [(), ()], [(1, 1), ()], [(), (), ()], [(), (), (), ()]]
    for s in shapes:
        add(s, "coupled", {})
        add(s, "quad_batch", {}, batches=2, eps=(0.05,))
    for cost in ("quad", "quartic", "linear", "flat", "steep"):
        add([(), ()], cost, {})
    for mass in (1.0, 0.3, 2.5):
        for c in (1.0, 0.6, 3.0):
            add([(), ()], "coupled", dict(mass=mass, speed_of_light=c))
    for D in (1.0, 0.4, 2.0):
        for B in (0.0, 0.5):
            add([(), ()], "coupled", dict(D=D, Bhat=B), eps=(0.1, 0.3))
    add([()] * 12, "coupled", {}, eps=(0.1,), patterns=1, momenta=[0.4, -1.3, 2.1, 0.9, -0.2, 1.4, -0.8, 0.1, 1.1, -2.0, 0.6, -0.5])
    add([()], "quad", {}, dtype="float32")
    add([(), ()], "coupled", dict(mass=2.0, D=0.5), dtype="float32")
    add([(), ()], "quad", {}, eps=(1.0, 1e-3, 0.4))
    add([(), ()], "quad", dict(D=0.7), eps=(0.5, 1e-12))
    for opts in (dict(speed_of_light=1e7), dict(speed_of_light=1e5, mass=100.), dict(mass=1e4)):      # gradients of millions
        add([(), ()], "cliff", opts, eps=(1e-3, 1e-2))
    add([(), ()], "faint", dict(mass=1e-3))
    for cost in ("quad_batch", "quartic"):
        out.append(long_item("Relativistic", [(), ()], cost, {}, 300 * (10 if tier == "thorough" else 1)))
    for opts in ({}, dict(mass=0.5, speed_of_light=0.3), dict(speed_of_light=2.0, D=5.0), dict(mass=1e-3)):
        for eps in (0.01, 0.5, 1.9):
            it = item("Relativistic", [(), (1,)], "steep", opts, eps=[eps])
            it["kind"] = "speed"
            out.append(it)
    for mass in (1.0, 0.5, 2.0):
        for c in (1.0, 0.7, 1.5):
            out.append(dict(kind="momenta", mass=mass, c=c))
    if tier == "thorough":
        for s in shapes:
            for cost in ("coupled", "quartic"):
                for opts in ({}, dict(mass=0.7, speed_of_light=1.7, D=0.6, Bhat=0.3)):
                    add(s, cost, opts, depth=5, weight=9)
    return out


def check(item, R):
    if item["kind"] == "speed":
        return speed(item, R)
    if item["kind"] == "momenta":
        return momenta(item, R)
    return stepcheck.check(item, R)


def speed(item, R):
    """No parameter ever moves faster than the speed of light."""
    c = item["cfg"]["opts"].get("speed_of_light", 1.0)
    eps = item["eps"][0]
    cfg = dict(item["cfg"], eps=[eps])
    world = World(cfg)
    theta = world.theta()
    R.sample(dict(speed=cfg["opts"], eps=eps))
    for size in (0., 1., -1., 30., -1e3, 1e5, -1e8):
        for pattern in ((1., 1.), (1., -1.), (0., 1.)):
            new, _ = world.step([size * pattern[k % 2] for k in range(world.n_noise)])
            R.step()
            R.state(eps, size, pattern, np.round(new, 6).tolist())
            moved = np.abs(new - theta)
            R.require(np.all(moved <= eps * c * (1 + 1e-9) + 1e-9 * np.abs(theta)),
                      "a parameter moved by %r in one step, eps*c is %r" % (moved.tolist(), eps * c), key="speed")
            theta = new
    R.trace()
    world.close()


def momenta(item, R):
    m, c = item["mass"], item["c"]
    grid = np.concatenate([np.linspace(-12, 12, 97), [-1e3, -1e-3, 1e-3, 1e3, 0.]])
    want = -m * c ** 2 * np.sqrt(grid ** 2 / (m ** 2 * c ** 2) + 1.)
    for n in (1, 2, 3):
        for values in ([0.25, -3.5, 1.75], [0., 0., 0.], [-8., 5., 2.]):
            cfg = stepcheck.item("Relativistic", [()] * n, "flat",
                                 dict(mass=m, speed_of_light=c), momenta=values)["cfg"]
            world = World(cfg)
            R.step()
            R.state(m, c, n, values)
            calls = world.momentum_calls
            if not calls:
                raise Violation("initial momenta do not come from the momentum distribution", key="momenta")
            R.require(sum(k["n_samples"] for k in calls) == n, "%r momenta drawn for %d parameters" % (
                [k["n_samples"] for k in calls], n), key="momenta")
            for call in calls:
                got = np.array([float(call["logpdf"](float(p))) for p in grid])
                diff = got - want
                R.require(np.allclose(diff, diff[0], atol=1e-9, rtol=1e-9),
                          "momentum log density differs from -m c^2 sqrt(p^2/(m^2 c^2)+1)", key="momenta",
                          got=got[:5].tolist(), want=want[:5].tolist())
                R.require(call["domain"][0] == float("-inf") and call["domain"][1] == float("inf"),
                          "momenta drawn from a truncated distribution", key="momenta")
            # flat target, no noise, tiny friction: the first step exposes p0
            eps = 0.125
            world.schedule.override = eps
            theta0 = world.theta()
            new, _ = world.step()
            p0 = np.asarray(values[:n])
            v = lambda p: p / (m * np.sqrt(p ** 2 / (m * m * c * c) + 1))  # noqa
            p1 = p0 - eps * v(p0)
            R.require(Tol("float64").close(new, theta0 + eps * v(p1)),
                      "first step %r does not start from the drawn momenta %r" % (new.tolist(), values),
                      key="momenta")
            world.close()
            R.trace()
    # the real adaptive rejection sampler: seeded, right number, distinct
    for seed in range(6):
        drawn = []
        for _ in range(2):
            cfg = stepcheck.item("Relativistic", [()] * 3, "flat",
                                 dict(mass=m, speed_of_light=c, seed=seed))["cfg"]
            del cfg["momenta"]
            world = World(cfg)
            world.schedule.override = 0.1
            theta0 = world.theta()
            new, _ = world.step()
            drawn.append(new - theta0)
            world.close()
            R.step()
        R.require(np.array_equal(drawn[0], drawn[1]), "seeded initial momenta differ between samplers", key="momenta-seed")
        R.require(len(set(np.round(drawn[0], 12).tolist())) == 3, "parameters share their initial momentum",
                  key="momenta-seed")
        R.state("real", m, c, seed)
        R.trace()
