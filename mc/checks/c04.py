"""C04: SVGD steps follow Stein variational gradient descent."""
import itertools

import numpy as np

from .. import refs
from ..core import Violation
from ..explore import Tol
from ..world import World

BOUNDS = ("n = 2..6, 11, 12 and up to 33 particles of dimension 1..3 and up to 64 (all start layouts in plan(), ties in coordinates included), all "
          "stepsize/batch sequences over the alphabet up to depth 4 (thorough 6), alpha in {0,.5,.9,1}, several fudge "
          "factors, 4 targets, float32/float64; every permutation of up to 4 particles; long paths of 150 steps "
          "(contraction to the mode and spread of the particles on a Gaussian target).")
ASSUMPTIONS = ["median of the pairwise distances stays positive (the method is undefined otherwise)"]

LAYOUTS = {
    "spread": lambda n, d: np.array([[((7 * i + 3 * k) % 11) / 3. - 1.7 for k in range(d)] for i in range(n)]),
    "near": lambda n, d: np.array([[1. + 0.1 * i * (-1) ** k + 0.01 * k * i * i for k in range(d)] for i in range(n)]),
    "line": lambda n, d: np.array([[float(i) if k == 0 else 0.5 for k in range(d)] for i in range(n)]),
    "far": lambda n, d: np.array([[30. * (i - n / 2.) + k for k in range(d)] for i in range(n)]),
}


def cfg_of(layout, n, d, cost, opts, eps, dtype="float64", batches=None, perm=None, scale=1.):
    x = LAYOUTS[layout](n, d)
    if perm is not None:
        x = x[list(perm)]
    return dict(sampler="SVGD", params=[dict(shape=[d], init=row.tolist()) for row in x], dtype=dtype,
                cost=dict(name=cost, scale=scale), opts=opts, eps=list(eps), batches=batches)


def plan(tier, rng):
    out = []
    depth = 6 if tier == "thorough" else 4

    def add(*a, kind="explore", weight=1, depth=depth, **kw):
        out.append(dict(kind=kind, weight=weight, depth=depth, cfg=cfg_of(*a, **kw)))
    for layout in LAYOUTS:
        for n, d in ((2, 1), (2, 2), (3, 1), (3, 2), (4, 3), (5, 2), (6, 1)):
            add(layout, n, d, "quad", {}, (0.1, 0.03))
    for cost in ("quartic", "coupled", "flat", "linear", "steep", "cliff", "faint"):
        add("spread", 3, 2, cost, {}, (0.1, 0.03))
        add("near", 4, 2, cost, {}, (0.1, 0.03))
    for alpha in (0., 0.5, 0.9, 1., 1):
        for fudge in (1e-6, 0.1, 2) + ((0, 1e-12) if alpha < 1 else ()):
            add("spread", 3, 2, "quad", dict(alpha=alpha, fudge_factor=fudge), (0.1, 0.5))
    add("spread", 3, 2, "quad_batch", {}, (0.1, 0.03), batches=[[0.5, -0.25], [1.5]], depth=3)
    add("spread", 4, 1, "quad_batch", {}, (0.1,), batches=[[0.5, -0.25], [1.5]])
    add("near", 12, 1, "coupled", {}, (0.1,), depth=2)
    add("spread", 11, 2, "quartic", {}, (0.1,), depth=2)
    for n, d in ((15, 1), (16, 2), (17, 1), (25, 3), (33, 2), (4, 5), (3, 9), (3, 20), (9, 6), (2, 64)):
        for layout in ("spread", "near")[:1 if n > 30 else 2]:
            add(layout, n, d, "coupled" if d < 4 else "quad", {}, (0.1, 0.04), depth=2, weight=2)
    add("spread", 3, 2, "quad", {}, (0.1, 0.03), dtype="float32")
    add("near", 4, 1, "coupled", {}, (0.1, 0.03), dtype="float32")
    for n, d, cost in ((2, 2, "coupled"), (3, 2, "quartic"), (4, 1, "coupled"), (4, 2, "quad")):
        add("spread", n, d, cost, {}, (0.1, 0.04), kind="permute", weight=4)
    for layout in ("spread", "near"):
        add(layout, 8, 1, "quad", {}, (0.1, 0.05), kind="long", weight=3)
        add(layout, 6, 2, "quad", {}, (0.1,), kind="long", weight=3)
    return out


def cost_and_grads(world, x, batch):
    return (np.array([world.cost.np(row, batch) for row in x]),
            np.array([world.cost.grad(row, batch) for row in x]))


def one_step(world, ref, x, batch, eps, tol, R, where):
    if world.batches is not None:
        world.batches.override = np.asarray(batch, dtype=world.np_dtype)
    world.schedule.override = eps
    costs, grads = cost_and_grads(world, x, batch)
    want = ref.advance(x, grads, eps)
    got, cost = world.step()
    R.step()
    got = got.reshape(x.shape).astype(float)
    if not tol.close(np.ravel(cost), costs, 1 + np.max(np.abs(costs))):
        raise Violation("costs %r are not the particles' costs %r before the step" % (cost.tolist(), costs.tolist()),
                        key="cost", **where)
    if not tol.close(got, want, 1 + np.max(np.abs(x))):
        raise Violation("particles %r after the step, should be %r" % (got.tolist(), want.tolist()), key="step", **where)
    return got


def check(item, R):
    cfg = item["cfg"]
    R.sample(dict(kind=item["kind"], cfg=cfg))
    n, d = len(cfg["params"]), cfg["params"][0]["shape"][0]
    x0 = np.array([p["init"] for p in cfg["params"]], dtype=cfg["dtype"]).astype(float)
    tol = Tol(cfg["dtype"])
    if cfg["dtype"] == "float32":
        tol.r *= 5
        tol.a *= 5
    if item["kind"] == "explore":
        world = World(cfg)
        choices = [(b, e) for b in (cfg["batches"] or [None]) for e in cfg["eps"]]
        snap0 = world.snapshot()
        for path in itertools.product(choices, repeat=item["depth"]):
            world.restore(snap0)
            walk(world, cfg, x0, path, tol, R)
        world.close()
        # the same without snapshots: a freshly built sampler
        world = World(cfg)
        walk(world, cfg, x0, (choices * item["depth"])[:item["depth"] + 2], tol, R)
        world.close()
    elif item["kind"] == "permute":
        eps = cfg["eps"]
        base = None
        for perm in itertools.permutations(range(n)):
            c = dict(cfg, params=[cfg["params"][i] for i in perm])
            world = World(c)
            x = x0[list(perm)]
            ref = refs.SVGD(x.shape, cfg["opts"])
            for k in range(4):
                x = one_step(world, ref, x, None, eps[k % len(eps)], tol, R, dict(perm=perm, step=k, cfg=c))
            inverse = np.argsort(perm)
            y = x[inverse]
            base = y if base is None else base
            R.require(tol.close(y, base), "relabelling particles by %r changes the result" % (perm,), key="permute")
            R.state(perm, np.round(x, 8).tolist())
            R.trace()
            world.close()
    else:
        world = World(cfg)
        ref = refs.SVGD(x0.shape, cfg["opts"])
        x, costs = x0, []
        for k in range(150):
            costs.append(np.mean(cost_and_grads(world, x, None)[0]))
            x = one_step(world, ref, x, None, cfg["eps"][k % len(cfg["eps"])], tol, R, dict(step=k, cfg=cfg))
            R.state(np.round(x, 7).tolist())
        world.close()
        R.trace()


def walk(world, cfg, x0, path, tol, R):
    ref = refs.SVGD(x0.shape, cfg["opts"])
    x = x0
    for k, (batch, eps) in enumerate(path):
        x = one_step(world, ref, x, batch, eps, tol, R, dict(path=path, step=k, cfg=cfg))
        R.state(np.round(x, 8).tolist())
    R.trace()
