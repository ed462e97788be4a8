"""C01: every SGHMC step follows the scale-adapted SGHMC update."""
from functools import partial

from .. import grids
from ..stepcheck import check, item, long_item  # noqa: F401

BOUNDS = ("All paths over {1-3 batches} x {1-3 stepsizes} x {2 noise vectors} up to depth 3 (thorough 4-5) from "
          "every configuration of shapes (1-4 and 12 parameters, rank 0-3), target functions, burn-in lengths 0-5, mdecay, "
          "scale_grad and dtype in plan(); in every visited state the complete transition law (mean and covariance, "
          "i.e. for all noise values) is compared. Plus paths of 60-3030 (thorough 6200) steps compared step by step.")
ASSUMPTIONS = ["noise enters through tensorflow normal random ops (their outputs are fed)",
               "parameter, batch and stepsize values outside the alphabet behave alike",
               "burn_in_steps=0 means the mass matrix is never frozen (as the code explicitly provides for)"]


def plan(tier, rng, sampler="SGHMC"):
    out = []
    add = lambda *a, **kw: out.append(item(sampler, *a, **kw))  # noqa
    for shapes in grids.SHAPES:
        add(shapes, "coupled", dict(burn_in_steps=2))
        add(shapes, "coupled_batch", dict(burn_in_steps=2), batches=2, eps=(0.07,))
    for cost in ("quad", "quartic", "linear", "flat", "steep"):
        add([(2,), ()], cost, dict(burn_in_steps=1))
        add([(2,), ()], cost, dict(burn_in_steps=3))
    if sampler == "SGHMC":
        extra = [dict(mdecay=m) for m in (0.0, 0.01, 0.3, 1.0, 2.5)]
    else:
        extra = [dict(A=a) for a in (0.01, 0.5, 2.3, 1)]
    for kw in extra:
        for scale in (1.0, 0.7, 1000.0, 3):
            add([(), (2,)], "coupled", dict(burn_in_steps=2, scale_grad=scale, **kw))
    for burn in (0, 1, 2, 3, 5):
        add([(), ()], "quartic_batch", dict(burn_in_steps=burn), batches=2, eps=(0.1,), depth=4)
    for shapes in ([()], [(2,), (1, 2)]):
        add(shapes, "coupled", dict(burn_in_steps=2, **extra[1]), dtype="float32")
        add(shapes, "quad", dict(burn_in_steps=1, scale_grad=10.0), dtype="float32")
    # large and tiny stepsizes: the variance of SGHMC is clipped from below
    add([(2,)], "quad", dict(burn_in_steps=2, **extra[1]), eps=(0.9, 1e-3, 0.3))
    add([(2,)], "quad", dict(burn_in_steps=2, scale_grad=4.0, **extra[2]), eps=(1.5, 1e-4, 0.5))
    add([(2,)], "quad", {}, eps=(0.01, 0.1))
    add([(), (), (), ()], "coupled", dict(burn_in_steps=2), start=3)
    add([()] * 12, "coupled", dict(burn_in_steps=1), eps=(0.05,), patterns=1, depth=3)      # names of two digits
    add([(), (2,)] * 6, "coupled", dict(burn_in_steps=1), eps=(0.05,), patterns=1, depth=3, weight=2)
    for burn in (0, 1, 3):        # gradients of millions and of millionths
        add([(2,), ()], "cliff", dict(burn_in_steps=burn), eps=(1e-3, 1e-6))
        add([(2,), ()], "faint", dict(burn_in_steps=burn), eps=(0.1, 3.))
    mul = 10 if tier == "thorough" else 1
    for burn, steps in ((40, 90), (0, 60), (3000, 120), (300, 620)):
        for cost in ("coupled_batch", "quartic"):
            out.append(long_item(sampler, [(2,), (), (2, 2)], cost, dict(burn_in_steps=burn), steps * mul))
    # gradients of both signs that average to zero: the averaging window grows with every step
    swing = long_item(sampler, [(2,), ()], "swing_batch", {}, 2600 * (2 if tier == "thorough" else 1), weight=9)
    swing["cfg"].update(batches=[[1.], [-3.], [2.]])
    swing.update(batches=3, eps=[0.3])
    if tier == "thorough":
        swing["cfg"]["opts"]["burn_in_steps"] = 6000
    out.append(swing)
    for cost in ("cliff", "faint"):
        out.append(long_item(sampler, [(2,), ()], cost, dict(burn_in_steps=60), 90 * mul, eps=(1e-3, 2e-3) if cost == "cliff" else (0.1, 0.3)))
    out.append(long_item(sampler, [(2,)], "coupled", {}, 3030, weight=9))       # adaptation ends where documented by default
    if tier == "thorough":
        for shapes in grids.SHAPES + [[(), (), (), ()], [(3, 2)], [(2,), (2,), (2,)]]:
            for cost in ("coupled", "quartic", "steep"):
                for burn in (1, 2, 4):
                    add(shapes, cost, dict(burn_in_steps=burn, scale_grad=3.0 ** burn, **extra[burn % 4]),
                        depth=4, weight=9)
            add(shapes, "coupled_batch", dict(burn_in_steps=3), batches=3, eps=(0.07, 0.2), depth=3, weight=9)
        for burn in (1, 3):
            add([(), ()], "coupled", dict(burn_in_steps=burn), depth=6, weight=20)
    return out
