"""C22: networks are collected every sample_steps iterations after burn-in."""
import itertools

import numpy as np

from .. import bnn
from ..core import Violation

BOUNDS = ("Real trainings for every combination of n_nets in {1,2,3}, n_iters in {1,..,5,7}, burn_in_steps 0..3, sample_steps "
          "1..3 (thorough: n_nets 1..4, n_iters 1..11, burn-in 0..5, steps 1..4), sampling methods and numbers of network "
          "variables in turn, plus the documented defaults of each option; up to 1000 networks; stepsizes of zero. The values of all variables before every step "
          "are recorded; the networks used by predict are compared with the recorded chain.")
ASSUMPTIONS = ["a schedule's __next__ is called once before each step (decided by C12)"]
TECHNIQUE = ("explicit-state enumeration of all bounded training configurations, each run on the real implementation and compared "
             "with a reference model of the collection rule")


def plan(tier, rng):
    if tier == "thorough":
        space = itertools.product((1, 2, 3, 4), range(1, 12), range(6), (1, 2, 3, 4))
    else:
        space = itertools.product((1, 2, 3), (1, 2, 3, 4, 5, 7), range(4), (1, 2, 3))
    variants = list(itertools.product(("const", "linear", "mlp", "scalar"), ("SGLD", "SGHMC")))
    out = []
    for k, (nets, iters, burn, every) in enumerate(space):
        net, method = variants[0] if k % 3 else variants[(k // 3) % len(variants)]
        out.append(dict(kind="grid", n_nets=nets, n_iters=iters, burn_in_steps=burn, sample_steps=every, net=net, method=method))
    out += [dict(kind="grid", net="const", method="SGLD", n_nets=2, weight=9),
            dict(kind="grid", net="const", method="SGLD", burn_in_steps=0, sample_steps=1, weight=2),
            dict(kind="grid", net="const", method="SGHMC", n_nets=2, n_iters=1300, sample_steps=7, weight=9),
            dict(kind="grid", net="const", method="SGLD", n_nets=5, n_iters=600, burn_in_steps=510, sample_steps=2, weight=5),
            dict(kind="grid", net="const", method="SGLD", n_nets=3, n_iters=40, burn_in_steps=17, sample_steps=5, weight=2),
            dict(kind="grid", net="const", method="SGHMC", n_nets=3, n_iters=12, burn_in_steps=20, sample_steps=1, weight=2)]
    # a sampler that stands still yields networks all the same
    for stepsizes in ([0.], [1e-4, 0., 0.], [1e-4] + [0.] * 9):
        for nets in (1, 4, 7):
            out.append(dict(kind="grid", net="linear", method="SGLD", n_nets=nets, n_iters=12, burn_in_steps=1, sample_steps=1, stepsizes=stepsizes))
    # many networks
    out += [dict(kind="grid", net="const", method="SGLD", n_nets=130, n_iters=140, burn_in_steps=2, sample_steps=1, weight=6),
            dict(kind="grid", net="const", method="SGHMC", n_nets=300, n_iters=700, burn_in_steps=3, sample_steps=2, weight=8),
            dict(kind="grid", net="linear", method="SGLD", n_nets=1000, n_iters=1040, burn_in_steps=0, sample_steps=1, weight=9)]
    out.append(dict(kind="grid", net="const", method="SGLD", n_nets=3, n_iters=9000, burn_in_steps=5500, sample_steps=1100, weight=12))
    if tier == "thorough":
        out.append(dict(kind="grid", net="const", method="SGLD", n_nets=60, burn_in_steps=10, sample_steps=1000, weight=90))
    return out


def model(n_nets=100, n_iters=50000, burn_in_steps=1000, sample_steps=100):
    kept, i = [], 0
    while i < n_iters:
        if i > burn_in_steps and i % sample_steps == 0:
            kept.append(i)
        i += 1
        if len(kept) == n_nets:
            break
    return kept, i


def check(item, R):
    R.sample(item)
    options = {k: item[k] for k in ("n_nets", "n_iters", "burn_in_steps", "sample_steps") if k in item}
    kept, steps = model(**options)
    with bnn.Trained(net=item["net"], method=item["method"], n=4, batch_size=2, normalize_output=False,
                     stepsizes=item.get("stepsizes") or [1e-4 if item["method"] == "SGLD" else 0.03], **options) as t:
        R.step(t.steps)
        R.state(sorted(item.items()))
        R.require(t.steps == steps, "%d iterations were run, should be %d" % (t.steps, steps), key="iterations", **options)
        R.require(len(t.source.batches) == steps, "%d batches were drawn in %d iterations" % (len(t.source.batches), steps),
                  key="batches", **options)
        try:
            mean, noise = t.bnn.predict(t.x, return_individual_predictions=True)
        except Exception:
            if kept:
                raise
            R.count("no networks")   # nothing to predict with: refusing is as good as an empty prediction
            R.trace()
            return
        if len(mean) != len(kept) or len(noise) != len(kept):
            raise Violation("%d networks are kept, should be those of iterations %r" % (len(mean), kept), key="number", **options)
        flat = [np.concatenate([np.ravel(v) for v in values]) for values in t.chain]
        if not all(np.isfinite(f).all() for f in flat):
            R.count("diverged")
            return
        for r, i in enumerate(kept):
            want_mean, want_noise = t.outputs(t.chain[i], t.x)
            if bnn.close(mean[r], want_mean, 1e-9, 1e-12) and bnn.close(noise[r], want_noise, 1e-9):
                continue
            others = [j for j in range(steps) if bnn.close(mean[r], t.outputs(t.chain[j], t.x)[0], 1e-9, 1e-12)]
            raise Violation("network %d is not the sample of iteration %d but of %r" % (r, i, others), key="networks", **options)
        R.trace()
