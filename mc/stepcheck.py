"""Conformance of single steps and of whole paths; shared by C01, C02, C03, C05."""
from .explore import explore, long_run
from . import grids


def item(sampler, shapes, cost, opts, dtype="float64", depth=3, batches=None, eps=(0.1, 0.02),
         patterns=2, weight=1, start=0, momenta=None):
    cfg = dict(sampler=sampler, params=grids.params(*shapes, start=start), dtype=dtype,
               cost=dict(name=cost), opts=opts, eps=[0.05],
               batches=grids.BATCHES if batches else None)
    if sampler == "Relativistic":
        cfg["momenta"] = momenta or [0.4, -1.3, 2.1]
    return dict(kind="explore", weight=weight, depth=depth, eps=list(eps), patterns=patterns,
                batches=batches, cfg=cfg)


def long_item(sampler, shapes, cost, opts, steps, eps=(0.05, 0.02, 0.04), dtype="float64", weight=3):
    it = item(sampler, shapes, cost, opts, dtype=dtype, batches=3 if "batch" in cost else None, weight=weight)
    it.update(kind="long", steps=steps, eps=list(eps))
    return it


def noise(k, j):
    return ((k * 7 + j * 13) % 11 - 5) / 3.7


def check(item, R):
    cfg = item["cfg"]
    R.sample(dict(cfg=cfg, kind=item["kind"], depth=item["depth"], eps=item["eps"]))
    batches = cfg["batches"][:item["batches"]] if cfg["batches"] else [None]
    if item["kind"] == "long":
        long_run(cfg, R, item["steps"], batches, item["eps"], noise)
    else:
        explore(cfg, R, item["depth"], batches, item["eps"], grids.PATTERNS[:item["patterns"]])
