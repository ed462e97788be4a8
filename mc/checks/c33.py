"""C33: chains do not depend on how elements are laid out into parameters."""
import itertools

import numpy as np

from .. import grids
from ..core import Violation
from ..explore import Tol
from ..world import World

BOUNDS = ("Every cut of 4 (thorough 5) elements into parameters (all compositions), every order of the resulting parameters and shapes of rank 0..5 "
          "in turn, some of 12-13 elements in 12 parameters and of 24 elements in one tensor of rank 1..5, SGHMC and SGLD, coupled, quartic and batch-dependent costs, two noise realisations of 6 steps crossing "
          "the end of burn-in: the chain of every element is compared with the chain of the one-vector layout given the same noise "
          "for the element. Separable costs: every element alone and every pair of elements against the joint chain.")
ASSUMPTIONS = ["which noise value belongs to which element is found out by probing the first step"]
TECHNIQUE = ("explicit-state exploration of the real samplers over all bounded layouts; chains of equivalent layouts compared "
             "step by step (no reference model)")


def compositions(n):
    for cuts in itertools.product((False, True), repeat=n - 1):
        sizes = [1]
        for cut in cuts:
            if cut:
                sizes.append(1)
            else:
                sizes[-1] += 1
        yield sizes


def layouts(n):
    for sizes in compositions(n):
        blocks, at = [], 0
        for size in sizes:
            blocks.append(tuple(range(at, at + size)))
            at += size
        for order in itertools.permutations(blocks):
            yield list(order)


def shape_of(size, k):
    options = [(size,), (size, 1), (1, size, 1), (1, size), (1, size, 1, 1)]
    if size == 1:
        options += [(), ()]
    if size == 4:
        options += [(2, 2), (2, 1, 2), (1, 2, 2, 1), (2, 1, 1, 1, 2)]
    if size == 24:
        options = [(24,), (4, 6), (2, 3, 4), (2, 2, 3, 2), (2, 1, 3, 2, 2), (24, 1)]
    return options[k % len(options)]


def plan(tier, rng):
    n = 5 if tier == "thorough" else 4
    every = list(layouts(n))
    out = []
    for sampler in ("SGHMC", "SGLD"):
        for cost in ("coupled", "quartic_batch"):
            use = every if tier == "thorough" or cost == "coupled" else every[::3]
            for i in range(0, len(use), 5):
                out.append(dict(kind="layouts", sampler=sampler, cost=cost, layouts=use[i:i + 5], n=n, shift=i, weight=5))
        for cost in ("quartic", "quad"):
            out.append(dict(kind="separable", sampler=sampler, cost=cost, n=n, weight=8))
        out.append(dict(kind="layouts", sampler=sampler, cost="coupled_batch", layouts=[[list(range(6))], [[5, 0], [3], [1, 2, 4]], [[2], [0, 1, 3, 4, 5]]],
                        n=6, shift=1, dtype="float32", weight=4))
        for shift in range(1, 6):           # tensors of rank 2 to 5
            out.append(dict(kind="layouts", sampler=sampler, cost="coupled", layouts=[[list(range(24))]], n=24,
                            shift=shift, weight=4))
        # more than ten parameters: their names no longer sort in the order of the parameters
        for size, many in ((12, [[[e] for e in range(12)], [[e] for e in range(10, -1, -1)] + [[11]]]), (13, [[[0, 12]] + [[e] for e in range(1, 12)]])):
            out.append(dict(kind="layouts", sampler=sampler, cost="coupled", layouts=many, n=size, shift=1, weight=9))
    return out


def check(item, R):
    R.sample(dict(item, layouts=item.get("layouts", [])[:2]))
    (layouts_kind if item["kind"] == "layouts" else separable)(item, R)


def config(item, blocks, shift=0):
    """blocks: which elements each parameter consists of, in order."""
    init = grids.values(item["n"] + 2)
    params = []
    for k, block in enumerate(blocks):
        params.append(dict(shape=list(shape_of(len(block), k + shift)), init=[init[e] for e in block]))
        params[-1]["init"] = np.reshape(params[-1]["init"], params[-1]["shape"]).tolist()
    perm = [e for block in blocks for e in block]
    return dict(sampler=item["sampler"], params=params, dtype=item.get("dtype", "float64"), cost=dict(name=item["cost"], perm=perm),
                opts=dict(burn_in_steps=3, seed=1, scale_grad=2.0), eps=[0.1, 0.05, 0.02],
                batches=grids.BATCHES if "batch" in item["cost"] else None), perm


def chain(cfg, perm, Z, R, fresh=False):
    """The chain of every element, given standard normal Z[step][element]."""
    def probe(noise, world):
        after, _ = world.step(noise)
        return after.astype(float)

    def world_at_start():
        if fresh:
            return World(cfg)
        w = chain.world
        w.restore(chain.snap)
        return w
    if not fresh:
        chain.world = World(cfg)
        chain.snap = chain.world.snapshot()
    w = world_at_start()
    n_noise = w.n_noise
    base = probe(np.zeros(n_noise), w)
    B = np.array([probe(np.eye(n_noise)[k], world_at_start()) - base for k in range(n_noise)]).T
    norms = np.sqrt((B ** 2).sum(axis=1))
    if not (norms > 0).all():
        raise Violation("an element gets no noise", key="noise", cfg=cfg)
    M = B / norms[:, None]
    world = world_at_start()
    out = []
    for k, z in enumerate(Z):
        want = np.array([z[e] for e in perm])
        noise = np.linalg.lstsq(M, want, rcond=None)[0]
        if not np.allclose(M @ noise, want, atol=1e-6):
            raise Violation("the elements' noise is not independent", key="noise", cfg=cfg)
        after, cost = world.step(noise)
        out.append((dict(zip(perm, after.astype(float).tolist())), float(cost)))
        R.step()
    world.close()
    return out


def noises(n):
    for pattern in (1, 2):
        yield [{e: ((7 * k + 5 * e * pattern + 3) % 13 - 6) / 4.0 for e in range(n)} for k in range(6)]


def layouts_reference(item, Z, R, fresh=False):
    cfg, perm = config(item, [list(range(item["n"]))])
    cfg["params"][0]["shape"] = [item["n"]]
    cfg["params"][0]["init"] = np.ravel(cfg["params"][0]["init"]).tolist()
    return chain(cfg, perm, Z, R, fresh)


def compare(got, want, tol, elements, what, **where):
    for k, ((a, ca), (b, cb)) in enumerate(zip(got, want)):
        for e in elements:
            if not tol.close(a[e], b[e], 20 * (1 + abs(b[e]))):
                raise Violation("%s: element %d is %r after step %d, should be %r" % (what, e, a[e], k, b[e]), key="layout", **where)


def layouts_check(item, blocks, shift, R):
    tol = Tol(item.get("dtype", "float64"))
    for Z in noises(item["n"]):
        def attempt(fresh):
            want = layouts_reference(item, Z, R, fresh)
            cfg, perm = config(item, blocks, shift)
            got = chain(cfg, perm, Z, R, fresh)
            compare(got, want, tol, range(item["n"]), "laid out as %r" % [p["shape"] for p in cfg["params"]], cfg=cfg)
            for k, ((_, a), (_, b)) in enumerate(zip(got, want)):
                if not tol.close(a, b, 20 * (1 + abs(b))):
                    raise Violation("cost after step %d is %r, should be %r" % (k, a, b), key="layout", cfg=cfg)
            R.state(item["sampler"], item["cost"], blocks, shift, [sorted(g[0].items()) for g in got])
        try:
            attempt(False)
        except Violation:
            attempt(True)
            R.count("confirmed_only_with_snapshots")
        R.trace()
        if shift % 2:
            break


def layouts_kind(item, R):
    for i, blocks in enumerate(item["layouts"]):
        layouts_check(item, blocks, item["shift"] + i, R)


def separable(item, R):
    n = item["n"]
    tol = Tol("float64")
    Z = next(noises(n))
    def attempt(fresh):
        want = layouts_reference(item, Z, R, fresh)
        subsets = [[e] for e in range(n)] + [list(s) for s in itertools.combinations(range(n), 2)]
        for k, subset in enumerate(subsets):
            blocks = [subset] if k % 2 else [[e] for e in subset[::-1]]
            cfg, perm = config(item, blocks, k)
            got = chain(cfg, perm, Z, R, fresh)
            compare(got, want, tol, subset, "elements %r without the others" % subset, cfg=cfg)
            R.state(item["sampler"], item["cost"], subset)
            R.trace()
    try:
        attempt(False)
    except Violation:
        attempt(True)
