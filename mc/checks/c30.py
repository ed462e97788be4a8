"""C30: traces extracted from samplers are the sampler's own chain."""
import itertools

import numpy as np
import tensorflow as tf

from .. import grids
from ..core import Violation
from ..world import World

BOUNDS = ("Real seeded samplers of 4 kinds with 5 layouts (single scalar, single array, several; in, across and after burn-in): every history of "
          "up to 3 extractions with n_samples 1..3 (thorough 1..4) and keep_every 1..3 and of direct steps in between, compared with an "
          "identical sampler stepped one by one; own and given names. Multi-traces: every n_chains 1..3, samples 1..3, keep_every 1..3 and the "
          "defaults, eleven chains, 60 samples, keep_every 64, with factories whose chains differ; graph, session and initial values seen by each chain.")
ASSUMPTIONS = ["how many steps an extraction makes after its last sample is not specified; it is observed through the schedule", "pymc3 is a stub"]
TECHNIQUE = ("explicit-state exploration: all bounded histories of extractions and steps on real samplers, compared with an identical "
             "sampler stepped one by one")

LAYOUTS = {"scalar": [()], "vector": [(3,)], "one": [(1,)], "several": [(2,), (), (1, 2)], "pair": [(), ()]}


def plan(tier, rng):
    out = []
    for sampler in ("SGHMC", "SGLD", "Relativistic"):
        for layout in LAYOUTS:
            if sampler == "Relativistic" and layout in ("vector", "several"):
                continue
            for burn in (0, 3, 50) if sampler != "Relativistic" else (None,):
                if tier == "quick" and (burn == 50 and layout not in ("vector", "pair") or burn == 0 and layout not in ("scalar", "several")
                                        or sampler == "SGLD" and layout in ("one", "pair")):
                    continue
                parts = 6 if tier == "thorough" else 2
                out += [dict(kind="extract", sampler=sampler, layout=layout, burn=burn, top=4 if tier == "thorough" else 3, weight=3,
                             part=part, parts=parts) for part in range(parts)]
    out += [dict(kind="extract", sampler="SVGD", layout=None, burn=None, top=2, weight=3, part=part, parts=4) for part in range(4)]
    for n_chains in (1, 2, 3):
        for n in (1, 2, 3):
            for every in (1, 2, 3):
                if tier == "thorough" or (n_chains + n + every) % 2:
                    out.append(dict(kind="multi", n_chains=n_chains, n=n, every=every, layout=list(LAYOUTS)[(n + every) % 5],
                                    names=bool(n % 2), weight=n_chains))
    out += [dict(kind="multi", n_chains=None, n=None, every=None, layout="scalar", names=False, weight=9),
            dict(kind="multi", n_chains=2, n=4, every=None, layout="several", names=False, weight=3),
            dict(kind="multi", n_chains=11, n=2, every=1, layout="pair", names=False, weight=9),
            dict(kind="multi", n_chains=1, n=60, every=2, layout="vector", names=True, weight=3),
            dict(kind="multi", n_chains=1, n=2, every=64, layout="several", names=False, weight=3)]
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def config(sampler, layout, burn):
    if sampler == "SVGD":
        return dict(sampler=sampler, params=[dict(shape=[2], init=[0.3 + i, -0.5 * i * i]) for i in range(3)], dtype="float64",
                    cost=dict(name="coupled"), opts={}, eps=[0.05, 0.02], batches=None)
    opts = dict(seed=11)
    if burn is not None:
        opts["burn_in_steps"] = burn
    cfg = dict(sampler=sampler, params=grids.params(*LAYOUTS[layout]), dtype="float64", cost=dict(name="coupled"), opts=opts,
               eps=[0.1, 0.03, 0.07], batches=None)
    if sampler == "Relativistic":
        cfg["momenta"] = [0.4, -1.3, 2.1]
    return cfg


def copy_sample(world, sample):
    shapes = [tuple(s["shape"]) for s in world.cfg["params"]]
    if len(shapes) == 1 and not (isinstance(sample, (list, tuple)) and len(sample) == 1):
        sample = [sample]
    return [np.array(v) for v in sample]


def expected_chain(cfg, steps):
    """The chain of an identical sampler, stepped one by one."""
    world = World(cfg, free_noise=True)
    chain = [copy_sample(world, next(world.sampler)[0]) for _ in range(steps)]
    world.close()
    return chain


def verify(trace, want, names, R, **where):
    if len(trace) != len(want):
        raise Violation("the trace has %d samples, should have %d" % (len(trace), len(want)), key="length", **where)
    if list(trace.varnames) != list(names):
        raise Violation("the variables are %r, should be %r" % (trace.varnames, names), key="names", **where)
    for j, name in enumerate(names):
        got = np.asarray(trace.get_values(name))
        column = np.array([sample[j] for sample in want])
        if got.shape != column.shape or not np.array_equal(got, column):
            raise Violation("variable %s is %r, should be %r" % (name, got.tolist(), column.tolist()), key="samples", **where)
    for i, sample in enumerate(want):
        point = trace.point(i)
        if any(not np.array_equal(point[name], sample[j]) for j, name in enumerate(names)):
            raise Violation("point %d is %r" % (i, point), key="samples", **where)


def extract(item, R):
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    cfg = config(item["sampler"], item["layout"], item["burn"])
    top = item["top"]
    chain = expected_chain(cfg, 3 * top * 3 + 8)
    world = World(cfg, free_noise=True)
    sampler = world.sampler
    if item["sampler"] == "SVGD" and not hasattr(sampler, "params"):
        R.count("no params")
        return
    sizes = list(itertools.product(range(1, top + 1), (1, 2, 3)))
    if item["sampler"] == "SVGD":
        names = ["p%d" % i for i in range(3)]
    else:
        names = [p.name for p in world.params]
    histories = [(a,) for a in sizes]
    histories += [(a, gap, b) for a in sizes for b in sizes[::2] for gap in (0, 2)
                  if top > 3 or (a[0] + a[1] + b[0] + 2 * b[1] + gap) % 5 == 0]
    histories += [(1, a, 1, sizes[3], 0, sizes[-1]) for a in sizes]
    for h, history in enumerate(histories):
        if h % item["parts"] != item["part"]:
            continue
        # random ops cannot be rewound: a fresh sampler for every seeded history, unless there is no noise
        world.close()
        world = World(cfg, free_noise=True)
        sampler = world.sampler
        traces = []
        for k, part in enumerate(history):
            if isinstance(part, int):
                for _ in range(part):
                    next(sampler)
                continue
            n, every = part
            at = world.schedule.position
            kw = {}
            if every != 1 or h % 2:
                kw["keep_every"] = every
            own = h % 3 == 0 or item["sampler"] == "SVGD"
            used = ["v%d" % i for i in range(len(names))] if own else names
            if own:
                kw["varnames"] = used
            trace = PYSGMCMCTrace.from_sampler(chain_id=k, sampler=sampler, n_samples=n, **kw)
            want = [chain[at + i * every] for i in range(n)]
            R.require(trace.chain == k, "chain id is %r, should be %r" % (trace.chain, k), key="id")
            R.require(world.schedule.position >= at + (n - 1) * every + 1, "fewer steps than samples", key="steps")
            verify(trace, want, used, R, history=history, config=item)
            traces.append((trace, want, used))
            R.step(world.schedule.position - at)
            R.state(sorted(item.items(), key=str), history[:k + 1])
        for trace, want, used in traces:      # later steps do not change them
            verify(trace, want, used, R, history=history, later=True)
        R.trace()
    world.close()


def multi(item, R):
    from pysgmcmc.diagnostics.sample_chains import pymc3_multitrace
    layout = item["layout"]
    n_chains, n, every = item["n_chains"] or 2, item["n"] or 100, item["every"] or 10
    seen, keep = [], []

    def build(k, session, graph):
        cfg = config("SGHMC", layout, 3)
        cfg["opts"]["seed"] = 20 + k
        for p in cfg["params"]:
            p["init"] = (np.asarray(p["init"]) + k).tolist()
        if k:       # every chain's parameters have names of their own, or the first chain's in another order
            for j, p in enumerate(cfg["params"]):
                p["name"] = "%s_user_%d" % (("q", "c", "x")[(j + k) % 3], j) if n % 2 else "qcx"[(j + k) % len(cfg["params"])] + "_user"
        elif not n % 2:
            for j, p in enumerate(cfg["params"]):
                p["name"] = "qcx"[j] + "_user"
        return World(cfg, session=session, graph=graph, free_noise=True, init=False)

    def get_sampler(session):
        graph = tf.get_default_graph()
        seen.append((session, graph, session.graph))
        world = build(len(seen) - 1, session, graph)
        keep.append(world)
        return world.sampler

    kw = {}
    for name, value in (("n_chains", item["n_chains"]), ("samples_per_chain", item["n"]), ("keep_every", item["every"])):
        if value is not None:
            kw[name] = value
    names = ["a%d" % i for i in range(len(LAYOUTS[layout]))]
    if item["names"]:
        kw["parameter_names"] = names
    before = tf.get_default_graph()
    multitrace = pymc3_multitrace(get_sampler, **kw)
    R.require(tf.get_default_graph() is before, "the default graph has changed", key="graph")
    R.require(len(seen) == n_chains, "the factory was called %d times for %d chains" % (len(seen), n_chains), key="chains")
    for session, graph, session_graph in seen:
        R.require(isinstance(session, tf.Session), "the factory gets %r" % session, key="graph")
        R.require(session_graph is graph and graph is not before, "the session's graph is not the default one", key="graph")
    R.require(len(set(map(id, (s for s, _, _ in seen)))) == n_chains and len(set(id(g) for _, g, _ in seen)) == n_chains,
              "chains share a graph or session", key="graph")
    traces = multitrace.straces_given
    R.require(len(traces) == n_chains and [t.chain for t in traces] == list(range(n_chains)),
              "chain ids %r" % [t.chain for t in traces], key="id")
    for k, trace in enumerate(traces):
        world = build(k, None, None)
        world.session.run(tf.variables_initializer(world.graph.get_collection(tf.GraphKeys.GLOBAL_VARIABLES)))
        chain = [copy_sample(world, next(world.sampler)[0]) for _ in range(n * every)]
        verify(trace, [chain[i * every] for i in range(n)], names if item["names"] else [p.name for p in keep[k].params], R,
               chain=k, config=item)
        world.close()
        R.step(n * every)
        R.state(sorted(item.items(), key=str), k)
    R.trace()
