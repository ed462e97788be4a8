"""C34: stepsize schedules are infinite and drive the step taken."""
import itertools

import numpy as np

from .. import grids, refs
from ..core import Violation
from ..explore import Tol
from ..world import Sched, World

BOUNDS = ("Every sequence of up to 3 (thorough 5) operations (next, iteration, 4 kinds of update, str, initial_value) on two constant "
          "schedules for 9 values; a run of 20000 values. All four samplers in float64 and float32, before, across and after "
          "burn-in: every sequence of 3 (thorough 4) stepsizes from {0.1, 0.02, 0.05, 0.004}, and of stepsizes given as int, numpy "
          "scalars of three types and 0-d arrays, zero (SVGD: negative) stepsizes, compared with the reference; schedules that are subclasses of StepsizeSchedule, plain "
          "objects, and react to update; initial values unlike the first value; every interleaving of up to 6 steps of two "
          "samplers that share a schedule, have one each, or use the default.")
ASSUMPTIONS = ["noise fed as 0", "a schedule is an object with __next__, update and initial_value"]
TECHNIQUE = ("explicit-state exploration: all bounded operation sequences on real schedules, and all bounded stepsize sequences and "
             "interleavings of real samplers compared with a reference model")
VALUES = [0.01, 0.1, 1, 0, 1e-12, 123456.75, np.float32(0.3), np.float64(0.02), np.int64(3)]
DEFAULTS = dict(SGHMC=0.01, SGLD=0.01, Relativistic=0.001, SVGD=0.1)      # as documented
EPS = [0.1, 0.02, 0.05, 0.004]


def configurations(dtype="float64", full=True):
    for sampler, shapes, opts in (("SGHMC", [(2,), ()], dict(burn_in_steps=0)), ("SGHMC", [(2,)], dict(burn_in_steps=2)),
                                  ("SGHMC", [()], dict(burn_in_steps=50)), ("SGHMC", [(), (1, 2)], dict(burn_in_steps=1, mdecay=0.2)),
                                  ("SGLD", [(2,), ()], dict(burn_in_steps=0)), ("SGLD", [(2,)], dict(burn_in_steps=2)),
                                  ("SGLD", [()], dict(burn_in_steps=50)), ("SGLD", [(), (1, 2)], dict(burn_in_steps=1, A=0.5)),
                                  ("Relativistic", [(), (1,)], {}), ("SVGD", [(2,), (2,), (2,)], {})):
        if not full and opts.get("burn_in_steps") in (0, 50):
            continue
        cfg = dict(sampler=sampler, params=grids.params(*shapes), dtype=dtype, cost=dict(name="coupled"), opts=opts, eps=[0.05],
                   batches=None)
        if sampler == "Relativistic":
            cfg["momenta"] = [0.4, -1.3]
        yield cfg


def plan(tier, rng):
    depth = 5 if tier == "thorough" else 3
    out = [dict(kind="constant", first=i, second=(i * 2 + 1) % len(VALUES), depth=depth, weight=2) for i in range(len(VALUES))]
    for dtype in ("float64", "float32"):
        for cfg in configurations(dtype):
            out.append(dict(kind="tree", cfg=cfg, depth=4 if tier == "thorough" else 3, weight=3))
    for cfg in configurations():
        for style in ("subclass", "object", "reacting", "generator"):
            out.append(dict(kind="styles", cfg=cfg, style=style))
        out.append(dict(kind="types", cfg=cfg, full=tier == "thorough", weight=3))
    for cfg in configurations("float32", full=False):
        for style in ("subclass", "object"):
            out.append(dict(kind="styles", cfg=cfg, style=style))
    small = list(configurations(full=False))
    for i, cfg in enumerate(small):
        for j, other in enumerate(small):
            if tier == "thorough" or (i + j) % 2 == 0:
                for modes in (["shared", "own"], ["default", "constants"]):
                    out.append(dict(kind="two", cfgs=[cfg, other], steps=6 if tier == "thorough" else 4, weight=2, modes=modes))
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


# -- constant schedules ---------------------------------------------------
UPDATES = [((), {}), (([1., 2.], 3.), {}), ((0.5,), dict(stepsize=7.)), ((), dict(initial_value=9., params=None))]


def perform(schedule, op):
    if op == "next":
        return [next(schedule)]
    if op == "iterate":
        return list(itertools.islice(schedule, 3))
    if op == "for":
        got = []
        for value in schedule:
            got.append(value)
            if len(got) == 2:
                break
        return got
    if op == "zip":
        return [v for _, v in zip(range(2), iter(schedule))]
    if op == "value":
        return [schedule.initial_value]
    if op == "str":
        return str(schedule)
    args, kwargs = UPDATES[op]
    schedule.update(*args, **kwargs)
    return []


def constant(item, R):
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule, StepsizeSchedule
    values = [VALUES[item["first"]], VALUES[item["second"]]]
    ops = ["next", "iterate", "for", "zip", "value", "str"] + list(range(len(UPDATES)))
    steps = [(k, op) for k in (0, 1) for op in ops]
    for depth in range(1, item["depth"] + 1):
        if depth == 5:      # thorough: longest histories with a coarser alphabet
            steps = [(k, op) for k in (0, 1) for op in ("next", "iterate", "str", 1, 3)]
        for history in itertools.product(steps, repeat=depth):
            if history[0][0] == 1 and depth > 2:
                continue        # symmetric to a history starting with schedule 0
            schedules = [ConstantStepsizeSchedule(values[0]), ConstantStepsizeSchedule(initial_value=values[1])]
            for k, op in history:
                got = perform(schedules[k], op)
                want = values[k]
                if op == "str":
                    if got != "ConstantStepsizeSchedule(stepsize={})".format(want):
                        raise Violation("a schedule of %r prints as %r" % (want, got), key="str", history=history)
                elif any(type(v) is not type(want) or v != want for v in got):
                    raise Violation("a constant schedule of %r yields %r" % (want, got), key="constant", history=history)
            R.step(depth)
            R.trace()
    R.state("constant", item["first"])
    schedule = ConstantStepsizeSchedule(values[0])
    R.require(isinstance(schedule, StepsizeSchedule) and iter(schedule) is not None, "no schedule", key="constant")
    for i, v in enumerate(itertools.islice(schedule, 20000)):
        if v != values[0]:
            raise Violation("value %d is %r" % (i, v), key="constant")
        if i % 7 == 3:
            schedule.update([v], float(i))
    R.require(i == 19999, "the schedule ends after %d values" % (i + 1), key="constant")


# -- one sampler ----------------------------------------------------------
def tree(item, R):
    cfg = item["cfg"]
    tol = Tol(cfg["dtype"])
    world = World(cfg)
    import copy
    root = refs.Chain(world)

    def visit(path, chain, depth):
        R.state(path, cfg["sampler"], cfg["dtype"], str(cfg["opts"]))
        if not depth:
            R.trace()
            return
        snap = world.snapshot()
        for eps in EPS:
            world.restore(snap)
            world.schedule.override = eps
            position = world.schedule.position
            got, cost = world.step()
            R.step()
            R.require(world.schedule.position == position + 1, "a step takes %d stepsizes" % (world.schedule.position - position), key="count")
            nxt = copy.deepcopy(chain_state(chain))
            want, want_cost = nxt.step(None, eps)
            if not tol.close(got, want, 10 * (1 + np.max(np.abs(want)))):
                raise Violation("a step of stepsize %r after %r leads to %r, should be %r" % (eps, path, got.tolist(), np.asarray(want).tolist()),
                                key="step", cfg=cfg)
            visit(path + [eps], nxt, depth - 1)
    try:
        visit([], root, item["depth"])
    except Violation:
        confirm(cfg, item["depth"], tol, R)     # without snapshots
    world.close()


def chain_state(chain):
    """A chain without its world is copied by value, the world is shared."""
    other = refs.Chain.__new__(refs.Chain)
    other.__dict__.update({k: v for k, v in vars(chain).items() if k not in ("model", "theta")})
    import copy
    other.model, other.theta = copy.deepcopy(chain.model), np.array(chain.theta)

    class Holder(object):
        def __deepcopy__(self, memo):
            return other
    return Holder()


def confirm(cfg, depth, tol, R):
    for path in itertools.product(EPS, repeat=depth):
        world = World(cfg, schedule=Sched(path))
        follow(world, refs.Chain(world), path, tol)
        world.close()
        R.step(len(path))


def follow(world, chain, path, tol, before=None):
    for i, eps in enumerate(path):
        got, _ = world.step()
        want, _ = chain.step(None, float(eps))
        if not tol.close(got, want, 10 * (1 + np.max(np.abs(want)))):
            raise Violation("step %d of stepsizes %r leads to %r, should be %r" % (i, [float(e) for e in path], got.tolist(),
                            np.asarray(want).tolist()), key="step", cfg=world.cfg)


class Plain(object):
    """Only what the interface has; no __iter__."""

    def __init__(self, values, initial_value):
        self.values, self.initial_value, self.taken = list(values), initial_value, 0

    def __next__(self):
        self.taken += 1
        return self.values[(self.taken - 1) % len(self.values)]

    def update(self, *args, **kwargs):
        pass


def make_schedule(style, path, initial):
    from pysgmcmc.stepsize_schedules import StepsizeSchedule
    if style == "object":
        return Plain(path, initial)
    if style == "generator":
        class Generated(StepsizeSchedule):
            def __init__(self, initial_value):
                super().__init__(initial_value)
                self.source = (v for v in itertools.cycle(path))

            def __next__(self):
                return next(self.source)

            def update(self, params, cost):
                pass
        return Generated(initial)
    if style == "subclass":
        class Listed(Plain, StepsizeSchedule):
            pass
        return Listed(path, initial)

    class Reacting(StepsizeSchedule):
        """Halves the stepsize whenever it is told about a sample."""

        def __init__(self, initial_value):
            super().__init__(initial_value)
            self.current = path[0]

        def __next__(self):
            return self.current

        def update(self, *args, **kwargs):
            self.current = self.current / 2. + 0.001
    return Reacting(initial)


def styles(item, R):
    cfg, style = item["cfg"], item["style"]
    tol = Tol(cfg["dtype"])
    for initial in (0.05, 0.7, 1, np.float32(0.25)):
        for path in ([0.02, 0.1, 0.05], [0.1, 0.1, 0.003], [0.05, 0.02, 0.02]):
            schedule = make_schedule(style, path, initial)
            world = World(cfg, schedule=schedule)
            steps = path * 2
            if style == "reacting":
                steps = [path[0]]
                while len(steps) < 6:
                    steps.append(steps[-1] / 2. + 0.001)
            follow(world, refs.Chain(world), steps, tol)
            world.close()
            R.require(schedule.initial_value == initial, "the sampler changed the schedule's initial value", key="initial")
            R.step(len(steps))
            R.trace()
            R.state(style, initial, path, cfg["sampler"], str(cfg["opts"]))


def types(item, R):
    cfg = item["cfg"]
    tol = Tol(cfg["dtype"])
    kinds = [float, np.float64, np.array, lambda v: np.float64(np.float32(v)), lambda v: 1 if v > 0.09 else v,
             lambda v: np.int64(1) if v > 0.09 else np.float64(v)]
    for i, kind in enumerate(kinds):
        for other in kinds if item["full"] else kinds[i - 1:i] or kinds[-1:]:
            path = [kind(0.1), other(0.02), kind(0.05), other(0.1), kind(0.02)]
            world = World(cfg, schedule=Sched(path))
            follow(world, refs.Chain(world), path, tol)
            world.close()
            R.step(len(path))
            R.trace()
    paths = [[0.05, 0, 0.02, 0.0, 0.1], [0.0, 0.05, 1e-7, 0.05, 0.05], [0.1234567890123456, 0.0123456789012345, 1. / 3, 0.1, 2. / 3]]
    if cfg["sampler"] == "SVGD":
        paths += [[-0.05, 0.02, -0.02], [0.02, 5.0, -3.0]]
    for path in paths:
        world = World(cfg, schedule=Sched(path))
        follow(world, refs.Chain(world), path, tol)
        world.close()
        R.step(len(path))
        R.trace()
    R.state("types", cfg["sampler"], str(cfg["opts"]))


# -- two samplers ---------------------------------------------------------
def two(item, R):
    for mode in item["modes"]:
        worlds = make_two(item["cfgs"], mode)
        starts = [w.snapshot() for w in worlds]
        for order in itertools.product((0, 1), repeat=item["steps"]):
            for w, s in zip(worlds, starts):
                w.restore(s)
            try:
                run_two(worlds, mode, order, R)
            except Violation:
                for w in worlds:
                    w.close()
                worlds = make_two(item["cfgs"], mode)       # confirm without restoring anything
                starts = [w.snapshot() for w in worlds]
                run_two(worlds, mode, order, R)
            R.trace()
            R.state(mode, order, str(item["cfgs"]))
        for w in worlds:
            w.close()


SCRIPTS = [[0.1, 0.02, 0.05, 0.004, 0.07, 0.03], [0.006, 0.08, 0.011, 0.09, 0.04, 0.055]]


def make_two(cfgs, mode):
    worlds, sched = [], None
    for k, cfg in enumerate(cfgs):
        kw = {}
        if mode == "shared":
            sched = sched or Sched(SCRIPTS[0])
            kw["schedule"] = sched
        elif mode == "constants":
            from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
            kw["schedule"] = ConstantStepsizeSchedule([0.03, 0.09][k])
        else:
            kw["schedule"] = Sched(SCRIPTS[k])
        if mode == "default" and k == 1:
            kw["before"] = lambda world: world.kwargs.pop("stepsize_schedule")
        worlds.append(World(cfg, **kw))
    return worlds


def run_two(worlds, mode, order, R):
    tol = Tol("float64")
    chains = [refs.Chain(w) for w in worlds]
    taken = [0, 0]
    for i, k in enumerate(order):
        eps = {"shared": SCRIPTS[0][i % 6], "own": SCRIPTS[k][taken[k] % 6], "constants": [0.03, 0.09][k],
               "default": (SCRIPTS[0][taken[0] % 6], DEFAULTS[worlds[1].kind])[k]}[mode]
        taken[k] += 1
        got, _ = worlds[k].step()
        want, _ = chains[k].step(None, eps)
        R.step()
        if not tol.close(got, want, 10 * (1 + np.max(np.abs(want)))):
            raise Violation("%s schedules, order %r: step %d of stepsize %r leads to %r, should be %r" % (
                mode, order, i, eps, got.tolist(), np.asarray(want).tolist()), key="two", cfgs=[w.cfg for w in worlds])
