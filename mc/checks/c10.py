"""C10: samplers start from and continue with the session's parameter values."""
import itertools

import numpy as np
import tensorflow as tf

from .. import grids, refs
from ..core import Violation
from ..explore import Tol
from ..world import World, sampler_class

BOUNDS = ("All four samplers. Start: every combination of {no value, initialised, assigned another value} for each of "
          "1-3 target parameters (of different shapes) before construction, then {initialisation of the remaining "
          "variables only, global initialisation, global initialisation followed by assignments} (the latter two "
          "for all combinations of up to 2 parameters, thorough: 3), then two steps. "
          "17 and 24 parameters in up to 2 such combinations. Parameters that were assigned 0, nan, inf, -1e200 or 1e-300. Histories: every sequence over {step, assign to the first / last / all parameters, re-initialise the "
          "parameters, assign to an unrelated variable, step of another sampler on the same parameters} of length 5 "
          "(thorough 7) with at most 2 (thorough 4) operations other than steps after construction, one and several parameters, in and after burn-in. Values of every "
          "parameter and of unrelated variables in the session are compared after every operation, every step with "
          "the reference that starts from the values in the session.")
ASSUMPTIONS = ["noise fed as 0", "reference (non-resource) variables, the default of the tensorflow 1 API"]

SHAPES = {"SGHMC": [(2,), (), (1, 2)], "SGLD": [(), (2,), (2, 1)], "Relativistic": [(), (1,), ()], "SVGD": [(2,), (2,), (2,)]}
EPS = [0.05, 0.03, 0.04]
OPS = ["step", "assign-first", "assign-last", "assign-all", "reinit", "assign-aux", "other"]


def config(sampler, n, burn=2):
    cfg = dict(sampler=sampler, params=grids.params(*SHAPES[sampler][:n]), dtype="float64",
               cost=dict(name="coupled"), opts={}, eps=EPS, batches=None)
    if sampler in ("SGHMC", "SGLD"):
        cfg["opts"]["burn_in_steps"] = burn
    if sampler == "Relativistic":
        cfg["momenta"] = [0.4, -1.3, 2.1]
    return cfg


def plan(tier, rng):
    out = []
    for sampler in SHAPES:
        for n in (1, 2, 3):
            if sampler == "SVGD" and n == 1:
                continue
            combos = list(itertools.product(("none", "init", "assign"), repeat=n))
            for start in range(0, len(combos), 7):
                out.append(dict(kind="start", cfg=config(sampler, n), combos=combos[start:start + 7],
                                all=tier == "thorough", weight=2))
        for values in (0., float("nan"), float("inf"), -1e200, 1e-300):
            out.append(dict(kind="special", cfg=config(sampler, 2), value=values))
        for n in (17, 24):
            for case in range((1 if n > 20 else 2) if sampler != "SVGD" else 1 if n < 20 else 0):
                out.append(dict(kind="many", cfg=dict(config(sampler, 2), params=grids.params(*[[(2,)] if sampler == "SVGD" else [()]][0] * n)),
                                case=case, weight=3))
        for n in (1, 3):
            if sampler == "SVGD" and n == 1:
                n = 2
            for burn in ((0, 1, 3) if sampler in ("SGHMC", "SGLD") else (0,)):
                for first in (OPS[:2], OPS[2:4], OPS[4:]):
                    out.append(dict(kind="history", cfg=config(sampler, n, burn), first=first,
                                    length=6 if tier == "thorough" else 4,
                                    deviations=4 if tier == "thorough" else 2, weight=3))
    return out


def other_values(cfg, k=0):
    return [np.asarray(s["init"], dtype=float).reshape(s["shape"]) * -0.5 + 0.25 + 0.125 * (i + k)
            for i, s in enumerate(cfg["params"])]


def assign(world, indices, values):
    for i in indices:
        world.params[i].load(values[i], world.session)


def raw(world, variables):
    return [np.array(v) for v in world.plain_run(variables)]


def has_value(world, variables):
    return [bool(b) for b in world.plain_run([tf.is_variable_initialized(v) for v in variables])]


def flat(arrays):
    return np.concatenate([np.ravel(a) for a in arrays])


def check(item, R):
    R.sample(item)
    if item["kind"] == "start":
        for combo in item["combos"]:
            for then in ("rest", "global", "global-assign"):
                if then != "rest" and len(combo) == 3 and combo.count("none") != 1 and not item["all"]:
                    continue
                start(item["cfg"], combo, then, R)
    elif item["kind"] == "many":
        cfg, n = item["cfg"], len(item["cfg"]["params"])
        if "momenta" in cfg:
            cfg["momenta"] = [0.1 * (i % 7 - 3) + 0.05 for i in range(n)]
        for then in ("rest", "global-assign"):
            start(cfg, [("none", "init", "assign")[(i + item["case"]) % 3 if item["case"] < 2 else 2] for i in range(n)], then, R)
    elif item["kind"] == "special":
        special(item["cfg"], item["value"], R)
    else:
        histories(item, R)


def aux_variables(world):
    world.aux = [tf.Variable(np.array([1.5, -2.5]), dtype=tf.float64, name="user_trainable"),
                 tf.Variable(7, dtype=tf.int32, name="user_counter", trainable=False),
                 tf.Variable(np.array(3.25), dtype=tf.float64, name="user_uninitialised")]
    world.session.run(tf.variables_initializer(world.aux[:2]))
    world.aux[0].load(np.array([0.5, 4.5]), world.session)


def start(cfg, combo, then, R):
    initial = [np.asarray(s["init"], dtype=float).reshape(s["shape"]) for s in cfg["params"]]
    replaced = other_values(cfg)
    want = [replaced[i] if c == "assign" else initial[i] for i, c in enumerate(combo)]

    def before(world):
        aux_variables(world)
        chosen = [p for p, c in zip(world.params, combo) if c != "none"]
        if chosen:
            world.session.run(tf.variables_initializer(chosen))
        assign(world, [i for i, c in enumerate(combo) if c == "assign"], replaced)
        world.before = set(tf.global_variables())
    where = dict(cfg=cfg, combo=combo, then=then)
    world = World(cfg, init=False, before=before)
    tol = Tol(cfg["dtype"])
    with world.graph.as_default():
        R.require(all(has_value(world, world.params)), "a target parameter has no value after construction",
                  key="construction", **where)
        got = raw(world, world.params)
        R.require(all(np.array_equal(a, b) for a, b in zip(got, want)),
                  "after construction the parameters are %r, should be %r" % ([a.tolist() for a in got], [a.tolist() for a in want]),
                  key="construction", **where)
        R.require(has_value(world, world.aux) == [True, True, False] and
                  [a.tolist() for a in raw(world, world.aux[:2])] == [[0.5, 4.5], 7],
                  "construction touched unrelated variables", key="construction-aux", **where)
        if then == "rest":
            rest = [v for v in tf.global_variables() if v not in world.before]
            world.plain_run(tf.variables_initializer(rest))
            got = raw(world, world.params)
            R.require(all(np.array_equal(a, b) for a, b in zip(got, want)),
                      "initialising the sampler's own variables changed the parameters", key="rest", **where)
        else:
            world.plain_run(tf.global_variables_initializer())
            want = initial
            if then == "global-assign":
                want = other_values(cfg, 3)
                assign(world, range(len(want)), want)
    aux = raw(world, world.aux[:2])
    R.state(cfg, combo, then)
    chain = refs.Chain(world)
    set_theta(chain, want)
    for k in range(2):
        expect, _ = chain.step(None, EPS[k])
        got, _ = world.step()
        R.step()
        R.require(tol.close(got, expect, 10), "step %d from %r is %r, should be %r" % (
            k, [a.tolist() for a in want], got.tolist(), expect.tolist()), key="start", **where)
        R.require(np.array_equal(world.theta(), got), "sample is not what the session has", key="start", **where)
    R.require(all(np.array_equal(a, b) for a, b in zip(aux, raw(world, world.aux[:2]))),
              "a step changed a variable that is no target parameter", key="aux", **where)
    R.trace()
    world.close()


def special(cfg, value, R):
    """Values that might be mistaken for missing ones are values, too."""
    for which in ((0,), (1,), (0, 1)):
        values = other_values(cfg)
        for i in which:
            values[i] = np.full_like(values[i], value)

        def before(world):
            world.session.run(tf.variables_initializer(world.params))
            assign(world, range(2), values)
        world = World(cfg, init=False, before=before)
        for moment in ("construction", "initialising the sampler's variables"):
            got = raw(world, world.params)
            R.require(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(got, values)),
                      "after %s the parameters are %r, should be %r" % (moment, [a.tolist() for a in got], [a.tolist() for a in values]),
                      key="special", cfg=cfg)
            with world.graph.as_default():
                world.plain_run(tf.variables_initializer([v for v in tf.global_variables() if v not in world.params]))
        if value == 0.:
            chain = refs.Chain(world)
            set_theta(chain, values)
            expect, _ = chain.step(None, EPS[0])
            got, _ = world.step()
            R.require(Tol(cfg["dtype"]).close(got, expect, 10), "step from zero is %r, should be %r" % (got.tolist(), expect.tolist()),
                      key="special", cfg=cfg)
        R.step()
        R.state(cfg, repr(value), which)
        R.trace()
        world.close()


def set_theta(chain, arrays):
    chain.theta = np.array([np.ravel(a) for a in arrays]) if chain.svgd else flat(arrays)


def build(cfg):
    world = World(cfg, before=aux_variables)
    with world.graph.as_default():
        known = set(tf.global_variables())
        values = raw(world, world.params)
        world.other = sampler_class("SGLD")(
            params=list(world.params), cost_fun=lambda ps: tf.add_n([tf.reduce_sum(p ** 2) for p in ps]) * 2.,
            session=world.session, dtype=world.dtype, burn_in_steps=2, seed=5)
        if not all(np.array_equal(a, b) for a, b in zip(values, raw(world, world.params))):
            raise Violation("constructing a second sampler changed the parameters", key="construction", cfg=cfg)
        world.plain_run(tf.variables_initializer([v for v in tf.global_variables() if v not in known]))
        world.reinit = tf.variables_initializer(world.params)
        world.plain_run(tf.variables_initializer(world.aux))
        world._prepare_restore()
    return world


def histories(item, R):
    cfg = item["cfg"]
    world = build(cfg)
    snap = world.snapshot()
    for path in itertools.product(item["first"], *[OPS] * (item["length"] - 1)):
        path = path + ("step",)
        if path[-2] == "assign-aux" or sum(p != "step" for p in path) > item["deviations"] or sum(p == "assign-aux" for p in path) > 1:
            continue
        world.restore(snap)
        try:
            walk(world, cfg, path, R)
        except Violation:
            fresh = build(cfg)
            walk(fresh, cfg, path, R)
            fresh.close()
            raise
    world.close()


def walk(world, cfg, path, R):
    tol = Tol(cfg["dtype"])
    chain = refs.Chain(world)
    initial = [np.asarray(s["init"], dtype=float).reshape(s["shape"]) for s in cfg["params"]]
    aux = raw(world, world.aux)
    steps = 0
    for k, op in enumerate(path):
        where = dict(cfg=cfg, path=path, position=k)
        n = len(cfg["params"])
        if op == "step":
            want, _ = chain.step(None, EPS[steps % len(EPS)])
            got, _ = world.step()
            steps += 1
            R.require(tol.close(got, want, 10 * (1 + np.max(np.abs(want)))), "step is %r, should be %r from the values in the session" % (
                got.tolist(), want.tolist()), key="continue", **where)
            set_theta(chain, np.split(got, np.cumsum([int(np.prod(s["shape"], dtype=int)) for s in cfg["params"]])[:-1]))
        elif op.startswith("assign") and op != "assign-aux":
            values = raw(world, world.params)
            indices = dict(first=[0], last=[n - 1], all=range(n))[op[7:]]
            for i in indices:
                values[i] = other_values(cfg, k)[i]
            assign(world, indices, values)
            set_theta(chain, values)
        elif op == "assign-aux":
            world.aux[0].load(np.array([9., k]), world.session)
            aux = raw(world, world.aux)
        elif op == "reinit":
            world.plain_run(world.reinit)
            set_theta(chain, initial)
        elif op == "other":
            next(world.other)
            set_theta(chain, raw(world, world.params))
        R.step()
        got = world.theta()
        R.require(tol.close(got, chain.flat(), 10 * (1 + np.max(np.abs(got)))), "after %s the session has %r, should be %r" % (
            op, got.tolist(), chain.flat().tolist()), key="session", **where)
        R.require(all(np.array_equal(a, b) for a, b in zip(aux, raw(world, world.aux))),
                  "%s changed a variable that is no target parameter" % op, key="aux", **where)
        R.state(cfg, path[:k + 1])
    R.trace()
