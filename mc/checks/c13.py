"""C13: get_sampler builds the requested sampler with exactly the given options."""
import enum
import inspect
import itertools

import numpy as np
import tensorflow as tf

from .. import grids
from ..core import Violation
from ..world import MCSession, Sched, World, fixed_momenta, sampler_class, single_threaded

BOUNDS = ("For every sampling method: every assignment of {absent, ordinary value, neutral value (0, 0.0, None)} to "
          "every optional keyword; the arguments with which the class is constructed must be those of a direct call. "
          "For every single and pair of optional keywords (thorough: triples), default session or given one: the chains "
          "of get_sampler and of a direct constructor call are compared bit by bit over 4 steps. All subsets of missing "
          "required arguments, every keyword of other samplers and near misses of every keyword, 20 non-members.")
ASSUMPTIONS = ["executor with a single thread", "noise is seeded or fed as 0"]
METHODS = {"SGHMC": "SGHMC", "SGLD": "SGLD", "RelativisticSGHMC": "Relativistic", "SVGD": "SVGD"}

ORDINARY = dict(burn_in_steps=(2, 0), mdecay=(0.2, 0.0), scale_grad=(3.0, 1.0), A=(0.7, 0.0), mass=(1.5, 1.0),
                speed_of_light=(2.5, 1.0), D=(0.6, 0.0), Bhat=(0.3, 0.0), alpha=(0.8, 0.0), fudge_factor=(0.01, 0.0),
                seed=(7, 0), dtype=("float32", None), batch_generator=("batches", None),
                stepsize_schedule=("schedule", None), session=("session", None))
# documented options of the classes
OPTIONS = dict(SGHMC=["batch_generator", "stepsize_schedule", "burn_in_steps", "mdecay", "scale_grad", "session", "dtype", "seed"],
               SGLD=["batch_generator", "stepsize_schedule", "burn_in_steps", "A", "scale_grad", "session", "dtype", "seed"],
               Relativistic=["batch_generator", "stepsize_schedule", "mass", "speed_of_light", "D", "Bhat", "session", "dtype", "seed"],
               SVGD=["batch_generator", "stepsize_schedule", "alpha", "fudge_factor", "session", "dtype", "seed"])
REQUIRED = dict(SVGD=["particles", "cost_fun"])


def plan(tier, rng):
    out = []
    for method, kind in METHODS.items():
        out.append(dict(kind="arguments", method=method, weight=3))
        out.append(dict(kind="missing", method=method, weight=1))
        options = OPTIONS[kind]
        combos = []
        for n in ((1, 2, 3) if tier == "thorough" else (1, 2)):
            for names in itertools.combinations(options, n):
                combos.append([(name, 0) for name in names])
                if n == 1:
                    combos.append([(names[0], 1)])
        combos.append([])
        combos.append([(name, 0) for name in options])
        combos.append([(name, 1) for name in options])
        for start in range(0, len(combos), 8):
            out.append(dict(kind="chains", method=method, combos=combos[start:start + 8], weight=2))
    out.append(dict(kind="classification", weight=1))
    return out


def check(item, R):
    R.sample(item)
    from pysgmcmc.sampling import Sampler
    for method in METHODS:
        R.require(hasattr(Sampler, method), "there is no Sampler.%s" % method, key="missing")
    globals()[item["kind"]](item, R)


class Spy(object):
    """Records the arguments with which a class is constructed."""

    def __init__(self, cls):
        self.cls, self.calls = cls, []

    def __enter__(self):
        import functools
        self.original = original = self.cls.__init__

        @functools.wraps(original)
        def spy(this, *args, **kwargs):
            self.calls.append((this, args, kwargs))
        self.cls.__init__ = spy
        return self

    def __exit__(self, *exc):
        self.cls.__init__ = self.original
        return False


def same(a, b):
    if a is b:
        return True
    return type(a) is type(b) and isinstance(a, (int, float, str, type(None))) and a == b


def arguments(item, R):
    from pysgmcmc.sampling import Sampler
    kind = METHODS[item["method"]]
    cls = sampler_class(kind)
    signature = inspect.signature(cls.__init__)
    params = object()
    required = REQUIRED.get(kind, ["params", "cost_fun"])
    values = {name: (object(), lambda *_: None)[i] for i, name in enumerate(required)}
    marks = {name: (object() if isinstance(v[0], str) else v[0], v[1]) for name, v in ORDINARY.items()}
    marks["dtype"] = (tf.float32, None)
    options = OPTIONS[kind]
    with Spy(cls) as spy:
        for choice in itertools.product((None, 0, 1), repeat=len(options)):
            kwargs = dict(values)
            kwargs.update({n: marks[n][c] for n, c in zip(options, choice) if c is not None})
            given = dict(kwargs)
            del spy.calls[:]
            sampler = Sampler.get_sampler(getattr(Sampler, item["method"]), **kwargs)
            R.step()
            R.require(type(sampler) is cls, "get_sampler(%s) returns %r" % (item["method"], type(sampler)), key="class")
            if not R.state(item["method"], choice):
                continue
            R.require(len(spy.calls) == 1 and spy.calls[0][0] is sampler, "constructor called %d times" % len(spy.calls), key="class")
            this, args, kw = spy.calls[0]
            got = signature.bind(this, *args, **kw)
            got.apply_defaults()
            want = signature.bind(this, **given)
            want.apply_defaults()
            for name in want.arguments:
                R.require(same(got.arguments[name], want.arguments[name]),
                          "get_sampler(%s, %s) constructs with %s=%r instead of %r" % (
                              item["method"], sorted(given), name, got.arguments[name], want.arguments[name]),
                          key="argument")
            R.require(kwargs == given, "the caller's keywords were changed", key="argument")
            R.trace()


def world_kwargs(kind, combo, world):
    kw = {}
    for name, c in combo:
        value = ORDINARY[name][c]
        if name == "dtype":
            value = world.dtype if c == 0 else tf.float64
        elif name == "batch_generator":
            value = world.batches if c == 0 else None
        elif name == "stepsize_schedule":
            if c == 1:
                continue
            value = world.schedule
        elif name == "session":
            value = world.session if c == 0 else None
        kw[name] = value
    return kw


def chain(kind, method, combo, factory, R):
    names = {n for n, c in combo}
    dtype = "float32" if ("dtype", 0) in combo else "float64"
    shapes = dict(SGHMC=[(2,), ()], SGLD=[(2,), ()], Relativistic=[(), (1,)], SVGD=[(2,), (2,), (2,)])[kind]
    batches = ("batch_generator", 0) in combo
    cfg = dict(sampler=kind, params=grids.params(*shapes), dtype=dtype,
               cost=dict(name="coupled_batch" if batches else "coupled"), opts={}, eps=[0.05, 0.03],
               batches=grids.BATCHES if batches else None)
    result = []

    def before(world):
        kw = dict(cost_fun=world.cost.tf)
        kw["particles" if kind == "SVGD" else "params"] = world.params
        kw.update(world_kwargs(kind, combo, world))
        world.kwargs.clear()
        world.kwargs.update(kw)
        with world.session.as_default(), fixed_momenta([0.4, -1.3]) as fake:
            if factory:
                from pysgmcmc.sampling import Sampler
                world.made = Sampler.get_sampler(getattr(Sampler, method), **kw)
            else:
                world.made = sampler_class(kind)(**kw)
        result.extend((c["seed"], c["n_samples"]) for c in fake.calls)
        raise Built(world)
    try:
        World(cfg, before=before)
    except Built as b:
        world = b.world
    with world.graph.as_default():
        world.session.run(tf.global_variables_initializer())
    seeded = any(n == "seed" for n in names) and kind != "SVGD"
    if not seeded:
        world._own_noise()
    for _ in range(4):
        sample, cost = next(world.made)
        R.step()
        result.append((world.normalise(sample).tolist(), np.asarray(cost).tolist()))
    world.close()
    return type(world.made).__name__, result


class Built(Exception):
    def __init__(self, world):
        self.world = world


def chains(item, R):
    kind = METHODS[item["method"]]
    for combo in item["combos"]:
        combo = [tuple(c) for c in combo]
        direct = chain(kind, item["method"], combo, False, R)
        made = chain(kind, item["method"], combo, True, R)
        R.state(kind, combo, direct[1])
        R.require(made == direct, "get_sampler(%s, %s) makes %r, a direct call makes %r" % (
            item["method"], combo, made, direct), key="chain")
        R.trace()


def rejects(R, what, f, errors=ValueError):
    R.step()
    try:
        f()
    except errors:
        return
    except Exception as e:
        raise Violation("%s raises %s: %s" % (what, type(e).__name__, e), key="rejection")
    raise Violation("%s is accepted" % what, key="rejection")


def missing(item, R):
    from pysgmcmc.sampling import Sampler
    kind = METHODS[item["method"]]
    required = REQUIRED.get(kind, ["params", "cost_fun"])
    member = getattr(Sampler, item["method"])
    every = sorted({n for names in OPTIONS.values() for n in names} | {"params", "particles"})
    cls = sampler_class(kind)
    with tf.Graph().as_default(), MCSession(config=single_threaded()):
        params = [tf.Variable([1., 2.], dtype=tf.float64), tf.Variable([0., 3.], dtype=tf.float64)]
        full = dict(zip(required, (params, lambda ps: tf.reduce_sum(ps[0]))))
        with Spy(cls):
            for n in range(len(required)):
                for some in itertools.combinations(required, n):
                    for extra in ({}, dict(seed=1), dict(dtype=tf.float64, session=None)):
                        kw = {k: full[k] for k in some}
                        kw.update(extra)
                        R.state(item["method"], "missing", sorted(kw))
                        rejects(R, "%s without %s" % (item["method"], sorted(set(required) - set(some))),
                                lambda: Sampler.get_sampler(member, **kw))
            own = set(OPTIONS[kind]) | set(required)
            names = [n for n in every if n not in own]
            for n in sorted(own):
                names += [n + "_", n.upper() if n.upper() != n else n.lower(), n[:-1] or "x"]
            names += ["n_iters", "unknown_argument", "batch_size", "args", "kwargs"]
            for name in names:
                if name in own:
                    continue
                for value in (None, 0, 1.0, "x"):
                    R.state(item["method"], "unknown", name, value)
                    kw = dict(full)
                    kw[name] = value
                    rejects(R, "%s with keyword %s" % (item["method"], name), lambda: Sampler.get_sampler(member, **kw))
                    rejects(R, "%s with only keyword %s" % (item["method"], name),
                            lambda: Sampler.get_sampler(member, **{name: value}))
    R.trace()


def classification(item, R):
    from pysgmcmc.sampling import Sampler
    from pysgmcmc.samplers.base_classes import BurnInMCMCSampler
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork

    class Other(enum.Enum):
        SGHMC = "SGHMC"
    members = list(Sampler)
    R.require({m.name for m in members} == set(METHODS), "sampling methods are %r" % members, key="members")
    for m in members:
        cls = sampler_class(METHODS[m.name])
        R.require(bool(Sampler.is_burn_in_mcmc(m)) == issubclass(cls, BurnInMCMCSampler),
                  "is_burn_in_mcmc(%s) is %r" % (m, Sampler.is_burn_in_mcmc(m)), key="burn-in")
        accepted = True
        with tf.Graph().as_default(), tf.Session(config=single_threaded()) as session:
            try:
                BayesianNeuralNetwork(session=session, sampling_method=m, get_net=lambda **_: None)
            except ValueError:
                accepted = False
        R.require(bool(Sampler.is_supported(m)) == accepted, "is_supported(%s) is %r, networks %s it" % (
            m, Sampler.is_supported(m), "accept" if accepted else "reject"), key="supported")
        if issubclass(cls, BurnInMCMCSampler):
            R.require(bool(Sampler.is_supported(m)), "%s is not supported" % m, key="supported")
        R.state("member", m.name)
        R.step()
    for other in (None, 0, 1, "", "SGHMC", "SGLD", "Sampler.SGHMC", "test", 1.5, [], (), {}, object(), Other.SGHMC, Sampler,
                  Other, len, True, b"SGHMC", [Sampler.SGHMC], (Sampler.SGHMC,)):
        R.state("other", repr(other)[:40])
        # values that cannot be looked up in a dictionary may be refused as such
        errors = (ValueError,) if getattr(type(other), "__hash__", None) else (ValueError, TypeError)
        for f in (Sampler.is_burn_in_mcmc, Sampler.is_supported):
            try:
                R.require(not f(other), "%r classified as a sampling method" % (other,), key="other")
            except TypeError:
                if TypeError not in errors:
                    raise
        for kw in ({}, dict(params=[], cost_fun=len), dict(unknown=1)):
            rejects(R, "get_sampler(%r)" % (other,), lambda: Sampler.get_sampler(other, **kw), errors)
    R.trace()
