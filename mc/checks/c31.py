"""C31: diagnostics are computed on exactly the requested chains."""
import itertools

import numpy as np
import tensorflow as tf

from ..core import Violation
from . import c30

BOUNDS = ("Both diagnostics with every n_chains 1..3 and samples_per_chain 1..3 (thorough 1..5), with twelve chains and with 130 samples, given by keyword and by position and left out, "
          "every order of 3 calls of the two diagnostics; results of 5 types; factories that number their chains.")
ASSUMPTIONS = ["pymc3 is replaced by a stub that records the multi-traces it is handed"]
TECHNIQUE = "explicit-state exploration: all bounded call histories of the real functions against a recording stand-in of pymc3"


def plan(tier, rng):
    top = 5 if tier == "thorough" else 3
    out = []
    for n_chains in range(1, top + 1):
        for samples in range(1, top + 1):
            out.append(dict(kind="calls", n_chains=n_chains, samples=samples, weight=n_chains))
    out += [dict(kind="calls", n_chains=None, samples=2), dict(kind="calls", n_chains=3, samples=None, weight=9),
            dict(kind="calls", n_chains=None, samples=None, weight=9), dict(kind="histories", weight=3), dict(kind="failing"),
            dict(kind="calls", n_chains=12, samples=2, weight=9), dict(kind="calls", n_chains=2, samples=130, weight=4)]
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


class Fake(object):
    """What a sampler looks like to a trace: an iterator with parameters."""

    def __init__(self, chain, two):
        self.chain, self.k, self.two = chain, 0, two
        self.params = [tf.Variable(0.0, name="x")] + ([tf.Variable([0.0, 0.0], name="y")] if two else [])
        self.sizes = []

    def __iter__(self):
        return self

    def __next__(self):
        self.k += 1
        first = np.float64(1e6 * self.chain + self.k)
        return ([first, np.array([first, -first])] if self.two else first), np.float64(self.k)


def factory(log, two=False):
    def get_sampler(session):
        log.append((session, tf.get_default_graph()))
        return Fake(len(log), two)
    return get_sampler


def stubs():
    import pymc3.diagnostics as d
    return dict(ess=d.effective_n, gr=d.gelman_rubin)


def functions():
    from pysgmcmc.diagnostics.sampler_diagnostics import effective_sample_sizes, gelman_rubin
    return dict(ess=effective_sample_sizes, gr=gelman_rubin)


RESULTS = [object(), {"x": 1.5}, np.array([1.0, 2.0]), None, 0.0]


def one(which, n_chains, samples, style, result, R, two=False):
    stub = stubs()
    for s in stub.values():
        del s.calls[:]
        s.result = lambda mtrace: "wrong one"
    stub[which].result = lambda mtrace: result
    log, kw, args = [], {}, []
    if style == "position" and n_chains is not None and samples is not None:
        args = [n_chains, samples]
    else:
        if n_chains is not None:
            kw["n_chains"] = n_chains
        if samples is not None:
            kw["samples_per_chain"] = samples
    make = factory(log, two)
    got = functions()[which](make, *args, **kw) if style != "keyword" else functions()[which](get_sampler=make, **kw)
    n_chains, samples = n_chains or 2, samples or 100
    where = dict(which=which, n_chains=n_chains, samples=samples, style=style)
    R.require(got is result, "%s returns %r instead of pymc3's result" % (which, got), key="result", **where)
    other = "gr" if which == "ess" else "ess"
    R.require(len(stub[which].calls) == 1 and not stub[other].calls, "pymc3's functions are called %d and %d times" % (
        len(stub[which].calls), len(stub[other].calls)), key="delegation", **where)
    mtrace, more, extra = stub[which].calls[0]
    R.require(not more and not extra, "pymc3 gets more arguments: %r %r" % (more, extra), key="delegation", **where)
    traces = getattr(mtrace, "straces_given", None)
    R.require(traces is not None, "pymc3 gets %r" % (mtrace,), key="delegation", **where)
    if len(traces) != n_chains or sorted(t.chain for t in traces) != list(range(n_chains)) or len(log) != n_chains:
        raise Violation("%d chains, should be %d (factory called %d times)" % (len(traces), n_chains, len(log)), key="chains", **where)
    chains = set()
    for t in traces:
        if len(t) != samples:
            raise Violation("a chain has %d samples, should have %d" % (len(t), samples), key="samples", **where)
        values = np.asarray(t[0]).tolist()
        numbers = {int(v // 1000000) for v in values}
        if len(set(values)) != samples or len(numbers) != 1 or values != sorted(values):
            raise Violation("the samples %r are not %d successive samples of one sampler" % (values, samples), key="samples", **where)
        chains |= numbers
    R.require(len(chains) == n_chains, "chains come from the same sampler", key="chains", **where)
    R.step(n_chains)
    R.state(which, n_chains, samples, style, two)


def calls(item, R):
    for which in ("ess", "gr"):
        for style in ("keyword", "mixed", "position"):
            for k, result in enumerate(RESULTS):
                if (item["n_chains"] is None or item["samples"] is None) and k:
                    continue
                one(which, item["n_chains"], item["samples"], style, result, R, two=bool(k % 2))
                R.trace()


def histories(item, R):
    for history in itertools.product(("ess", "gr"), repeat=3):
        for k, which in enumerate(history):
            one(which, 1 + k, 3 - k, "mixed", object(), R, two=bool(k % 2))
        R.trace()
    # real samplers
    log = []

    def get_sampler(session):
        cfg = c30.config("SGLD", "several", 2)
        log.append(c30.World(cfg, session=session, graph=tf.get_default_graph(), free_noise=True, init=False))
        return log[-1].sampler
    for which in ("ess", "gr"):
        stub = stubs()[which]
        del stub.calls[:]
        stub.result = lambda mtrace: mtrace
        got = functions()[which](get_sampler, n_chains=2, samples_per_chain=3)
        traces = got.straces_given
        R.require(len(traces) == 2 and all(len(t) == 3 for t in traces), "chains of %r samples" % [len(t) for t in traces], key="samples")
        R.require([v.split(":")[0] for v in traces[0].varnames] == ["q_user_0", "c_user_1", "x_user_2"],
                  "variables %r" % traces[0].varnames, key="names")
        R.trace()


def failing(item, R):
    """Failures of the factory or of pymc3 reach the caller."""
    class Failure(Exception):
        pass

    def fails(*args, **kwargs):
        raise Failure()
    for which in ("ess", "gr"):
        stub = stubs()[which]
        for make, result in ((fails, lambda m: 1), (factory([]), fails)):
            stub.result = result
            try:
                got = functions()[which](make, n_chains=1, samples_per_chain=1)
            except Failure:
                R.step()
                R.state(which, make is fails)
                continue
            raise Violation("a failure is swallowed: %r" % (got,), key="failure")
    R.trace()
