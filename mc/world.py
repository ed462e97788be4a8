"""A closed world around one sampler: own graph and session, controlled noise,
batches, stepsizes and initial momenta, snapshots of the complete state.

Nothing here looks at how the sampler computes its steps. The only internals
relied upon: it works in the tensorflow graph/session it is given, and its
randomness comes from tensorflow's normal random ops (whose outputs are fed)
or from arspy's adaptive rejection sampler (which is replaced).
"""
import numpy as np
import tensorflow as tf

from .core import HarnessError, Violation

NORMAL_OPS = ("RandomStandardNormal", "StatelessRandomNormal", "StatelessRandomNormalV2",
              "ParameterizedTruncatedNormal")
OTHER_RANDOM = ("RandomUniform", "RandomUniformInt", "TruncatedNormal", "RandomGamma",
                "Multinomial", "RandomShuffle", "StatelessRandomUniform",
                "StatelessRandomUniformV2", "StatelessTruncatedNormal", "RandomPoissonV2")

DTYPES = {"float32": tf.float32, "float64": tf.float64, "float16": tf.float16}


def single_threaded():
    config = tf.ConfigProto(intra_op_parallelism_threads=1,
                            inter_op_parallelism_threads=1,
                            use_per_session_threads=False)
    return config


class MCSession(tf.Session):
    """A session that feeds the noise the explorer chose."""

    noise_feed = None        # dict tensor -> value, or None for free-running
    runs = 0
    scheduler = None         # see mc.schedules

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        self.runs += 1
        if self.noise_feed:
            merged = dict(self.noise_feed)
            if feed_dict:
                merged.update(feed_dict)
            feed_dict = merged
        run = super().run
        if self.scheduler is not None:
            return self.scheduler.run(fetches, feed_dict, lambda: run(fetches, feed_dict=feed_dict))
        return run(fetches, feed_dict=feed_dict, options=options, run_metadata=run_metadata)


class Sched(object):
    """A stepsize schedule with a script; logs every call."""

    def __init__(self, values, initial=None, log=None):
        self.values = list(values)
        self.initial_value = self.values[0] if initial is None else initial
        self.position = 0
        self.log = log if log is not None else []
        self.fail_at = ()
        self.override = None

    def __iter__(self):
        return self

    def __next__(self):
        i = self.position
        self.log.append(("stepsize", i))
        if i in self.fail_at:
            self.fail_at = tuple(j for j in self.fail_at if j != i)
            raise SourceFailure("stepsize %d" % i)
        self.position += 1
        if self.override is not None:
            return self.override
        return self.values[i % len(self.values)]

    def update(self, *args, **kwargs):
        self.log.append(("update", args, kwargs))


class SourceFailure(Exception):
    pass


class Batches(object):
    """Scripted source of feed dictionaries; logs every call."""

    def __init__(self, placeholder, values, log=None, finite=False):
        self.placeholder, self.values = placeholder, [np.asarray(v) for v in values]
        self.position = 0
        self.log = log if log is not None else []
        self.fail_at = ()
        self.override = None
        self.finite = finite
        self.given = []

    def __iter__(self):
        return self

    def __next__(self):
        i = self.position
        self.log.append(("batch", i))
        if i in self.fail_at:
            self.fail_at = tuple(j for j in self.fail_at if j != i)
            raise SourceFailure("batch %d" % i)
        if self.finite and i >= len(self.values):
            raise StopIteration
        self.position += 1
        value = self.values[i % len(self.values)] if self.override is None else self.override
        return {self.placeholder: value}


def copy_state(x, memo=None):
    """Structural copy: containers and arrays are copied, everything else shared."""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, list):
        y = memo[id(x)] = []
        y.extend(copy_state(v, memo) for v in x)
        return y
    if type(x) is tuple:
        return tuple(copy_state(v, memo) for v in x)
    if type(x) is dict:
        y = memo[id(x)] = {}
        y.update((k, copy_state(v, memo)) for k, v in x.items())
        return y
    if isinstance(x, set):
        return set(x)
    if isinstance(x, np.ndarray):
        y = memo[id(x)] = x.copy()
        return y
    return x


class fixed_momenta(object):
    """Replaces arspy's sampler, wherever it was imported, by chosen values."""

    def __init__(self, values):
        self.values, self.calls = values, []

    def __enter__(self):
        import sys
        import arspy.ars
        self.original = original = arspy.ars.adaptive_rejection_sampling
        self.patched = []

        def fake(logpdf, a, b, domain, n_samples, seed=None, **kw):
            self.calls.append(dict(logpdf=logpdf, a=a, b=b, domain=domain,
                                   n_samples=n_samples, seed=seed))
            return [self.values[i % len(self.values)] for i in range(n_samples)]
        for module in list(sys.modules.values()):
            name = getattr(module, "__name__", "")
            if name.startswith("arspy") or name.startswith("pysgmcmc"):
                for attr, value in list(vars(module).items()):
                    if value is original:
                        setattr(module, attr, fake)
                        self.patched.append((module, attr))
        return self

    def __exit__(self, *exc):
        for module, attr in self.patched:
            setattr(module, attr, self.original)
        return False


def sampler_class(kind):
    if kind == "SGHMC":
        from pysgmcmc.samplers.sghmc import SGHMCSampler as cls
    elif kind == "SGLD":
        from pysgmcmc.samplers.sgld import SGLDSampler as cls
    elif kind == "Relativistic":
        from pysgmcmc.samplers.relativistic_sghmc import RelativisticSGHMCSampler as cls
    elif kind == "SVGD":
        from pysgmcmc.samplers.svgd import SVGDSampler as cls
    else:
        raise HarnessError(kind)
    return cls


BURN_IN = ("SGHMC", "SGLD")
PARAM_KW = {"SVGD": "particles"}


class World(object):
    """cfg (JSON-able):
        sampler   SGHMC | SGLD | Relativistic | SVGD
        params    list of {"shape": [...], "init": nested list}
        dtype     float64 ...
        cost      name + args for mc.costs
        opts      sampler keywords (mdecay, burn_in_steps, seed, ...)
        eps       list of stepsizes (script)
        batches   list of 1-d lists or None
        momenta   initial momenta (Relativistic)
    """

    def __init__(self, cfg, session=None, init=True, free_noise=False, schedule=None,
                 batches=None, config=None, sampler_kwargs=None, prepare=None, graph=None,
                 before=None):
        from . import costs
        self.cfg = cfg
        self.kind = cfg["sampler"]
        self.dtype = DTYPES[cfg.get("dtype", "float64")]
        self.np_dtype = self.dtype.as_numpy_dtype
        self.log = []
        self.graph = graph or tf.Graph()
        self.session = session or MCSession(graph=self.graph, config=config or single_threaded())
        if prepare:
            prepare(self)
        with self.graph.as_default():
            existing = set(tf.global_variables())
            self.params = []
            for i, spec in enumerate(cfg["params"]):
                value = np.asarray(spec["init"], dtype=self.np_dtype).reshape(spec["shape"])
                self.params.append(tf.Variable(value, dtype=self.dtype, name=spec.get("name", "%s_user_%d" % ("qcxamzbtgk"[i % 10], i))))
            self.placeholder = tf.placeholder(self.dtype, shape=(None,), name="user_batch")
            self.user_feed = tf.placeholder_with_default(
                np.asarray(1., dtype=self.np_dtype), shape=(), name="user_feed")
            self.batches = batches
            if cfg.get("batches") is not None and batches is None:
                self.batches = Batches(self.placeholder,
                                       [np.asarray(b, dtype=self.np_dtype) for b in cfg["batches"]], log=self.log)
            self.schedule = schedule or Sched(cfg["eps"], log=self.log)
            self.cost = costs.make(cfg, self)
            kwargs = dict(cfg.get("opts", {}))
            kwargs.update(cost_fun=self.cost.tf, session=self.session, dtype=self.dtype,
                          stepsize_schedule=self.schedule)
            kwargs[PARAM_KW.get(self.kind, "params")] = self.params
            if self.batches is not None:
                kwargs["batch_generator"] = self.batches
            if sampler_kwargs:
                kwargs.update(sampler_kwargs)
            self.kwargs = kwargs
            if before:
                before(self)
            cls = sampler_class(self.kind)
            if self.kind == "Relativistic" and cfg.get("momenta") is not None:
                with fixed_momenta([self.np_dtype(m) for m in cfg["momenta"]]) as fake:
                    self.sampler = cls(**kwargs)
                self.momentum_calls = fake.calls
            else:
                self.sampler = cls(**kwargs)
            self._restore = None
            if init:
                self.session.run(tf.variables_initializer(
                    [v for v in tf.global_variables() if v not in existing]))
            if not free_noise:
                self._own_noise()

    # -- noise ------------------------------------------------------------
    def _own_noise(self):
        ops = self.graph.get_operations()
        bad = [op.name for op in ops if op.type in OTHER_RANDOM]
        if bad:
            raise HarnessError("uncontrolled random ops: %r" % bad)
        self.noise_ops = sorted((op for op in ops if op.type in NORMAL_OPS), key=lambda op: op.name)
        self.noise_shapes = []
        for op in self.noise_ops:
            shape = op.outputs[0].shape
            if not shape.is_fully_defined():
                shape = self.session.run(tf.shape(op.outputs[0]))
                self.noise_shapes.append(tuple(int(s) for s in shape))
            else:
                self.noise_shapes.append(tuple(shape.as_list()))
        self.noise_sizes = [int(np.prod(s, dtype=int)) for s in self.noise_shapes]
        self.n_noise = sum(self.noise_sizes)
        self.set_noise(np.zeros(self.n_noise))

    def set_noise(self, flat):
        flat = np.asarray(flat, dtype=float).ravel()
        if len(flat) != self.n_noise:
            raise HarnessError("noise length %d != %d" % (len(flat), self.n_noise))
        feed, start = {}, 0
        for op, shape, size in zip(self.noise_ops, self.noise_shapes, self.noise_sizes):
            t = op.outputs[0]
            feed[t] = flat[start:start + size].reshape(shape).astype(t.dtype.as_numpy_dtype)
            start += size
        self.session.noise_feed = feed

    # -- steps ------------------------------------------------------------
    def step(self, noise=None, feed_dict=None):
        """One next(sampler): (flat theta, per-parameter arrays, cost)."""
        if noise is not None:
            self.set_noise(noise)
        if feed_dict is None:
            sample, cost = next(self.sampler)
        else:
            sample, cost = self.sampler.__next__(feed_dict=feed_dict)
        return self.normalise(sample), np.array(cost)

    def normalise(self, sample):
        """Samplers with one target parameter may return it bare or in a list."""
        shapes = [tuple(s["shape"]) for s in self.cfg["params"]]
        if len(shapes) == 1 and not (isinstance(sample, (list, tuple)) and len(sample) == 1):
            sample = [sample]
        if len(sample) != len(shapes):
            raise Violation("a sample has %d entries for %d target parameters" % (len(sample), len(shapes)),
                            key="sample-structure")
        arrays = [np.array(a) for a in sample]
        for a, shape in zip(arrays, shapes):
            if a.shape != shape:
                raise Violation("sampled value has shape %r, parameter has %r" % (a.shape, shape),
                                key="sample-structure")
            if a.dtype != self.np_dtype:
                raise Violation("sampled value has dtype %r, parameter has %r" % (a.dtype, self.np_dtype),
                                key="sample-structure")
        return np.concatenate([a.ravel() for a in arrays]) if arrays else np.zeros(0)

    def theta(self):
        """Values of the target parameters in the session right now."""
        return np.concatenate([np.asarray(a).ravel() for a in self.plain_run(self.params)])

    def plain_run(self, fetches, feed=None):
        saved, self.session.noise_feed = self.session.noise_feed, None
        try:
            return self.session.run(fetches, feed_dict=feed)
        finally:
            self.session.noise_feed = saved

    # -- snapshots --------------------------------------------------------
    def _prepare_restore(self):
        with self.graph.as_default():
            self._variables = tf.global_variables() + tf.local_variables()
            self._slots = [tf.placeholder(v.dtype.base_dtype, v.shape) for v in self._variables]
            self._restore = tf.group(*[tf.assign(v, s).op for v, s in zip(self._variables, self._slots)])

    def snapshot(self):
        if self._restore is None:
            self._prepare_restore()
        values = [np.array(v) for v in self.plain_run(self._variables)]
        python = {k: copy_state(v) for k, v in vars(self.sampler).items()}
        sources = [(s, copy_state(dict(vars(s)))) for s in (self.schedule, self.batches)
                   if s is not None and hasattr(s, "position")]
        for _, d in sources:
            d.pop("log", None)
            d.pop("override", None)
        return values, python, sources, len(self.log)

    def restore(self, snap):
        values, python, sources, n_log = snap
        self.plain_run(self._restore, dict(zip(self._slots, values)))
        vars(self.sampler).clear()
        vars(self.sampler).update({k: copy_state(v) for k, v in python.items()})
        for s, d in sources:
            vars(s).update(copy_state(d))
        del self.log[n_log:]

    def close(self):
        self.session.close()


def quiet_theta(x):
    return np.round(np.asarray(x, dtype=float), 9).tolist()
