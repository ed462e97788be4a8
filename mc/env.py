"""Makes pysgmcmc of the repository importable in this environment.

* tensorflow 1 API: tf_v1_api (part of the sandbox)
* pymc3 is not installable here: a stub that records what it is handed
* arspy uses `np.int`, which numpy 1.26 no longer has: arspy (only) gets a
  numpy proxy that still has it
* tensorflow.contrib is gone: the one function used of it is replaced by
  tensorflow's own initializer of that kind
"""
import os
import sys
import types


def setup(repo):
    import tf_v1_api  # noqa
    import logging
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, repo)
    import pysgmcmc
    where = os.path.realpath(list(pysgmcmc.__path__)[0])
    assert where == os.path.realpath(os.path.join(repo, "pysgmcmc")), where
    stub_pymc3()
    stub_contrib()
    shim_arspy()


def stub_contrib():
    try:
        import tensorflow.contrib  # noqa
        return
    except ImportError:
        pass
    import tensorflow as tf

    def variance_scaling_initializer(factor=2.0, mode="FAN_IN", uniform=False, seed=None, dtype=tf.float32):
        return tf.variance_scaling_initializer(
            scale=factor, mode=mode.lower(), distribution="uniform" if uniform else "truncated_normal", seed=seed, dtype=dtype)

    contrib, layers = types.ModuleType("tensorflow.contrib"), types.ModuleType("tensorflow.contrib.layers")
    layers.variance_scaling_initializer = variance_scaling_initializer
    contrib.layers = layers
    for m in (contrib, layers):
        m.__path__ = []
        sys.modules[m.__name__] = m


def shim_arspy():
    import numpy
    import arspy.ars as ars

    class NumpyProxy(types.ModuleType):
        int = int
        float = float
        bool = bool

        def __getattr__(self, name):
            return getattr(numpy, name)
    if not hasattr(numpy, "int"):
        for modname, module in list(sys.modules.items()):
            if modname.split(".")[0] == "arspy" and getattr(module, "np", None) is numpy:
                module.np = NumpyProxy("numpy")


def stub_pymc3():
    try:
        import pymc3  # noqa
        return
    except ImportError:
        pass

    class MultiTrace(object):
        """Stand-in for pymc3.backends.base.MultiTrace: keeps the traces by
        chain id, in the way pymc3 3.x does (ids must be unique)."""

        def __init__(self, straces):
            straces = list(straces)
            self.straces_given = straces
            self._straces = {}
            for strace in straces:
                if strace.chain in self._straces:
                    raise ValueError("Chains are not unique.")
                self._straces[strace.chain] = strace

        @property
        def chains(self):
            return list(sorted(self._straces.keys()))

        @property
        def nchains(self):
            return len(self._straces)

        @property
        def varnames(self):
            return self._straces[self.chains[-1]].varnames

        def __len__(self):
            return len(self._straces[self.chains[-1]])

        def get_values(self, varname, burn=0, thin=1, combine=False, chains=None, squeeze=False):
            return [self._straces[c].get_values(varname, burn, thin) for c in self.chains]

    def effective_n(mtrace, *args, **kwargs):
        effective_n.calls.append((mtrace, args, kwargs))
        return effective_n.result(mtrace)
    effective_n.calls = []
    effective_n.result = lambda mtrace: ("ess", mtrace)

    def gelman_rubin(mtrace, *args, **kwargs):
        gelman_rubin.calls.append((mtrace, args, kwargs))
        return gelman_rubin.result(mtrace)
    gelman_rubin.calls = []
    gelman_rubin.result = lambda mtrace: ("gr", mtrace)

    pymc3 = types.ModuleType("pymc3")
    backends = types.ModuleType("pymc3.backends")
    base = types.ModuleType("pymc3.backends.base")
    diagnostics = types.ModuleType("pymc3.diagnostics")
    base.MultiTrace = MultiTrace
    diagnostics.effective_n = effective_n
    diagnostics.gelman_rubin = gelman_rubin
    pymc3.backends, backends.base = backends, base
    pymc3.diagnostics = diagnostics
    pymc3.effective_n, pymc3.gelman_rubin = effective_n, gelman_rubin
    pymc3.MultiTrace = MultiTrace
    for m in (pymc3, backends, base, diagnostics):
        m.__path__ = []
        sys.modules[m.__name__] = m
