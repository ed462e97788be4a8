"""Explicit-state exploration of the real samplers against the reference models.

A node is a path of steps (batch, stepsize, noise vector) from the initial
state. In every visited node and for every (batch, stepsize) of the alphabet
the *whole transition law* of the implementation is determined: it is affine in
the noise, so running it on noise 0 and on every unit vector (from a snapshot of
the complete state) yields mean and covariance exactly, for all noise values at
once. Both are compared with the reference.
"""
import copy

import numpy as np

from .core import HarnessError, Violation
from .world import World
from . import refs


class Tol(object):
    def __init__(self, dtype):
        self.r = {"float64": 1e-7, "float32": 2e-4}[dtype]
        self.a = {"float64": 1e-9, "float32": 2e-5}[dtype]

    def close(self, x, y, scale=1.):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        if x.shape != y.shape:
            return False
        with np.errstate(invalid="ignore"):
            ok = np.abs(x - y) <= self.a * scale + self.r * np.maximum(np.abs(x), np.abs(y))
        return bool(np.all(ok | (np.isnan(x) & np.isnan(y)) | (x == y)))


class Explorer(object):
    """Explores one configuration."""

    def __init__(self, cfg, R, mode="snapshot", world_kwargs=None):
        self.cfg, self.R, self.mode = cfg, R, mode
        self.world_kwargs = world_kwargs or {}
        self.tol = Tol(cfg.get("dtype", "float64"))
        self.world = None
        self.snaps = {}
        self.theta0 = np.concatenate([np.asarray(s["init"], dtype=float).ravel() for s in cfg["params"]])
        self.theta0 = self.theta0.astype(cfg.get("dtype", "float64")).astype(float)
        self.n = len(self.theta0)

    # -- positioning ------------------------------------------------------
    def build(self):
        self.R.count("worlds_built")
        return World(self.cfg, **self.world_kwargs)

    def execute(self, world, step):
        batch, eps, noise = step
        if world.batches is not None:
            world.batches.override = np.asarray(batch, dtype=world.np_dtype)
        world.schedule.override = eps
        self.R.step()
        return world.step(noise)

    def at(self, path, fresh=False):
        """A world that has made exactly the steps of `path`."""
        if fresh or self.mode == "fresh":
            if self.world is not None:
                self.world.close()
                self.world = None
            world = self.build()
            for step in path:
                self.execute(world, step)
            if fresh:
                self.world = world
            self.world = world
            return world
        key = len(path), repr(path)
        if self.world is None:
            self.world = self.build()
            self.snaps[(0, repr([]))] = self.world.snapshot()
        if key not in self.snaps:
            self.at(path[:-1])
            self.execute(self.world, path[-1])
            self.snaps[key] = self.world.snapshot()
        else:
            self.world.restore(self.snaps[key])
        return self.world

    def forget(self, path):
        self.snaps.pop((len(path), repr(path)), None)

    # -- observation ------------------------------------------------------
    def observe(self, theta_before, theta_after, eps):
        """Coordinates in which a step is affine in the noise."""
        if self.cfg["sampler"] != "Relativistic":
            return theta_after
        m, c = self.ref_opts
        u = (theta_after - theta_before) / eps
        with np.errstate(invalid="ignore"):
            return m * u / np.sqrt(1. - u ** 2 / c ** 2)

    @property
    def ref_opts(self):
        o = self.cfg.get("opts", {})
        return o.get("mass", 1.0), o.get("speed_of_light", 1.0)

    def expected(self, ref, theta, grad, eps):
        if self.cfg["sampler"] == "Relativistic":
            mean, sigma = ref.momentum(grad, eps)
            return mean, np.full(self.n, sigma)
        return ref.predict(theta, grad, eps)

    def kernel(self, path, ref, theta, batch, eps, fresh=False):
        """Mean and noise matrix of the step; raises Violation on mismatch."""
        world = self.at(path, fresh)
        cost_fun = world.cost
        grad = cost_fun.grad(theta, batch)
        want_cost = cost_fun.np(theta, batch)
        mean, sigma = self.expected(ref, theta, grad, eps)
        n_noise = world.n_noise
        lam = 1. / np.min(sigma) if np.min(sigma) > 0 else 1.
        where = dict(path=path, batch=batch, eps=eps, theta=theta.tolist(), cfg=self.cfg)

        def run(noise):
            w = self.at(path, fresh)
            after, cost = self.execute(w, (batch, eps, noise))
            if cost.shape != () and cost.size == 1:
                cost = cost.reshape(())
            if not self.tol.close(cost, want_cost, 1 + abs(want_cost)):
                raise Violation("cost %r is not the cost %r at the values before the step" % (
                    cost.tolist(), want_cost), key="cost", **where)
            return self.observe(theta, after.astype(float), eps)

        a = run(np.zeros(n_noise))
        scale = 1 + np.max(np.abs(theta)) + (1. / eps if self.cfg["sampler"] == "Relativistic" else 0)
        if not self.tol.close(a, mean, scale):
            raise Violation("drift of the step is %r, should be %r" % (a.tolist(), mean.tolist()),
                            key="drift", **where)
        B = np.zeros((self.n, n_noise))
        for k in range(n_noise):
            e = np.zeros(n_noise)
            e[k] = lam
            B[:, k] = (run(e) - a) / lam
        cov = B @ B.T
        want = np.diag(sigma ** 2)
        s2 = np.max(sigma) ** 2
        slack = self.tol.a * 50 * scale * max(1., 1. / lam) * np.sqrt(s2) + 1e-30
        # the probes have relative error tol.a*scale/(lam*sigma)
        err = np.abs(cov - want)
        if not np.all(err <= 20 * self.tol.r * s2 + slack * (s2 > 0)):
            raise Violation("covariance of the step is %r, should be diag %r" % (cov.tolist(), (sigma ** 2).tolist()),
                            key="covariance", **where)
        if n_noise:
            mix = (np.arange(n_noise) % 3 - 0.8) * 1.3 * lam
            got = run(mix)
            if not self.tol.close(got, a + B @ mix, scale * (1 + np.max(np.abs(B @ mix)))):
                raise Violation("step is not affine in the noise", key="affine", **where)
        return a, B, sigma, grad

    def check_node(self, path, ref, theta, batch, eps):
        try:
            return self.kernel(path, ref, theta, batch, eps)
        except Violation:
            if self.mode == "fresh":
                raise
            # confirm without any snapshot: only freshly built samplers
            self.kernel(path, ref, theta, batch, eps, fresh=True)
            raise NeedsFresh()

    def explore(self, depth, batches, epss, patterns):
        """All paths over batches x epss x patterns up to `depth`."""
        ref = refs.model(self.cfg)
        self._visit([], ref, self.theta0, depth, batches, epss, patterns)
        if self.world is not None:
            self.world.close()
            self.world = None

    def _visit(self, path, ref, theta, depth, batches, epss, patterns):
        self.R.state(np.round(theta, 8).tolist(), ref.key())
        for batch in batches:
            for eps in epss:
                a, B, sigma, grad = self.check_node(path, ref, theta, batch, eps)
                self.R.count("kernels_compared")
                if depth <= 1:
                    self.R.trace()
                    continue
                M = B / np.where(sigma > 0, sigma, 1.)[:, None]
                for pattern in patterns:
                    noise = [pattern[k % len(pattern)] for k in range(B.shape[1])]
                    step = (batch, eps, noise)
                    child = path + [step]
                    world = self.at(child)
                    # where the child is, according to the session
                    got = world.theta().astype(float)
                    child_ref = copy.deepcopy(ref)
                    want = child_ref.advance_exact(theta, grad, eps, M @ np.asarray(noise))
                    if not self.tol.close(got, want, 10 * (1 + np.max(np.abs(theta)))):
                        raise Violation("parameters in the session are %r after the step, should be %r" % (
                            got.tolist(), want.tolist()), key="step", path=child, cfg=self.cfg)
                    self._visit(child, child_ref, got, depth - 1, batches, epss, patterns)
                    self.forget(child)


class NeedsFresh(Exception):
    pass


def explore(cfg, R, depth, batches, epss, patterns):
    try:
        Explorer(cfg, R).explore(depth, batches, epss, patterns)
    except NeedsFresh:
        # the sampler keeps state a snapshot cannot capture: only use fresh samplers
        R.count("fresh_mode")
        ex = Explorer(cfg, R, mode="fresh")
        ex.explore(min(depth, 2), batches[:1], epss[:1], patterns[:1])


def long_run(cfg, R, steps, batches, epss, noise_fun, check_every=1):
    """One long path; every step is compared with the reference."""
    ex = Explorer(cfg, R)
    ref = refs.model(cfg)
    theta = ex.theta0
    a, B, sigma, grad = ex.check_node([], ref, theta, batches[0], epss[0])
    M = B / np.where(sigma > 0, sigma, 1.)[:, None]
    ex.world.close()
    world = ex.build()
    for k in range(steps):
        batch, eps = batches[k % len(batches)], epss[k % len(epss)]
        noise = np.asarray([noise_fun(k, j) for j in range(B.shape[1])], dtype=float)
        grad = world.cost.grad(theta, batch)
        want_cost = world.cost.np(theta, batch)
        after, cost = ex.execute(world, (batch, eps, noise))
        want = ref.advance_exact(theta, grad, eps, M @ noise)
        where = dict(step=k, theta=theta.tolist(), cfg=cfg)
        if not ex.tol.close(cost.reshape(()) if cost.size == 1 else cost, want_cost, 1 + abs(want_cost)):
            raise Violation("step %d: cost %r, should be %r" % (k, cost.tolist(), want_cost), key="cost", **where)
        if not ex.tol.close(after, want, 20 * (1 + np.max(np.abs(theta)))):
            raise Violation("step %d: sample %r, should be %r" % (k, after.tolist(), want.tolist()), key="step", **where)
        R.state(np.round(after, 8).tolist())
        theta = after.astype(float)
    R.trace()
    world.close()
    return ref
