"""Reference models of the samplers: plain numpy, element-wise, float64.

A model has a state, `predict(theta, grad, eps)` -> (mean, sigma) of the next
theta given the pre-step values, and `advance(theta, grad, eps, z)` which
performs the step for standard normal innovation z and returns the new theta.
"""
import numpy as np


def offset_divide(x, y, c=1e-16):
    return x / (y + 2 * np.sign(y) * c + c)


class Adaptive(object):
    """Mass matrix adaptation shared by SGHMC and SGLD."""

    def __init__(self, n, burn_in_steps):
        self.burn = burn_in_steps
        self.k = 0
        self.tau, self.g, self.v = np.ones(n), np.ones(n), np.ones(n)
        self.m = np.ones(n)

    @property
    def adapting(self):
        # burn_in_steps == 0: nothing was ever tuned, so the sampler keeps adapting
        return self.k < self.burn or self.burn == 0

    def current_m(self):
        return offset_divide(1., np.sqrt(np.maximum(self.v, 0))) if self.adapting else self.m

    def adapt(self, grad):
        if self.adapting:
            self.m = self.current_m()
            r = 1. / (self.tau + 1.)
            tau = self.tau + offset_divide(-self.g * self.g * self.tau, self.v) + 1.
            g = self.g - r * self.g + r * grad
            v = self.v - r * self.v + r * grad ** 2
            self.tau, self.g, self.v = tau, g, v
        self.k += 1

    def key(self):
        return [np.round(x, 9).tolist() for x in (self.tau, self.g, self.v, self.m)] + [min(self.k, self.burn)]


class SGHMC(Adaptive):
    def __init__(self, n, opts):
        super().__init__(n, opts.get("burn_in_steps", 3000))
        self.mdecay, self.scale = opts.get("mdecay", 0.05), opts.get("scale_grad", 1.0)
        self.V = np.zeros(n)

    def predict(self, theta, grad, eps):
        m = self.current_m()
        es = eps / np.sqrt(self.scale)
        var = 2. * es ** 2 * self.mdecay * m - es ** 4
        sigma = np.sqrt(np.maximum(var, 1e-16))
        drift = self.V - eps ** 2 * m * grad - self.mdecay * self.V
        return theta + drift, sigma

    def advance(self, theta, grad, eps, z):
        mean, sigma = self.predict(theta, grad, eps)
        new = mean + sigma * z
        self.V = new - theta
        self.adapt(grad)
        return new

    def advance_exact(self, theta, grad, eps, z):
        """As advance, but the momentum is kept separately (no cancellation)."""
        m = self.current_m()
        mean, sigma = self.predict(theta, grad, eps)
        self.V = self.V - eps ** 2 * m * grad - self.mdecay * self.V + sigma * z
        self.adapt(grad)
        return theta + self.V

    def key(self):
        return super().key() + [np.round(self.V, 9).tolist()]


class SGLD(Adaptive):
    def __init__(self, n, opts):
        super().__init__(n, opts.get("burn_in_steps", 3000))
        self.A, self.scale = opts.get("A", 1.0), opts.get("scale_grad", 1.0)

    def predict(self, theta, grad, eps):
        m = self.current_m()
        sigma = np.sqrt(np.maximum(2. * eps * offset_divide(m * self.A, self.scale), 0))
        return theta - eps * m * self.A * grad, sigma

    def advance(self, theta, grad, eps, z):
        mean, sigma = self.predict(theta, grad, eps)
        self.adapt(grad)
        return mean + sigma * z
    advance_exact = advance


class Relativistic(object):
    def __init__(self, n, opts, momenta):
        self.m, self.c = opts.get("mass", 1.0), opts.get("speed_of_light", 1.0)
        self.D, self.B = opts.get("D", 1.0), opts.get("Bhat", 0.0)
        self.p = np.array([momenta[i % len(momenta)] for i in range(n)], dtype=float)

    def velocity(self, p):
        return p / (self.m * np.sqrt(p ** 2 / (self.m ** 2 * self.c ** 2) + 1.))

    def momentum(self, grad, eps):
        mean = self.p - eps * grad - self.D * eps * self.velocity(self.p)
        return mean, np.sqrt(eps * (2. * self.D - eps * self.B))

    def advance(self, theta, grad, eps, z):
        mean, sigma = self.momentum(grad, eps)
        self.p = mean + sigma * z
        return theta + eps * self.velocity(self.p)
    advance_exact = advance

    def key(self):
        return [np.round(self.p, 9).tolist()]


class SVGD(object):
    def __init__(self, shape, opts):
        self.alpha, self.fudge = opts.get("alpha", 0.9), opts.get("fudge_factor", 1e-6)
        self.H = np.zeros(shape)

    @staticmethod
    def direction(x, grads):
        n = len(x)
        d2 = np.array([[np.sum((x[i] - x[j]) ** 2) for j in range(n)] for i in range(n)])
        flat = np.sort(d2.ravel())
        N = len(flat)
        med = flat[N // 2] if N % 2 else 0.5 * (flat[N // 2 - 1] + flat[N // 2])
        h2 = 0.5 * med / np.log(n + 1.)
        G = np.zeros_like(x)
        for i in range(n):
            for j in range(n):
                k = np.exp(-d2[i, j] / (2 * h2))
                G[i] += k * grads[j] - (x[i] - x[j]) * k / h2
        return G / n

    def advance(self, x, grads, eps):
        G = self.direction(x, grads)
        self.H = self.alpha * self.H + (1 - self.alpha) * G ** 2
        return x - eps * G / (self.fudge + np.sqrt(self.H))


def model(cfg):
    n = sum(int(np.prod(s["shape"], dtype=int)) for s in cfg["params"])
    opts = cfg.get("opts", {})
    if cfg["sampler"] == "SGHMC":
        return SGHMC(n, opts)
    if cfg["sampler"] == "SGLD":
        return SGLD(n, opts)
    if cfg["sampler"] == "Relativistic":
        return Relativistic(n, opts, cfg["momenta"])
    raise KeyError(cfg["sampler"])


class Chain(object):
    """Noise-free conformance partner of a World, for any sampler."""

    def __init__(self, world):
        self.world, self.cfg = world, world.cfg
        self.svgd = self.cfg["sampler"] == "SVGD"
        rows = [np.asarray(s["init"], dtype=self.cfg.get("dtype", "float64")).astype(float).ravel()
                for s in self.cfg["params"]]
        if self.svgd:
            self.theta = np.array(rows)
            self.model = SVGD(self.theta.shape, self.cfg.get("opts", {}))
        else:
            self.theta = np.concatenate(rows)
            self.model = model(self.cfg)

    def flat(self):
        return self.theta.ravel()

    def step(self, batch, eps, u=1.):
        """Performs a step; returns (flat theta afterwards, cost before)."""
        cost = self.world.cost
        if self.svgd:
            costs = np.array([cost.np(row, batch, u) for row in self.theta])
            grads = np.array([cost.grad(row, batch, u) for row in self.theta])
            self.theta = self.model.advance(self.theta, grads, eps)
            return self.theta.ravel(), costs
        c, g = cost.np(self.theta, batch, u), cost.grad(self.theta, batch, u)
        self.theta = self.model.advance_exact(self.theta, g, eps, np.zeros(len(self.theta)))
        return self.theta, np.asarray(c)
