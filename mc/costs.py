"""Target functions: a tensorflow version for the sampler and a boring numpy
version (value and gradient) for the reference.

All act on the flat vector of all elements of all target parameters (for SVGD:
of one particle) and on the current batch x (mean and size matter).
"""
import numpy as np
import tensorflow as tf


class Cost(object):
    def __init__(self, value, tf_fun):
        self.value, self.tf = value, tf_fun

    def np(self, theta, x, u=1.):
        return self.value(np.asarray(theta, dtype=float), None if x is None else np.asarray(x, dtype=float), u)[0]

    def grad(self, theta, x, u=1.):
        return self.value(np.asarray(theta, dtype=float), None if x is None else np.asarray(x, dtype=float), u)[1]


def is_resource(v):
    return v.dtype == tf.resource or type(v).__name__ == "ResourceVariable"


def flatten(params):
    if isinstance(params, (list, tuple)):
        return tf.concat([tf.reshape(p, [-1]) for p in params], axis=0)
    return tf.reshape(params, [-1])


def coefficients(name, n):
    """a: quartic, b: quadratic, c: linear, K: couplings, d: batch coupling."""
    i = np.arange(n, dtype=float)
    K = np.zeros((n, n))
    if name == "quad":
        return 0 * i, 1. + 0.5 * i, 0.3 - 0.2 * i, K, 0.
    if name == "mild":          # for very many elements
        return 0 * i, 1. + 0.5 * (i % 3), 0.3 - 0.2 * (i % 4), K, 0.
    if name == "quad_batch":
        return 0 * i, 1. + 0.5 * i, 0.1 + 0 * i, K, 1.
    if name == "quartic":
        return 0.5 + 0.1 * i, -1. + 0 * i, 0.2 * (-1.) ** i, K, 0.
    if name == "quartic_batch":
        return 0.5 + 0.1 * i, -1. + 0 * i, 0.2 * (-1.) ** i, K, 0.7
    if name == "coupled":
        for k in range(n - 1):
            K[k, k + 1] = K[k + 1, k] = 0.8 - 0.3 * k
        return 0 * i + 0.1, 1. + 0.25 * i, 0.2 - 0.1 * i, K, 0.
    if name == "coupled_batch":
        for k in range(n - 1):
            K[k, k + 1] = K[k + 1, k] = 0.8 - 0.3 * k
        return 0 * i + 0.1, 1. + 0.25 * i, 0.2 - 0.1 * i, K, 0.5
    if name == "linear":
        return 0 * i, 0 * i, 2. - 3. * i, K, 0.
    if name == "first":           # the first element itself
        return 0 * i, 0 * i, np.eye(n)[0], K, 0.
    if name == "flat":            # gradient exactly 0 everywhere but still connected
        return 0 * i, 0 * i, 0 * i, K, 0.
    if name == "steep":
        return 0 * i, 40. + 25. * i, 3. + 0 * i, K, 0.
    if name == "cliff":           # gradients of millions
        return 0 * i, 1e6 + 5e5 * i, 3e6 * (-1.) ** i, K, 0.
    if name == "faint":           # gradients of millionths
        return 0 * i, 0 * i, 1e-6 * (1. + i) * (-1.) ** i, K, 0.
    if name == "swing_batch":     # gradients that only come from the batch and may average to zero
        return 0 * i, 0 * i, 0 * i, K, 1.
    raise KeyError(name)


def make(cfg, world):
    spec = cfg["cost"]
    name = spec["name"]
    dt = world.dtype
    if cfg["sampler"] == "SVGD":
        n = int(np.prod(cfg["params"][0]["shape"], dtype=int))
    else:
        n = sum(int(np.prod(s["shape"], dtype=int)) for s in cfg["params"])
    perm = spec.get("perm")
    a, b, c, K, d = coefficients(name, n if perm is None else max(n, max(perm) + 1))
    scale = spec.get("scale", 1.)
    if perm is not None:      # coefficients follow their element through a relayout
        a, b, c, K = a[perm], b[perm], c[perm], K[np.ix_(perm, perm)]

    def value(theta, x, u):
        U = np.sum(a * theta ** 4 / 4 + b * theta ** 2 / 2 + c * theta) + 0.5 * theta @ K @ theta
        g = a * theta ** 3 + b * theta + c + K @ theta
        if d:
            m = np.mean(x) * len(x)      # sums, so that the batch size matters too
            U = U + d * m * np.sum(theta) + d * np.sum(x ** 2)
            g = g + d * m
        if spec.get("user_feed"):
            U, g = U * u, g * u
        return scale * U, scale * g

    reads = spec.get("reads")
    k = lambda v: tf.constant(v, dtype=dt)  # noqa

    def joint(params):
        t = flatten(params)
        U = tf.reduce_sum(k(a / 4) * t ** 4 + k(b / 2) * t ** 2 + k(c) * t)
        if len(K) <= 100 or K.any():
            U += 0.5 * tf.reduce_sum(t * tf.reshape(tf.matmul(k(K), tf.reshape(t, [-1, 1])), [-1]))
        return U, tf.reduce_sum(t)

    def separate(params):
        """Reads every parameter on its own, also in the gradients."""
        if reads == "fresh":
            params = [tf.identity(p) * 1. for p in params]
        elif reads == "ref":
            params = [v._ref() if hasattr(v, "_ref") and not is_resource(v) else v for v in params]
        elements = []
        for p in params:
            size = int(np.prod(p.shape.as_list(), dtype=int))
            if p.shape.as_list() == []:
                elements.append(p)
            elif size == 1:
                elements.append(tf.reshape(p, []))
            else:
                elements.extend(tf.reshape(p, [-1])[i] for i in range(size))
        total = tf.add_n([e * 1. for e in elements])
        U = k(0.)
        for i, e in enumerate(elements):
            U += k(a[i] / 4) * e ** 4 + k(b[i] / 2) * e ** 2 + k(c[i]) * e
            for j in range(i):
                if K[i, j]:
                    U += k(K[i, j]) * e * elements[j]
        return U, total
    body = separate if reads else joint
    prebuilt = body(world.params) if reads == "prebuilt" else None

    def tf_fun(params, *_, **__):
        if name == "first":       # nothing but another view of the parameter
            return tf.reshape(params[0], [])
        U, total = prebuilt or body(params)
        if d:
            x = world.placeholder
            U += d * tf.reduce_sum(x) * total + d * tf.reduce_sum(x ** 2)
        if spec.get("user_feed"):
            U = U * world.user_feed
        return scale * U
    tf_fun.__name__ = name
    return Cost(value, tf_fun)
