"""C27: models keep, extend and report their data faithfully."""
import itertools
import json

import numpy as np

from ..core import Violation

BOUNDS = ("Every history of up to 4 (thorough 5) train/update/incumbent/json operations with data sets of 0..2 rows (the caller overwriting "
          "its arrays in between), 40 updates in a row of up to 5000 rows, every target vector of up to 5 (thorough 6) values over {-2, 0, 1.5} and its incumbent, every combination "
          "of input shapes of rank 0..3 and target shapes of rank 0..2 with extents 0..2 at the guards.")
ASSUMPTIONS = ["a model's train stores the data it is given in X and y, as the interface documents"]
TECHNIQUE = "explicit-state exploration: all bounded operation histories on the real implementation compared with a reference model"


def plan(tier, rng):
    out = [dict(kind="histories", first=i, depth=5 if tier == "thorough" else 4, weight=5) for i in range(4)]
    for n in range(1, 7 if tier == "thorough" else 6):
        out.append(dict(kind="incumbents", n=n, weight=3 ** n / 50.))
    for sizes in ((1, 1, 1), (200, 900, 1), (1500, 3, 2), (3, 5000, 7), (10, 0, 11)):
        out.append(dict(kind="many", sizes=sizes))
    out += [dict(kind="guards", weight=3), dict(kind="network_guards", weight=3)]
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def model_class():
    from pysgmcmc.models.base_model import BaseModel

    class Model(BaseModel):
        def __init__(self):
            super().__init__()
            self.trained = []

        def train(self, X, y):
            self.trained.append((np.array(X), np.array(y), X, y))
            self.X, self.y = X, y

        def predict(self, X_test):
            return X_test
    return Model


def sets():
    return [(np.array([[1.0, -2.0]]), np.array([3.0])), (np.array([[0.5, 4.0], [2.0, 2.0]]), np.array([-1.0, -1.0])),
            (np.zeros((0, 2)), np.zeros(0)), (np.array([[1 / 3., 1e-13], [1.0, -2.0]]), np.array([1e-11 / 3, 1e17 / 7]))]


def histories(item, R):
    Model = model_class()
    ops = [("update", i) for i in range(4)] + [("train", i) for i in range(4)]
    for tail in itertools.product(ops, repeat=item["depth"] - 1):
        history = (("train", item["first"]),) + tail
        model = Model()
        blank = model.get_json_data()
        R.require(blank.get("X", 0) is None and blank.get("y", 0) is None, "json of an untrained model: %r" % blank, key="json")
        X, y = np.zeros((0, 2)), np.zeros(0)
        for k, (kind, i) in enumerate(history):
            nx, ny = sets()[i]
            if kind == "train":
                model.train(nx, ny)
                X, y = nx.copy(), ny.copy()
            else:
                kx, ky = nx.copy(), ny.copy()
                count = len(model.trained)
                model.update(nx, ny)
                X, y = np.concatenate([X, kx]), np.concatenate([y, ky])
                R.require(len(model.trained) == count + 1, "update trains %d times" % (len(model.trained) - count), key="update", history=history)
                gx, gy = model.trained[-1][:2]
                if not (gx.shape == X.shape and gy.shape == y.shape and np.array_equal(gx, X) and np.array_equal(gy, y)):
                    raise Violation("update trains on %r, %r, should be %r, %r" % (gx.tolist(), gy.tolist(), X.tolist(), y.tolist()),
                                    key="update", history=history[:k + 1])
                R.require(np.array_equal(nx, kx) and np.array_equal(ny, ky), "update modified the new data", key="input")
                # the caller goes on using its arrays
                nx[...] = ny[...] = -99
            view = model.get_json_data()
            if view.get("X") != X.tolist() or view.get("y") != y.tolist():
                raise Violation("json is %r, should be %r %r" % (view, X.tolist(), y.tolist()), key="json", history=history[:k + 1])
            json.dumps(view)
            if len(y):
                best(model, X, y)
            R.step()
            R.state(X.tolist(), y.tolist())
        R.trace()


def many(item, R):
    """Long data sets that grow for long."""
    model = model_class()()
    xs, ys = np.zeros((0, 2)), np.zeros(0)
    for k in range(40):
        n = item["sizes"][k % 3] if k < 3 else 1 + k % 3
        x = np.array([[np.sin(i * 0.7 + k), 1.0 / (i + 2 + k)] for i in range(n)]).reshape(n, 2)
        y = np.array([((i * 7919 + 31 * k) % 10007) / 3.0 for i in range(n)])
        xs, ys = np.concatenate([xs, x]), np.concatenate([ys, y])
        if k:
            model.update(x, y)
        else:
            model.train(x, y)
        view = model.get_json_data()
        for got, want in ((model.X, xs), (model.y, ys), (view["X"], xs), (view["y"], ys)):
            if np.shape(got) != want.shape or not np.array_equal(got, want):
                raise Violation("after %d updates the data of %d rows is of shape %r or has other values" % (k, len(ys), np.shape(got)), key="update", item=item)
        best(model, xs, ys)
        R.step()
        R.state(item["sizes"], k)
    R.trace()


def best(model, X, y):
    want = min(range(len(y)), key=lambda j: y[j])
    point, value = model.get_incumbent()
    if np.shape(point) != X.shape[1:] or not np.array_equal(point, X[want]) or np.shape(value) != () or value != y[want]:
        raise Violation("the incumbent of %r, %r is %r, %r" % (X.tolist(), y.tolist(), np.asarray(point).tolist(), value), key="incumbent")
    if not (np.array_equal(model.X, X) and np.array_equal(model.y, y)):
        raise Violation("get_incumbent changed the data", key="incumbent")


def incumbents(item, R):
    n = item["n"]
    X = np.arange(2.0 * n).reshape(n, 2)
    for values in itertools.product((-2.0, 0.0, 1.5), repeat=n):
        for variant in range(3):
            y = np.array(values)
            if variant == 1:
                y = y * 1e-9 + 100
            if variant == 2:
                y = np.where(y == 1.5, np.inf, y)
            model = model_class()()
            model.train(X.copy(), y.copy())
            best(model, X, y)
            R.step()
        R.state(values)
    R.trace()


def guards(item, R):
    from pysgmcmc.models.base_model import BaseModel
    calls = []

    class Guarded(BaseModel):
        @BaseModel._check_shapes_train
        def train(self, X, y, *args, **kwargs):
            calls.append((X, y, args, kwargs))
            return "trained"

        @BaseModel._check_shapes_predict
        def predict(self, X_test, *args, **kwargs):
            calls.append((X_test, args, kwargs))
            return "predicted"

    model = Guarded()
    shapes = [s for r in range(4) for s in itertools.product(range(3), repeat=r)]
    targets = [s for r in range(3) for s in itertools.product(range(4), repeat=r)]
    for shape in shapes:
        X = np.zeros(shape)
        for target in targets:
            y = np.ones(target)
            for args, kwargs in (((), {}), ((1, "a"), dict(flag=True))):
                allowed = len(shape) == 2 and len(target) == 1 and shape[0] == target[0]
                calls.clear()
                verdict(allowed, lambda: model.train(X, y, *args, **kwargs), "trained", calls, "train with shapes %r, %r" % (shape, target))
                if allowed:
                    gx, gy, ga, gk = calls[0]
                    R.require(gx is X and gy is y and ga == args and gk == kwargs, "arguments were changed", key="arguments")
                R.step()
                R.state(shape, target)
        for args, kwargs in (((), {}), ((True,), {}), ((), dict(return_individual_predictions=True))):
            calls.clear()
            verdict(len(shape) == 2, lambda: model.predict(X, *args, **kwargs), "predicted", calls, "predict with shape %r" % (shape,))
            if len(shape) == 2:
                R.require(calls[0][0] is X and calls[0][1:] == (args, kwargs), "arguments were changed", key="arguments")
            R.step()
    R.trace()


def verdict(allowed, call, result, calls, what):
    try:
        got = call()
    except Exception as e:
        if allowed:
            raise Violation("%s is rejected: %r" % (what, e), key="rejected")
        if calls:
            raise Violation("%s fails only after it got through: %r" % (what, e), key="accepted")
        return
    if not allowed:
        raise Violation("%s is accepted" % what, key="accepted")
    if got != result or len(calls) != 1:
        raise Violation("%s returns %r, called %d times" % (what, got, len(calls)), key="result")


def network_guards(item, R):
    """Networks are guarded like that, too; nothing happens to them before."""
    from .. import bnn
    with bnn.Trained(n_nets=1, n_iters=3, burn_in_steps=0, sample_steps=1, n=3, d=2) as t:
        for shape in ((), (2,), (3, 2, 1), (0,), (1, 1, 2)):
            for kw in ({}, dict(return_individual_predictions=True)):
                try:
                    out = t.bnn.predict(np.zeros(shape), **kw)
                except Exception:
                    R.step()
                    R.state("predict", shape)
                    continue
                raise Violation("predict accepts inputs of shape %r: %r" % (shape, out), key="accepted")
    for shape in ((), (3,), (3, 2, 1)):
        try:
            bnn.Trained(x=np.zeros(shape), y=np.zeros(3), n_nets=1, n_iters=1, burn_in_steps=0, sample_steps=1)
        except Exception:
            R.step()
            R.state("train", shape)
            continue
        raise Violation("train accepts inputs of shape %r" % (shape,), key="accepted")
    R.trace()
