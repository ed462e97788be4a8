"""C21: uninitialized_params returns exactly the uninitialised variables."""
import itertools

import numpy as np
import tensorflow as tf

from ..core import Violation

BOUNDS = ("Explicit-state exploration of all 2^4 x 2^4 initialisation states of 4 variables (different dtypes and shapes, zeros and values that are not finite included, trainable "
          "or not) in two sessions; in every state all 65 ordered selections without repetition and 16 with are queried in "
          "turn in both sessions; all histories of 4 initialisations and resets of 3 variables; after every query no "
          "variable may have changed. A graph of twelve reference and resource variables, local and global, in scopes, in which "
          "all, none, exactly one or all but one (thorough: also two) have a value; a graph of 130 variables.")
ASSUMPTIONS = ["the sixteen states and the histories use reference (non-resource) variables"]


def plan(tier, rng):
    out = [dict(kind="states", first=first, weight=4) for first in range(16)]
    for head in range(8):
        out.append(dict(kind="histories", head=head, depth=5 if tier == "thorough" else 4, weight=6))
    out.append(dict(kind="crowd", weight=3))
    for first in range(3):
        out.append(dict(kind="many", first=first, depth=2 if tier == "thorough" else 1, weight=5))
    return out


def check(item, R):
    R.sample(item)
    globals()[item["kind"]](item, R)


def variables():
    return [tf.Variable(1.5, dtype=tf.float64, name="a"), tf.Variable([[float("nan"), float("-inf")]], dtype=tf.float32, name="b"),
            tf.Variable(3, name="c", trainable=False), tf.Variable(tf.zeros((2, 1), tf.float64), name="d")]


def contents(params, session):
    out = []
    for p in params:
        try:
            out.append(repr(np.asarray(session.run(p)).tolist()))
        except tf.errors.FailedPreconditionError:
            out.append(None)
    return out


def query(params, picks, session, have, R, **where):
    from pysgmcmc.tensor_utils import uninitialized_params
    given = [params[i] for i in picks]
    got = uninitialized_params(params=given, session=session)
    want = [params[i] for i in picks if i not in have]
    try:
        got = list(got)
    except TypeError:
        raise Violation("uninitialized_params returns %r" % (got,), key="result")
    if len(got) != len(want) or any(g is not w for g, w in zip(got, want)):
        raise Violation("of %r with %r initialised, %r are reported uninitialised, should be %r" % (
            [p.name for p in given], [params[i].name for i in have], [getattr(p, "name", p) for p in got],
            [p.name for p in want]), key="result", **where)
    R.step()


def states(item, R):
    selections = [s for r in range(5) for s in itertools.permutations(range(4), r)]
    repeated = list(itertools.product(range(4), repeat=2))
    first = [i for i in range(4) if item["first"] >> i & 1]
    for second in range(16):
        mine = [i for i in range(4) if second >> i & 1]
        with tf.Graph().as_default(), tf.Session() as s1:
            s2 = tf.InteractiveSession()
            try:
                params = variables()
                for i in first:
                    s1.run(params[i].initializer)
                for i in mine[::-1]:
                    s2.run(params[i].initializer)
                    s2.run(params[i].assign(params[i] + params[i]))
                before = contents(params, s1), contents(params, s2)
                # every selection is queried in every state of either session, in turns
                for k, picks in enumerate(selections + repeated):
                    if (k + second) % 4 == 0:
                        query(params, picks, s1, first, R, other=mine)
                    if (k + item["first"]) % 4 == 0:
                        query(params, picks, s2, mine, R, other=first)
                R.require((contents(params, s1), contents(params, s2)) == before, "querying changed variables", key="changed")
            finally:
                s2.close()
            R.state(first, mine)
        R.trace()


def histories(item, R):
    """Initialising, assigning and resetting; queries after every operation."""
    n, depth = 3, item["depth"]
    ops = [(kind, i) for kind in ("init", "assign") for i in range(n)] + [("reset", None), ("init all", None)]
    for tail in itertools.product(ops, repeat=depth - 1):
        history = (ops[item["head"]],) + tail
        if not any(k == "reset" for k, _ in history) and sum(k == "init all" for k, _ in history) > 1:
            continue
        R.trace()
        replay(history, n, R)


CACHE = {}


def replay(history, n, R):
    """Replays a history on shared graph; a fresh session is a reset state."""
    if "graph" not in CACHE:
        CACHE["graph"] = tf.Graph()
        with CACHE["graph"].as_default():
            CACHE["params"] = variables()
            CACHE["assign"] = [p.assign(p.initial_value) for p in CACHE["params"]]
    params = CACHE["params"]
    CACHE["uses"] = CACHE.get("uses", 0) + 1
    with CACHE["graph"].as_default():
        session = tf.Session()
        have = set()
        try:
            for k, (kind, i) in enumerate(history):
                if kind == "reset":
                    session.close()
                    session, have = tf.Session(), set()
                elif kind == "init all":
                    session.run(tf.variables_initializer(params[:n]))
                    have = set(range(n))
                else:
                    session.run(params[i].initializer if kind == "init" else CACHE["assign"][i])
                    have.add(i)
                if k == len(history) - 1:        # prefixes are histories of their own
                    query(params, range(n), session, have, R, history=history)
                R.state(sorted(have), kind, i)
        finally:
            session.close()
    if CACHE["uses"] >= 60:
        CACHE.clear()


def many(item, R):
    """Twelve variables of all kinds; every one or two of them have a value, or all but one or two."""
    with tf.Graph().as_default():
        params = []
        for i in range(12):
            with tf.variable_scope("scope_%d" % (i % 3)):
                params.append(tf.get_variable("v%d" % (i // 3), initializer=np.array([[0., 0.], [float("nan"), float(i)], [float("inf"), 1.]][i // 2 % 3]), use_resource=i % 2 == 1,
                                              collections=[[tf.GraphKeys.LOCAL_VARIABLES], None, []][i % 3], trainable=i % 4 == 0))
        for n in range(item["depth"] + 1):
            for picks in list(itertools.combinations(range(12), n))[item["first"]::3]:
                for have in (set(picks), set(range(12)) - set(picks)):
                    with tf.Session() as session:
                        session.run([params[i].initializer for i in have])
                        query(params, range(12), session, have, R)
                        query(params, list(range(11, -1, -2)), session, have, R)
                    R.state(sorted(have))
        R.trace()


def crowd(item, R):
    """Hundreds of variables, queried at once."""
    with tf.Graph().as_default():
        params = [tf.Variable(float(i), name="p%d" % (i % 7)) for i in range(130)]
        for have in (set(), set(range(130)), set(range(0, 130, 3)), {63, 64, 127, 128}):
            with tf.Session() as session:
                session.run([params[i].initializer for i in sorted(have)])
                query(params, range(130), session, have, R)
                query(params, range(129, -1, -1), session, have, R)
            R.state(len(have))
    R.trace()
