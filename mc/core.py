"""Reporting, evidence and the parallel driver shared by all checks.

A check is a module mc.checks.<id> with

    BOUNDS          text: what is enumerated
    ASSUMPTIONS     list of texts
    plan(tier, rng) list of JSON-able items; together they are the bounded space
    check(item, R)  explores one item exhaustively on the real code; reports to R

Everything random (order of items, jitter of values) derives from VERIF_SEED.
"""
import collections
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import multiprocessing

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
JOBS = int(os.environ.get("MC_JOBS", "0")) or os.cpu_count() or 4
ITEM_LIMIT_S = 400
STOP_S = 240


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, message, key=None, **detail):
        super().__init__(message)
        self.message, self.key, self.detail = message, key, detail


class HarnessError(Exception):
    """The check itself is at fault; never reported as a violation."""


class ItemTimeout(Exception):
    pass


class Result:
    """What one worker observed. All counts are measured."""

    MAX_SAMPLES = 4

    def __init__(self):
        self.states, self.transitions, self.traces = 0, 0, 0
        self.extra = collections.Counter()
        self.samples, self.violations = [], []
        self._seen = set()
        self.distinct = 0

    # -- counting ---------------------------------------------------------
    def state(self, *canonical):
        """Count a state of the implementation, once per canonical form."""
        h = hashlib.blake2b(repr(canonical).encode(), digest_size=12).digest()
        if h in self._seen:
            return False
        self._seen.add(h)
        self.states += 1
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] += n

    def sample(self, case):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(case)

    # -- verdicts ---------------------------------------------------------
    def violation(self, message, key=None, **detail):
        self.violations.append(dict(message=message, key=key, detail=detail))

    def require(self, ok, message, key=None, **detail):
        if not ok:
            raise Violation(message, key=key, **detail)

    def dump(self):
        return dict(states=self.states, transitions=self.transitions,
                    traces=self.traces, extra=dict(self.extra),
                    samples=self.samples, violations=self.violations)


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return repr(x)


def _from_repo(tb):
    pkg = os.path.join(os.path.realpath(REPO), "pysgmcmc") + os.sep
    for frame in traceback.extract_tb(tb):
        if os.path.realpath(frame.filename).startswith(pkg):
            return True
    return False


def _blames_repo(e, tb):
    """Raised below code of the package, or by an operation it created."""
    if _from_repo(tb) or e.__cause__ is not None and _from_repo(e.__cause__.__traceback__):
        return True
    pkg = os.path.join(os.path.realpath(REPO), "pysgmcmc") + os.sep
    try:
        stack = getattr(e, "op", None).traceback
        return any(os.path.realpath(frame[0]).startswith(pkg) for frame in stack)
    except Exception:
        return False


def _run_item(args):
    modname, item, index = args
    module = importlib.import_module(modname)
    res = Result()

    def on_alarm(*_):
        raise ItemTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(getattr(module, "ITEM_LIMIT_S", ITEM_LIMIT_S))
    error = None
    t0 = time.time()
    try:
        module.check(item, res)
    except Violation as v:
        res.violation(v.message, key=v.key, **v.detail)
    except HarnessError:
        error = traceback.format_exc()
    except ItemTimeout:
        if _from_repo(sys.exc_info()[2]):
            res.violation("the code under test did not finish: "
                          + traceback.format_exc(limit=-6), key="timeout")
        else:
            error = "item timed out in the harness\n" + traceback.format_exc()
    except BaseException as e:  # noqa
        if isinstance(e, KeyboardInterrupt):
            raise
        cause, seen = e, 0
        while cause is not None and not isinstance(cause, Violation) and seen < 20:
            cause, seen = cause.__context__, seen + 1
        if isinstance(cause, Violation):        # cleaning up after it failed as well
            res.violation(cause.message, key=cause.key, **cause.detail)
        elif _blames_repo(e, sys.exc_info()[2]):
            res.violation("unexpected %s from the code under test: %s" %
                          (type(e).__name__, str(e)[:600]), key="exception",
                          traceback=traceback.format_exc()[-3000:])
        elif isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)) and not isinstance(e, UnicodeError):
            # the harness handles every form of result the property allows
            res.violation("what the code under test returned has an unexpected form (%s: %s)" %
                          (type(e).__name__, str(e)[:600]), key="form",
                          traceback=traceback.format_exc()[-3000:])
        else:
            error = traceback.format_exc()
    finally:
        signal.alarm(0)
    out = res.dump()
    out["index"], out["error"], out["wall"] = index, error, time.time() - t0
    return jsonable(out)


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {(e["property"], e["key"]): e for e in data.get("findings", [])}


def _is_new(prop, violation):
    return (prop, violation["key"]) not in load_known()


def run_check(prop, tier, seed, replay=None):
    t0 = time.time()
    module = importlib.import_module("mc.checks." + prop.lower())
    if replay:
        with open(replay) as f:
            items = [json.load(f)["item"]]
    else:
        items = module.plan(tier, random.Random(seed))
    modname = module.__name__
    total = Result()
    errors, viols, walls = [], [], []
    jobs = min(JOBS, max(1, len(items)))
    # long items first keeps the workers busy
    order = sorted(range(len(items)),
                   key=lambda i: -(items[i].get("weight", 1) if isinstance(items[i], dict) else 1))
    work = [(modname, items[i], i) for i in order]
    if getattr(module, "PREPARE", None):
        module.PREPARE()
    if jobs == 1:
        results = map(_run_item, work)
    else:
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(jobs)
        results = pool.imap_unordered(_run_item, work, chunksize=1)
    n_samples = collections.Counter()
    for out in results:
        total.states += out["states"]
        total.transitions += out["transitions"]
        total.traces += out["traces"]
        total.extra.update(out["extra"])
        kind = items[out["index"]].get("kind", "") if isinstance(items[out["index"]], dict) else ""
        for s in out["samples"]:
            if n_samples[kind] < 2 and len(total.samples) < 12:
                n_samples[kind] += 1
                total.samples.append(s)
        if out["error"]:
            errors.append((out["index"], out["error"]))
        for v in out["violations"]:
            viols.append((out["index"], v))
        walls.append((out["wall"], out["index"]))
        if time.time() - t0 > STOP_S and any(_is_new(prop, v) for _, v in viols):
            # a hanging item costs its whole limit, there may be many of them
            errors.append((out["index"], "stopped early, there are violations"))
            break
    if jobs != 1 and len(walls) < len(items):
        pool.terminate()
    elif jobs != 1:
        pool.close()
        pool.join()

    known = load_known()
    reported, new = set(), []
    for index, v in sorted(viols, key=lambda t: t[0]):
        entry = known.get((prop, v["key"]))
        if entry is not None:
            if v["key"] not in reported:
                reported.add(v["key"])
                print("KNOWN-FINDING: property=%s %s" % (prop, entry["what"]))
        else:
            new.append((index, v))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=total.states, transitions=total.transitions,
            traces_validated_against_impl=total.traces,
            samples=total.samples or [jsonable(items[0])],
            exhaustive=not errors and not replay,
            items=len(items), counters=dict(total.extra),
            bounds=module.BOUNDS,
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(new),
        known_findings=sorted(k for k in reported if k),
    )
    if not replay:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    for index, v in new[:3]:
        print("--- item %d: %s" % (index, v["message"]))
        if v["detail"]:
            print(json.dumps(v["detail"])[:1500])
    for index, e in errors[:3]:
        print("HARNESS ERROR in item %d %s\n%s" % (index, json.dumps(jsonable(items[index]))[:500], e), file=sys.stderr)
    walls.sort(reverse=True)
    print("%s [%s]: %d items, %d states, %d transitions, %d traces, %s, %.1fs (slowest item %.1fs #%d)" % (
        prop, tier, len(items), total.states, total.transitions, total.traces,
        dict(total.extra), time.time() - t0, walls[0][0], walls[0][1]))
    if new:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = replay
        if not replay:
            index, v = new[0]
            path = os.path.join(ROOT, "replays", "%s-%d.json" % (prop, index))
            with open(path, "w") as f:
                json.dump(dict(property=prop, item=jsonable(items[index]), violation=v), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        return 3
    return 0
