"""What a seed determines, computed in a process of its own.

    python -m mc.fresh TOPIC      prints {name: digest} for one topic

Python salts hashes per process, and process ids, times, addresses differ, so
values that depend on any of these agree within one process but not between
two. `compare` runs a topic in fresh processes with different salts."""
import hashlib
import json
import os
import subprocess
import sys

SALTS = ("0", "1", "4294967295")


def digest(*arrays):
    import numpy as np
    h = hashlib.blake2b(digest_size=12)
    for a in arrays:
        a = np.asarray(a)
        h.update(repr((a.shape, a.dtype.str)).encode() + a.tobytes())
    return h.hexdigest()


def chains():
    from .checks import c08
    out = {}
    for kind in c08.KINDS:
        for seed in (0, 3, 2 ** 31 - 1):
            chain = c08.Chain(c08.config(kind, seed))
            for k in range(6):
                chain.advance()
            chain.close()
            for k, row in enumerate(chain.rows):
                out["%s chain with seed %d, step %d" % (kind, seed, k)] = hashlib.blake2b(row[0] + row[1], digest_size=12).hexdigest()
    return out


def batches(shuffled=False):
    import itertools
    import numpy as np
    import tensorflow as tf
    import pysgmcmc.data_batches as module
    generate = module.generate_shuffled_batches if shuffled else module.generate_batches
    out = {}
    with tf.Graph().as_default():
        keys = tf.placeholder(tf.float64), tf.placeholder(tf.float64)
    for n, size in ((9, 2), (40, 7), (3, 5)):
        x, y = np.arange(2.0 * n).reshape(n, 2), np.arange(1.0 * n)
        for seed in (0, 5, 2 ** 31 - 1):
            source = generate(x.copy(), y.copy(), keys[0], keys[1], batch_size=size, seed=seed)
            for k, batch in enumerate(itertools.islice(source, 12)):
                out["batch %d of size %d from %d rows with seed %d" % (k, size, n, seed)] = digest(batch[keys[0]], batch[keys[1]])
    return out


def shuffled():
    return batches(True)


def networks():
    from .checks import c28
    out = {}
    for method in ("SGHMC", "SGLD"):
        for seed in (1, 2 ** 31 - 1):
            net = c28.Network(seed=seed, method=method, net="mlp")
            net.go()
            net.go()
            for k, a in enumerate(net.go()):
                out["prediction %d of a network trained by %s with seed %d" % (k, method, seed)] = digest(a)
            net.session.close()
    return out


def defaultnet():
    from .checks import c35
    out = {}
    for dtype in ("float64", "float32"):
        for seed in (0, 4):
            net = c35.Net(2, dtype, seed=seed)
            for k, v in enumerate(net.roles):
                out["initial value of variable %d of the default network in %s with seed %d" % (k, dtype, seed)] = digest(
                    net.session.run(net.variables[v]))
            net.session.close()
    return out


TOPICS = dict(chains=chains, batches=batches, shuffled=shuffled, networks=networks, defaultnet=defaultnet)


def elsewhere(topic):
    from . import core
    procs = []
    for salt in SALTS:
        env = dict(os.environ, PYTHONHASHSEED=salt, MC_REPO=core.REPO)
        procs.append(subprocess.Popen([sys.executable, "-W", "ignore", "-m", "mc.fresh", topic], cwd=core.ROOT, env=env,
                                      stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    out = []
    for salt, p in zip(SALTS, procs):
        stdout, stderr = p.communicate()
        answer = stdout.decode("utf-8", "replace").strip().splitlines()
        if p.returncode != 0 or not answer:
            raise core.HarnessError("process with salt %s ended with %r\n%s" % (
                salt, p.returncode, stderr.decode("utf-8", "replace")[-3000:]))
        out.append(json.loads(answer[-1]))
    return out


def compare(topic, R, key):
    from .core import Violation
    here = TOPICS[topic]()          # a failure of the code shows here, with its reason
    for salt, there in zip(SALTS, elsewhere(topic)):
        for name in sorted(here):
            R.step()
            R.state(topic, name, here[name])
            if there.get(name) != here[name]:
                raise Violation("%s is not the same in another process" % name, key=key, topic=topic, salt=salt)
    R.count("processes", len(SALTS))
    R.trace(len(SALTS))


if __name__ == "__main__":
    from mc import core, env
    core.REPO = os.environ.get("MC_REPO", "/repo")
    env.setup(core.REPO)
    print(json.dumps(TOPICS[sys.argv[1]]()))
    sys.stdout.flush()
    os._exit(0)
