"""Controlled scheduling of tensorflow graph executions.

The runtime may execute the operations of one `session.run` in any order that
respects data and control edges. A schedule is enforced on the *real* runtime
by cloning the graph and adding control edges that turn a chosen linear
extension of the partial order into the only possible execution order; all
variables are copied into the clone before and back after the run, so the code
around the session never notices.

Executions are equivalent iff they order all conflicting accesses (two accesses
of one variable, one of them a write) alike. `Cone.races` lists the conflicting
pairs the graph leaves unordered: without any, all executions are equivalent.
With or without them, `Cone.extremes` holds, for every operation that writes
(or, `everything`, touches) the state, one linear extension that runs it as
early and one that runs it as late as the graph permits; every orientation of
every single unordered pair occurs in one of them.
"""
import itertools

import numpy as np
import tensorflow as tf
from tensorflow.core.protobuf import rewriter_config_pb2

from .core import HarnessError

REF_WRITES = {"Assign", "AssignAdd", "AssignSub", "CountUpTo"}
REF_WRITE_PREFIXES = ("Scatter", "Apply", "ResourceScatter", "ResourceApply", "SparseApply")
RESOURCE_WRITES = {"AssignVariableOp", "AssignAddVariableOp", "AssignSubVariableOp"}
# outputs of these share (or may share) the buffer of their input
ALIASES = {"Identity", "Reshape", "StopGradient", "PreventGradient", "Squeeze", "ExpandDims", "RefIdentity",
           "Switch", "RefSwitch", "Merge", "RefMerge", "Enter", "RefEnter", "Exit", "RefExit",
           "NextIteration", "RefNextIteration", "Snapshot", "IdentityN", "CheckNumerics", "Bitcast"}
NO_READ = {"Shape", "Size", "Rank", "ShapeN"} | ALIASES
PASSIVE = {"VariableV2", "Variable", "VarHandleOp", "Const", "Placeholder", "PlaceholderWithDefault"}
VARIABLES = {"VariableV2", "Variable", "VarHandleOp", "TemporaryVariable", "AutoReloadVariable"}


def plain_config():
    off = rewriter_config_pb2.RewriterConfig.OFF
    config = tf.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1,
                            use_per_session_threads=False)
    options = config.graph_options
    options.optimizer_options.opt_level = tf.OptimizerOptions.L0
    rewrite = options.rewrite_options
    rewrite.disable_meta_optimizer = True
    rewrite.constant_folding = rewrite.arithmetic_optimization = rewrite.dependency_optimization = off
    return config


def is_write(op):
    return op.type in REF_WRITES or op.type in RESOURCE_WRITES or op.type.startswith(REF_WRITE_PREFIXES)


def variables_of(t, fed=()):
    """Variables whose buffer the tensor may share."""
    found, seen, stack = set(), set(), [t]
    while stack:
        t = stack.pop()
        if t in seen or t in fed:
            continue
        seen.add(t)
        op = t.op
        if op.type in VARIABLES:
            found.add(op.name)
        elif is_write(op):
            stack.extend(list(op.inputs)[:1] if op.type not in RESOURCE_WRITES else [])
        elif op.type in ALIASES:
            stack.extend(op.inputs)
    return found


def outer_loop(op):
    """Outermost while-loop context of an op; None outside of loops."""
    context, found = op._get_control_flow_context(), None
    while context is not None:
        if context.IsWhileContext():
            found = context
        context = context.outer_context
    return found


def conditional_groups(ops, preds_of):
    """Operations that may be dead (inside a branch of a conditional), grouped
    with the merges that collect them: they can only be ordered as a whole."""
    group, merges = {}, {}

    def find(x):
        while group[x] is not x:
            x = group[x]
        return x
    for op in sorted(ops, key=lambda op: op._id):
        if outer_loop(op) is not None or op.type in ("Merge", "RefMerge"):
            continue
        dead = [p for p in preds_of[op] if p in group]
        if dead or op.type in ("Switch", "RefSwitch"):
            group[op] = op
            for p in dead:
                group[find(p)] = op
    # conditions sharing a predicate have separate switches that belong together
    for op in ops:
        if op.type in ("Merge", "RefMerge") and outer_loop(op) is None:
            inside = [t.op for t in op.inputs if t.op in group]
            for p in inside[1:]:
                if find(p) is not find(inside[0]):
                    group[find(p)] = find(inside[0])
            if inside:
                merges[op] = inside[0]
    names = {op: "cond:" + find(op).name for op in group}
    names.update({m: "cond:" + find(p).name for m, p in merges.items()})
    return names


class Cone(object):
    """The operations one run executes, as a partial order of nodes.

    A node is an operation, a whole outermost loop, a whole conditional, or the
    delivery of a fetched value that shares its buffer with a variable."""

    def __init__(self, fetches, fed):
        self.fed = set(fed)
        tensors = [t for t in fetches if isinstance(t, tf.Tensor) and t not in self.fed]
        preds_of, stack = {}, [t.op for t in tensors] + [f for f in fetches if isinstance(f, tf.Operation)]
        while stack:
            op = stack.pop()
            if op in preds_of:
                continue
            preds_of[op] = {t.op for t in op.inputs if t not in self.fed} | set(op.control_inputs)
            stack.extend(preds_of[op])
        self.ops = sorted(preds_of, key=lambda op: op._id)
        conditionals = conditional_groups(self.ops, preds_of)
        self.node_of, self.members = {}, {}
        for op in self.ops:
            loop = outer_loop(op)
            node = conditionals.get(op, op.name) if loop is None else "loop:" + loop.name
            self.node_of[op] = node
            self.members.setdefault(node, []).append(op)
        self.preds = {node: set() for node in self.members}
        for op, preds in preds_of.items():
            for p in preds:
                if self.node_of[p] != self.node_of[op]:
                    self.preds[self.node_of[op]].add(self.node_of[p])
        self.deliveries = {}
        for t in tensors:
            if variables_of(t, self.fed) and "fetch:" + t.name not in self.preds:
                node = "fetch:" + t.name
                self.deliveries[node] = t
                self.members[node] = []
                self.preds[node] = {self.node_of[t.op]}
        self.nodes = list(self.members)
        self._order()
        self._accesses()

    def _order(self):
        self.index = {}
        done, order = set(), []
        pending = {n: len(p) for n, p in self.preds.items()}
        succs = {n: [] for n in self.nodes}
        for n, ps in self.preds.items():
            for p in ps:
                succs[p].append(n)
        self.succs = succs
        ready = [n for n in self.nodes if not pending[n]]
        while ready:
            n = ready.pop()
            order.append(n)
            done.add(n)
            for s in succs[n]:
                pending[s] -= 1
                if not pending[s]:
                    ready.append(s)
        if len(order) != len(self.nodes):
            raise HarnessError("graph of the run has a cycle outside of loops")
        self.ancestors = {}
        for n in order:
            a = set()
            for p in self.preds[n]:
                a.add(p)
                a |= self.ancestors[p]
            self.ancestors[n] = a

    def _accesses(self):
        self.access = {}      # variable -> set of (node, kind)
        for op in self.ops:
            writes = is_write(op)
            for k, t in enumerate(op.inputs):
                for v in variables_of(t, self.fed):
                    if writes and k == 0:
                        kind = "W"
                    elif op.type in NO_READ:
                        continue
                    else:
                        kind = "R"
                    self.access.setdefault(v, set()).add((self.node_of[op], kind))
        for node, t in self.deliveries.items():
            for v in variables_of(t, self.fed):
                self.access.setdefault(v, set()).add((node, "R"))
        self.touching = sorted({n for acc in self.access.values() for n, _ in acc})
        self.writing = sorted({n for acc in self.access.values() for n, k in acc if k == "W"})
        self.races = []
        for v, acc in sorted(self.access.items()):
            for (a, x), (b, y) in itertools.combinations(sorted(acc), 2):
                if a == b or (x == y == "R"):
                    continue
                if a in self.ancestors[b] or b in self.ancestors[a]:
                    continue
                self.races.append((v, a, x, b, y))

    # -- linear extensions -------------------------------------------------
    def linear(self, rank, extra=()):
        """The linear extension that always runs the ready node of smallest
        rank next; `extra` are additional (before, after) pairs. None if cyclic."""
        import heapq
        preds = {n: len(p) for n, p in self.preds.items()}
        succs = {n: list(s) for n, s in self.succs.items()}
        for a, b in extra:
            succs[a].append(b)
            preds[b] += 1
        heap = [(rank(n), i, n) for i, n in enumerate(self.nodes) if not preds[n]]
        number = {n: i for i, n in enumerate(self.nodes)}
        heapq.heapify(heap)
        out = []
        while heap:
            _, _, n = heapq.heappop(heap)
            out.append(n)
            for s in succs[n]:
                preds[s] -= 1
                if not preds[s]:
                    heapq.heappush(heap, (rank(s), number[s], s))
        return out if len(out) == len(self.nodes) else None

    def default(self):
        return self.linear(lambda n: 0)

    def reverse(self):
        number = {n: -i for i, n in enumerate(self.nodes)}
        return self.linear(number.__getitem__)

    def early(self, node):
        first = self.ancestors[node] | {node}
        return self.linear(lambda n: 0 if n in first else 1)

    def late(self, node):
        return self.linear(lambda n: 1 if n == node or node in self.ancestors[n] else 0)

    def extremes(self, everything=False):
        yield "creation order", self.default()
        yield "reverse creation order", self.reverse()
        for node in (self.touching if everything else self.writing):
            yield "early " + node, self.early(node)
            yield "late " + node, self.late(node)

    def orientations(self, cap):
        """Linear extensions for all orientations of the unordered conflicting
        pairs (2^k), or, beyond the cap, all with at most two flipped."""
        k = len(self.races)
        pairs = [(a, b) for _, a, _, b, _ in self.races]
        if 2 ** min(k, 30) <= cap:
            flips = itertools.product((0, 1), repeat=k)
        else:
            flips = itertools.islice((tuple(1 if i in c else 0 for i in range(k)) for r in (0, 1, 2)
                                      for c in itertools.combinations(range(k), r)), cap)
        for flip in flips:
            extra = [(b, a) if f else (a, b) for f, (a, b) in zip(flip, pairs)]
            order = self.linear(lambda n: 0, extra)
            if order is not None:
                yield "orientation " + "".join(map(str, flip)), order


class Clone(object):
    """The graph with the execution order of one run fixed."""

    def __init__(self, graph, cone, order):
        graph_def = graph.as_graph_def()
        nodes = {n.name: n for n in graph_def.node}
        previous = []
        self.delivered = {}
        for name in order:
            if name.startswith("fetch:"):
                t = cone.deliveries[name]
                copy = graph_def.node.add()
                copy.op, copy.name = "DeepCopy", "mc_delivery_%d" % len(self.delivered)
                copy.attr["T"].type = t.dtype.base_dtype.as_datatype_enum
                copy.input.append(t.name)
                copy.input.extend("^" + p for p in previous)
                self.delivered[t.name] = copy.name + ":0"
                previous = [copy.name]
                continue
            ops = cone.members[name]
            if name.startswith("loop:"):
                targets = [op for op in ops if op.type in ("Enter", "RefEnter")]
                sources = [op for op in ops if op.type in ("Exit", "RefExit")]
                if not targets or not sources:
                    raise HarnessError("loop %s without entry or exit" % name)
            elif name.startswith("cond:"):
                targets = [op for op in ops if op.type not in ("Merge", "RefMerge")]
                sources = [op for op in ops if op.type in ("Merge", "RefMerge")]
            else:
                targets = sources = ops
            # variables and constants are no steps; ordering them would make
            # every later use of the variable run the ordered operations
            targets = [op for op in targets if op.type not in PASSIVE]
            sources = [op for op in sources if op.type not in PASSIVE]
            for op in targets:
                have = set(nodes[op.name].input)
                nodes[op.name].input.extend("^" + p for p in previous if "^" + p not in have)
            if sources:
                previous = [op.name for op in sources]
        self.graph = tf.Graph()
        with self.graph.as_default():
            tf.import_graph_def(graph_def, name="")
        self.session = tf.Session(graph=self.graph, config=plain_config())

    def close(self):
        self.session.close()


class State(object):
    """Reads and writes all variables of a graph by name, initialised or not."""

    def __init__(self, session, graph):
        self.session, self.graph = session, graph
        with graph.as_default():
            with tf.name_scope(None), tf.control_dependencies(None):
                self.refs = {}
                for op in graph.get_operations():
                    if op.type in ("VariableV2", "Variable"):
                        t = op.outputs[0]
                        slot = tf.placeholder(t.dtype.base_dtype, t.shape)
                        self.refs[op.name] = (tf.is_variable_initialized(t), t,
                                              slot, tf.assign(t, slot).op)
                    elif op.type == "VarHandleOp":
                        raw = tf.raw_ops
                        dtype = tf.as_dtype(op.get_attr("dtype"))
                        slot = tf.placeholder(dtype, tf.TensorShape(op.get_attr("shape")))
                        self.refs[op.name] = (raw.VarIsInitializedOp(resource=op.outputs[0]),
                                              raw.ReadVariableOp(resource=op.outputs[0], dtype=dtype), slot,
                                              raw.AssignVariableOp(resource=op.outputs[0], value=slot))

    def get(self):
        run = lambda f: tf.Session.run(self.session, f)  # noqa
        names = sorted(self.refs)
        flags = run([self.refs[n][0] for n in names])
        live = [n for n, f in zip(names, flags) if f]
        return dict(zip(live, [np.array(v) for v in run([self.refs[n][1] for n in live])]))

    def put(self, values):
        ops = [self.refs[n][3] for n in values]
        if ops:
            tf.Session.run(self.session, ops, {self.refs[n][2]: v for n, v in values.items()})


def flatten(fetches):
    if isinstance(fetches, (list, tuple)):
        return [t for f in fetches for t in flatten(f)]
    if isinstance(fetches, dict):
        return [t for f in fetches.values() for t in flatten(f)]
    return [fetches]


class Scheduler(object):
    """Stands between a session and the runtime: records the runs that change
    state, or executes one of them in a prescribed order."""

    def __init__(self, session):
        self.session, self.graph = session, session.graph
        self.recording = None     # list of (fetches, fed tensors, state before)
        self.keep_state = False
        self.plan = None          # (which run, cone, order)
        self.position = 0
        self._state = None

    @property
    def state(self):
        if self._state is None:
            self._state = State(self.session, self.graph)
        return self._state

    def record(self, keep_state=False):
        self.recording, self.plan, self.keep_state = [], None, keep_state

    def enforce(self, index, cone, order):
        self.recording, self.plan, self.position = None, (index, cone, order), 0

    def disarm(self):
        self.recording = self.plan = None

    def element(self, x):
        return self.graph.as_graph_element(x, allow_tensor=True, allow_operation=True)

    def run(self, fetches, feed_dict, plain):
        """plain() performs the run normally."""
        if self.recording is None and self.plan is None:
            return plain()
        fs = [self.element(f) for f in flatten(fetches)]
        if not any(self.writes(f) for f in fs):
            return plain()
        fed = {self.element(k): v for k, v in (feed_dict or {}).items()}
        if self.recording is not None:
            before = State(self.session, self.graph).get() if self.keep_state else None
            self.recording.append((fs, list(fed), before))
            return plain()
        index, cone, order = self.plan
        self.position += 1
        if self.position - 1 != index:
            return plain()
        before = self.state.get()
        out, after = self.execute(fetches, fed, cone, order, before)
        self.state.put(after)
        return out

    def execute(self, fetches, fed, cone, order, before):
        """Result of the run and state afterwards when executed in this order."""
        clone = Clone(self.graph, cone, order)
        try:
            state, g = State(clone.session, clone.graph), clone.graph
            state.put({k: v for k, v in before.items() if k in state.refs})

            def mapped(f):
                if isinstance(f, (list, tuple)):
                    return [mapped(x) for x in f]
                if isinstance(f, dict):
                    return {k: mapped(v) for k, v in f.items()}
                e = self.element(f)
                if e.name in clone.delivered:
                    return clone.delivered[e.name]
                return g.get_tensor_by_name(e.name) if isinstance(e, tf.Tensor) else g.get_operation_by_name(e.name)
            out = clone.session.run(mapped(fetches), {g.get_tensor_by_name(k.name): v for k, v in fed.items()})
            return detach(out), state.get()
        finally:
            clone.close()

    def writes(self, f):
        """Does this fetch change state?"""
        seen, stack = set(), [f.op if isinstance(f, tf.Tensor) else f]
        while stack:
            op = stack.pop()
            if op in seen:
                continue
            seen.add(op)
            if is_write(op):
                return True
            stack.extend(t.op for t in op.inputs)
            stack.extend(op.control_inputs)
        return False


def detach(x):
    if isinstance(x, list):
        return [detach(v) for v in x]
    if isinstance(x, dict):
        return {k: detach(v) for k, v in x.items()}
    return np.array(x) if isinstance(x, np.ndarray) else x
