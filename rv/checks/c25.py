import asyncio
import math
import random
import sys
import threading
import time
import traceback

import numpy as np
from lxml import etree

from rv import cogni
from rv import core
from rv.core import scenario, run, Violation, FRAMEWORK, NoBlockSelector
from rv.lib import *
from rv.graphs import random_hypergraph
from rv.contexts import Context
from rv import robots

LANGUAGE = cogni.install()

from rei.foundations.hierarchical_traversal_strategies import (
    BreadthFirstHierarchicalTraversal, DepthFirstHierarchicalTraversal, DepthLimitedDepthVisitChildren,
    DepthLimitedBreadthVisitChildren)
from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.hypergraph.norm.norm_functions import SumNorm
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
from rei.hypergraph.factorization_operations import (Factorization2Operation, Factorization2SubsetOperation,
                                                     RelationFactorization2SubsetOperation)
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer
from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine
from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon
from rei.format.mapping.cognilang_file_icon import CognilangParserFileIcon
from rv.checks.c22 import elements

RULE = ("Jobs (building, changing, traversing, mapping, transforming, exporting, encoding and decoding, factorizing, querying, "
        "interpreting and converting graphs of their own, or reading a common one) are executed alone, and then together: "
        "as asynchronous tasks with pauses injected into the queues, as threads switched at random lines of the "
        "repository by a deterministic scheduler, and as free threads with tiny switch intervals; the transcripts must "
        "be the same as alone; non-trivial if the execution switched between jobs at least ten times.")
ASSUMPTIONS = ["no object other than the graph which is only read is used by two jobs",
               "searches by qualified name share a queue (known finding of C12): no part of the jobs"]
ANCHORS = ["foundations/hierarchical_traversal_strategies.py", "foundations/hypergraph_traversal_strategies.py",
           "tensor/tensor_representation.py", "hypergraph/encoding/graph_tensor_icon.py",
           "hypergraph/encoding/graph_tensor_icon_cbor.py", "hypergraph/factorization_operations.py",
           "query/query_engine.py", "factories/foundation_factory.py", "hypergraph/homomorphism_functions.py"]
REQUIRED = ["task_switches", "line_switches", "free_switches", "steps", "shared_graphs", "separate_graphs", "steps_traverse",
            "steps_hyper", "steps_tensor", "steps_coo", "steps_cbor", "steps_factorize", "steps_query", "steps_mapping",
            "steps_robot", "steps_change"]


# --- what a job does -------------------------------------------------------------------------------------------
def show(x):
    """Content of a result, without identities of this process."""
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [show(y) for y in x]
    if hasattr(x, "qualified_name"):
        return (type(x).__name__, x.qualified_name, x.uuid.hex() if isinstance(x.uuid, bytes) else str(x.uuid))
    return x


def dump(root):
    out, stack = [], [root]
    while stack:
        x = stack.pop()
        sub = children(x)
        out.append((show(x), x.depth if hasattr(x, "depth") else None, len(sub)))
        if isinstance(x, HypergraphRelation):
            w = x.weight
            out.append((show(x.endpoint), x.direction.name, w.get_values() if isinstance(w, ValueNode) else w))
        stack += sub
    return out


class Work:
    """A graph and the steps which use it. A step is an async function without arguments, its result is compared."""

    def __init__(self, seed, g=None, read_only=False):
        self.rng = random.Random(seed)
        self.read_only = read_only
        self.g = g
        self.kept = {}

    def build(self):
        if self.g is None:
            self.g = random_hypergraph(self.rng, levels=1, weighted=True, clock=TickClock(),
                                       nodes=self.rng.choice([2, 4, 7]), edges=self.rng.choice([1, 3, 6]))
            for v in range(self.rng.randrange(3)):
                self.g.factory.create_value(self.g.root, f"v{v}", [v, 1.5])
        return self.g

    def one(self, key, make):
        """Objects used again, or new ones."""
        if key not in self.kept or self.rng.random() < 0.5:
            self.kept[key] = make()
        return self.kept[key]

    async def traverse(self, together):
        g, r = self.build(), self.rng
        got = []
        cls = r.choice([BreadthFirstHierarchicalTraversal, DepthFirstHierarchicalTraversal,
                        DepthLimitedDepthVisitChildren, DepthLimitedBreadthVisitChildren])
        limit = (r.choice([0, 1, 2, 5]),) if cls.__name__.startswith("DepthLimited") else ()
        tr = cls(got.append, r.choice([true, lambda x: not isinstance(x, HypergraphPort)]), *limit)
        start = r.choice([g.root, g.root, *g.all_nodes[:1]])
        await tr.execute(start)
        return show(got)

    async def hyper(self, together):
        g = self.build()
        got = []
        # the traversal compares identities by object
        tr = HypergraphTraversal(lambda x: got.append([(a.hex(), b.hex(), e.hex(), float(w)) for a, b, e, w, _ in x]),
                                 true, SumNorm(), None, self.rng.choice([1, 2, math.inf]))
        await tr.execute(g.root)
        return got

    async def mapping(self, together):
        g = self.build()
        hom = self.one("mapping", lambda: IndexHomomorphismGraphTensor(self.rng.random() < 0.5, self.rng.choice([1, 2])))
        await hom.execute(g.root)
        return ([hom.dim(i).hex() for i in range(hom.cnt_node)], [hom.depth(i).hex() for i in range(hom.cnt_edges)])

    async def tensor(self, together):
        g = self.build()
        tr = self.one("tensor", NumpyHypergraphTensorTransformer)
        await tr.execute(g.root)
        rep = tr.tensor_representation
        out = [rep.W, rep.Io, rep.Ii]
        if len(g.all_edges) > 1 and len(list(g.root.sub_edges)) > 1:
            out += [rep.deg, rep.L, rep.Lp, rep.entropy()]
        return repr(show(out))

    async def coo(self, together):
        g = self.build()
        tr = self.one("coo", lambda: CoordinateObjectTransformer(g.root))
        await tr.reset(g.root)
        await tr.execute()
        return show([tr.node_index_list(), tr.edge_index_list(), tr.msg_tensor_value_updates(),
                     tr.msg_relation_index_list()])

    async def cbor(self, together):
        g = self.build()
        codec = self.one("cbor", lambda: GraphTensorCbor("codec", DummyClock(), g.root))
        await codec.update_context(g.root)
        await codec.update_coo()
        msg = codec.full_msg()
        root, hom = self.one("receiver", lambda: GraphTensorCbor("receiver", DummyClock(), None)).create_graph(msg)
        return [msg.hex(), dump(root), [hom.dim(i).hex() for i in range(hom.cnt_node)]]

    async def factorize(self, together):
        g, r = self.build(), self.rng
        match r.randrange(3):
            case 0:
                got = await self.one("f2", Factorization2Operation).execute(g.root)
                return show([(a, list(b)) for a, b in got])
            case 1:
                start = [x for x in [*g.all_nodes, *g.all_edges] if r.random() < 0.8]
                return show(await self.one("f2s", lambda: Factorization2SubsetOperation(True)).execute(start))
            case 2:
                start = [x for e in g.all_edges for x in e.sub_relations if r.random() < 0.8]
                return show(await self.one("r2s", RelationFactorization2SubsetOperation).execute(start))

    async def query(self, together):
        g, r = self.build(), self.rng

        def make():
            engine = HypergraphQueryEngine("engine", b"00", "engine/engine", DummyClock(), None)
            for i, cls in enumerate(r.sample([HypergraphNode, HypergraphEdge, HypergraphRelation], r.randrange(1, 4))):
                engine.add_query(f"q{i}", HierarchicalPrepositionQuery(g.root, lambda x, cls=cls: isinstance(x, cls), true))
            return engine
        engine = self.one("engine", make)
        if together:
            return show(await engine.execute())
        return show(await engine.execute())

    async def change(self, together):
        g = self.build()
        for _ in range(self.rng.randrange(1, 4)):
            g.change(self.rng)
        return dump(g.root)

    async def robot(self, together):
        r = self.rng
        gen = robots.Generator(r, text=r.random() < 0.5, size=3, nesting=2, keywords=LANGUAGE.lexer.literals)
        d = gen.description()
        if gen.text:
            tree = LANGUAGE_COPY().parse(robots.to_text(d, r))
            icon = CognilangParserFileIcon("cogni_lang_file", TickClock())
            icon.visit(tree)
            root = icon.root_entity
        else:
            root = robots.Builder(TickClock(), r).build(d)
        engine = HypergraphQueryEngine("engine", b"00", "engine/engine", DummyClock(), None)

        def depth(n):
            return lambda x: x.depth - root.depth <= n if isinstance(x, HypergraphNode) else True
        for name, cls, cond in (("l", robots.KinematicLink, depth(2)), ("j", robots.KinematicJoint, depth(1)),
                                ("c", robots.CognitiveEntity, true)):
            engine.add_query(name, HierarchicalPrepositionQuery(root, lambda x, cls=cls: isinstance(x, cls), cond))
        sdf = CognilangSdfIcon(DummyClock())
        await sdf.encode(await engine.execute())
        return [dump(root), etree.tostring(sdf.root_xml).decode()]


class LANGUAGE_COPY:
    """The stand-in parser is not part of what is tested: each parse has a state of its own."""

    def parse(self, text):
        p = cogni.Language.__new__(cogni.Language)
        p.__dict__.update(LANGUAGE.__dict__)
        return p.parse(text)


READING = ["traverse", "hyper", "mapping", "tensor", "coo", "cbor", "factorize", "query"]
WORKING = READING + ["change", "change", "robot"]


class Job:
    def __init__(self, seed, plan, g=None):
        self.seed, self.plan, self.g = seed, plan, g

    def steps(self, together=True):
        w = Work(self.seed, self.g, self.g is not None)
        for name in self.plan:
            yield name, (lambda name=name: getattr(w, name)(together))
        if self.g is None:
            async def final():
                return dump(w.build().root)
            yield "dump", final


def alone(job):
    return [(name, run(step())) for name, step in job.steps(False)]


def plans(ctx, rng, n, options, longest):
    # the same family for all jobs, or any
    if rng.random() < 0.6:
        few = rng.sample(options, min(len(options), rng.choice([1, 2])))
    else:
        few = options
    out = []
    for _ in range(n):
        out.append([rng.choice(few) for _ in range(rng.randrange(2, longest + 1))])
        for name in out[-1]:
            ctx.count("steps_" + name)
    return out


def jobs_of(ctx, rng, longest=6):
    shared = rng.random() < 0.35
    g = None
    if shared:
        g = random_hypergraph(rng, levels=1, weighted=True, clock=TickClock(), nodes=rng.choice([3, 6]),
                              edges=rng.choice([2, 5]))
    ctx.count("shared_graphs" if shared else "separate_graphs")
    n = rng.choice([2, 3, 4])
    same = rng.random() < 0.2          # the same work several times: identities are the same, too
    seed = rng.randrange(1 << 30)
    jobs = [Job(seed if same else seed + k, plan, g)
            for k, plan in enumerate(plans(ctx, rng, n, READING if shared else WORKING, longest))]
    for j in jobs:
        ctx.log("job", j.seed, *j.plan, "shared" if shared else "")
    return jobs, g


def compare(ctx, jobs, results, expected, how):
    for k, (got, want) in enumerate(zip(results, expected)):
        if isinstance(got, BaseException):
            raise Violation(f"{how}: job {k} fails, alone it does not: {got!r} " + "".join(
                traceback.format_exception(got))[-1500:])
        ctx.eq([name for name, _ in got], [name for name, _ in want], f"{how}: steps of job {k}")
        for n, ((name, a), (_, b)) in enumerate(zip(got, want)):
            ctx.ok(a == b, f"{how}: step {n} ({name}) of job {k} has another result than alone", repr(a), repr(b))
            ctx.count("steps")


def judged(ctx, rng, execute, how, counter):
    jobs, g = jobs_of(ctx, rng)
    expected = [alone(j) for j in jobs]
    before = dump(g.root) if g is not None else None
    results, trace = execute(jobs)
    compare(ctx, jobs, results, expected, how)
    if g is not None:
        ctx.eq(dump(g.root), before, f"{how}: reading changed the graph")
    switches = sum(a != b for a, b in zip(trace, trace[1:]))
    ctx.count(counter, switches)
    ctx.maximum("switches_of_an_execution", switches)
    ctx.case(trace, switches >= 10)
    ctx.state(trace)
    # and alone again afterwards
    if rng.random() < 0.3:
        compare(ctx, jobs, [alone(j) for j in jobs], expected, how + ", alone afterwards")


# --- asynchronous tasks ----------------------------------------------------------------------------------------
@scenario("C25", quick=500, thorough=5000)
def tasks(ctx, rng, i):
    density = rng.choice([0.05, 0.3, 0.8])
    pauses = random.Random(rng.random())

    def execute(jobs):
        trace = []
        get, put = asyncio.Queue.get, asyncio.Queue.put

        async def pause():
            while pauses.random() < density:
                await asyncio.sleep(0)
                trace.append(current())

        def current():
            return names.get(asyncio.current_task(), -1)

        async def slow_get(self):
            await pause()
            return await get(self)

        async def slow_put(self, item):
            await put(self, item)
            await pause()

        names = {}

        async def one(job):
            out = []
            for name, step in job.steps():
                out.append((name, await step()))
                trace.append(current())
                await asyncio.sleep(0)
            return out

        async def everything():
            ts = [asyncio.ensure_future(one(j)) for j in jobs]
            for k, t in enumerate(ts):
                names[t] = k
            return await asyncio.gather(*ts, return_exceptions=True)

        asyncio.Queue.get, asyncio.Queue.put = slow_get, slow_put
        try:
            return run(everything()), trace
        finally:
            asyncio.Queue.get, asyncio.Queue.put = get, put
    judged(ctx, rng, execute, "interleaved tasks", "task_switches")


# --- threads ---------------------------------------------------------------------------------------------------
PREFIX = FRAMEWORK + "/rei/"


class Baton:
    """One thread at a time; at lines of the repository it may be the turn of another one."""

    def __init__(self, n, rng, density):
        self.rng, self.density = rng, density
        self.turn = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.trace = []
        self.progress = 0
        self.done = threading.Event()
        if not n:
            self.done.set()

    def start(self):
        self.turn[self.rng.choice(sorted(self.alive))].release()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.progress += 1
                if self.rng.random() < self.density:
                    other = self.rng.choice(sorted(self.alive))
                    self.trace.append(other)
                    if other != me:
                        self.turn[other].release()
                        self.turn[me].acquire()
            return local

        def top(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(PREFIX) else None
        return top

    def finish(self, me):
        self.alive.discard(me)
        if self.alive:
            self.turn[self.rng.choice(sorted(self.alive))].release()
        else:
            self.done.set()


def wait_for(threads, done, progress):
    """Until all jobs are done. A job which waits for ever in a queue of its own is stuck."""
    last, since = None, time.monotonic()
    while not done():
        time.sleep(0.001 if time.monotonic() - since < 0.5 else 0.05)
        p = progress()
        if p != last:
            last, since = p, time.monotonic()
        elif time.monotonic() - since > 15:
            for t in threads:
                f = sys._current_frames().get(t.ident)
                where = traceback.format_stack(f)[-6:] if f is not None else []
                if any("queue.py" in x and "in get" in x for x in where):
                    raise Violation("a job waits for ever: " + "".join(where)[-1500:])
            since = time.monotonic()


def in_threads(jobs, before, after, progress, done=None, begin=None):
    results = [None] * len(jobs)
    finished = []

    def body(k):
        try:
            before(k)
            out = []
            for name, step in jobs[k].steps():
                out.append((name, run(step())))
                progress[k] += 1
            results[k] = out
        except BaseException as e:
            results[k] = e
        finally:
            sys.settrace(None)
            after(k)
            finished.append(k)
    NoBlockSelector.each_thread = True
    try:
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in ts:
            t.start()
        if begin:
            begin()
        wait_for(ts, lambda: len(finished) == len(jobs), lambda: (list(progress), done() if done else 0))
        for t in ts:
            t.join(10)
    finally:
        NoBlockSelector.each_thread = False
    return results


@scenario("C25", quick=320, thorough=4000)
def lines(ctx, rng, i):
    density = rng.choice([0.01, 0.05, 0.3])
    order = random.Random(rng.random())

    def execute(jobs):
        baton = Baton(len(jobs), order, density)

        def before(k):
            baton.turn[k].acquire()
            sys.settrace(baton.tracer(k))
        results = in_threads(jobs, before, baton.finish, [0] * len(jobs), lambda: baton.progress, baton.start)
        return results, baton.trace
    judged(ctx, rng, execute, "threads switched at lines", "line_switches")


@scenario("C25", quick=160, thorough=2000)
def free_threads(ctx, rng, i):
    def execute(jobs):
        barrier = threading.Barrier(len(jobs))
        trace = []

        def before(k):
            barrier.wait(60)

            def seen(frame, event, arg):
                trace.append(k)
                return None
            sys.settrace(lambda frame, event, arg: seen(frame, event, arg)
                         if frame.f_code.co_filename.startswith(PREFIX) else None)
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            return in_threads(jobs, before, lambda k: None, [0] * len(jobs)), trace
        finally:
            sys.setswitchinterval(interval)
    judged(ctx, rng, execute, "free threads", "free_switches")
