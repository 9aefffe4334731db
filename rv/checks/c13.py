import asyncio
import gc
import os
import warnings

from rv.core import scenario, run
from rv.history import World, Desync
from rv.lib import *
from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine

RULE = ("Engines with up to six queries (random contexts, selections and descent conditions) over random hierarchies are "
        "executed repeatedly, synchronously and in other event loops, while the graph and the registered queries change; "
        "every result is compared with a reference evaluation, and open event loops and descriptors are counted; "
        "non-trivial if some element was found.")
ASSUMPTIONS = ["the graph does not change during an execution", "conditions are functions of the element"]
ANCHORS = ["query/query_engine.py", "foundations/hierarchical_traversal_strategies.py"]
REQUIRED = ["executions", "elements_found", "repeated", "other_loop", "after_change", "failed_executions", "queries_replaced",
            "single_query", "leak_observations", "earlier_results", "in_steps",
            "engines_inside"]

KINDS = (HypergraphNode, HypergraphRelation, HypergraphEdge, SemanticValueNode)


def selections(rng, els):
    name = rng.choice(els).id_name
    d = rng.randrange(5)
    return rng.choice([
        ("all", lambda x: True), ("none", lambda x: False), ("name " + repr(name), lambda x: x.id_name == name),
        ("nodes", lambda x: isinstance(x, HypergraphNode)), ("edges", lambda x: isinstance(x, HypergraphEdge)),
        ("relations", lambda x: isinstance(x, HypergraphRelation)),
        ("semantic", lambda x: isinstance(x, SemanticValueNode)),
        (f"depth {d}", lambda x: x.depth == d), ("has children", lambda x: len(children(x)) > 0),
        ("truthy depth", lambda x: x.depth), ("truthy children", lambda x: children(x))])


def descents(rng, els):
    name = rng.choice(els).id_name
    d = rng.randrange(4)
    return rng.choice([
        ("all", lambda x: True), ("all", lambda x: True), ("none", lambda x: False),
        ("not " + repr(name), lambda x: x.id_name != name), (f"depth<{d}", lambda x: x.depth < d),
        ("no edges", lambda x: not isinstance(x, HypergraphEdge)),
        ("nodes", lambda x: isinstance(x, HypergraphNode)),
        ("truthy name", lambda x: x.id_name), ("truthy", lambda x: None if x.id_name == name else [x])])


def evaluate(start, sel, desc):
    """The selected ones of the start and of what is reachable by admitted elements, breadth first."""
    admit = lambda x: isinstance(x, KINDS) and desc(x)
    out = [start] if admit(start) else []
    level = [start]
    while level:
        level = [c for p in level for c in children(p) if admit(c)]
        out.extend(level)
    return [x for x in out if sel(x)]


def leaks():
    return len(os.listdir("/proc/self/fd"))


class Fault(Exception):
    pass


@scenario("C13", quick=1920, thorough=8000)
def engines(ctx, rng, i):
    w = World(ctx, rng, clock=rng.choice([TickClock, TickClock, FrozenClock])(), limit=rng.choice([8, 25, 60]))
    if not w.history(rng.choice([0, 15, 40, 70]), 0):
        return
    els = [m.obj for m in w.els]
    engine = HypergraphQueryEngine("engine", b"engine", "engine", w.clock, None)
    registered = {}
    found = 0
    kept = Kept(rng)

    def register(name):
        els = [m.obj for m in w.els]
        start = rng.choice([e for e in els if isinstance(e, (HypergraphNode, HypergraphEdge))])
        (sn, sel), (dn, desc) = selections(rng, els), descents(rng, els)
        q = HierarchicalPrepositionQuery(start, sel, desc)
        ctx.log("register", name, "start", names_path(start), "select", sn, "descend", dn)
        if name in registered:
            ctx.count("queries_replaced")
        engine.add_query(name, q)
        registered[name] = (start, sel, desc, q)

    for _ in range(rng.choice([0, 1, 2, 6])):
        register("q%d" % rng.randrange(6))
    if registered and rng.random() < 0.3:
        n = rng.choice(sorted(registered))
        ctx.log("register again", n)
        engine.add_query("again", registered[n][3])
        registered["again"] = registered[n]
        ctx.count("registered_twice")
    changed = False
    for k in range(rng.choice([1, 3, 6])):
        want = [x for s, sel, desc, _ in registered.values() for x in evaluate(s, sel, desc)]
        x = rng.random()
        fds = leaks()
        if x < 0.15 and len({id(q) for _, _, _, q in registered.values()}) == len(registered):
            # the steps of an execution one by one
            ctx.log("execute in steps")

            async def steps():
                for c in engine.prefilter_queries():
                    for t in await c:
                        await t
                return [await c for c in await engine.task_result_queries_lists()]
            parts = run(steps())
            ctx.eq(len(parts), len(registered), "number of results")
            for (s, sel, desc, _), p in zip(registered.values(), parts):
                ctx.same(p, evaluate(s, sel, desc), "result of one of the queries")
            got = [x for p in parts for x in p]
            ctx.count("in_steps")
        elif x < 0.6:
            ctx.log("execute_all_queries")
            got = engine.execute_all_queries()
        elif x < 0.8:
            ctx.log("execute in another loop")
            got = run(engine.execute())
            ctx.count("other_loop")
        else:
            ctx.log("execute twice in one loop")

            async def twice():
                first = await engine.execute()
                second = await engine.execute()
                return first, second
            first, got = run(twice())
            ctx.same(first, want, "result of the first of two executions")
            ctx.count("other_loop")
        gc.collect() if k == 0 else None
        ctx.ok(leaks() <= fds, "an execution leaves file descriptors open", leaks() - fds)
        ctx.count("leak_observations")
        ctx.same(got, want, "result of the queries in the order of registration")
        kept.add("result of an engine", got)
        kept.check(ctx)
        ctx.count("executions")
        ctx.count("repeated", k > 0)
        ctx.count("after_change", changed)
        ctx.count("elements_found", len(want))
        found += len(want)
        changed = False
        # changes between executions
        for _ in range(rng.randrange(4)):
            y = rng.random()
            if y < 0.5:
                try:
                    w.step(0)
                except Desync:
                    return
                changed = True
            elif y < 0.7:
                register("q%d" % rng.randrange(6))
            elif y < 0.78:
                ctx.log("clear")
                engine.clear()
                registered.clear()
    ctx.state(w.shape())
    ctx.case(ctx.oplog, found > 0)


@scenario("C13", quick=480, thorough=1500)
def single_queries(ctx, rng, i):
    """A query executed on its own, several of them interleaved as tasks."""
    w = World(ctx, rng, limit=30)
    if not w.history(30, 0):
        return
    els = [m.obj for m in w.els]
    specs = []
    for _ in range(rng.choice([1, 3])):
        start = rng.choice([e for e in els if isinstance(e, (HypergraphNode, HypergraphEdge))])
        (sn, sel), (dn, desc) = selections(rng, els), descents(rng, els)
        specs.append((start, sel, desc, HierarchicalPrepositionQuery(start, sel, desc)))
        ctx.log("query", names_path(start), sn, dn)

    async def one(q, nap):
        for _ in range(nap):
            await asyncio.sleep(0)
        for t in await q.prefilter():
            await asyncio.sleep(0)
            await t
        return await q.get_list_results()

    async def all_():
        return await asyncio.gather(*(one(q, rng.randrange(3)) for _, _, _, q in specs))
    for rep in range(2):
        for (start, sel, desc, q), got in zip(specs, run(all_())):
            ctx.same(got, evaluate(start, sel, desc), "result of a query on its own")
            ctx.count("single_query")
        ctx.same(run(specs[0][3].get_list_results()), [], "results are handed out once")
    ctx.case(ctx.oplog)


@scenario("C13", quick=360, thorough=1080)
def failing(ctx, rng, i):
    """A failing condition reaches the caller, leaves no loop open, and the following execution is complete."""
    w = World(ctx, rng, limit=20)
    if not w.history(25, 0):
        return
    armed = [0]

    def fault():
        if armed[0] > 0:
            armed[0] -= 1
            if armed[0] == 0:
                raise Fault()
    where = rng.choice(["select", "descend"])

    def sel(x):
        if where == "select":
            fault()
        return True

    def desc(x):
        if where == "descend":
            fault()
        return True
    start = next(m.obj for m in w.els if m.kind == "node")
    engine = HypergraphQueryEngine("engine", b"engine", "engine", w.clock, None)
    engine.add_query("q", HierarchicalPrepositionQuery(start, sel, desc))
    want = evaluate(start, lambda x: True, lambda x: True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")          # the failed execution leaves coroutines which never ran
        for k in range(4):
            armed[0] = rng.randrange(1, len(want) + 1) if rng.random() < 0.6 else 0
            fds = leaks()
            ctx.log("execute", f"failing in {where} at {armed[0]}" if armed[0] else "")
            if armed[0]:
                try:
                    engine.execute_all_queries()
                    ctx.ok(False, "a failing condition is not reported")
                except Fault:
                    ctx.count("failed_executions")
            else:
                got = engine.execute_all_queries()
                ctx.same(got, want, "result of an execution after a failed one")
            ctx.ok(leaks() <= fds, "a failed execution leaves file descriptors open")
        gc.collect()
    ctx.case(ctx.oplog)


@scenario("C13", quick=200, thorough=1000)
def engine_inside(ctx, rng, i):
    """An engine is a node: it lives in a graph, contains elements, and may be part of what it queries."""
    clock = TickClock()
    root = HypergraphNode("root", new_uuid(rng), "q", clock, None)
    uuid, name, origin = new_uuid(rng), pick_name(rng), rng.choice(["q", "engine/engine"])
    inside = rng.random() < 0.6
    engine = HypergraphQueryEngine(name, uuid, origin, clock, root if inside else None)
    ctx.eq((engine.uuid, engine.id_name, engine.progenitor_qualified_name, engine.clock is clock),
           (uuid, name, origin, True), "identifier, name, origin and clock of an engine")
    ctx.ok(engine.parent is (root if inside else None), "parent of an engine")
    ctx.same(root.sub_nodes, [engine] if inside else [], "nodes of the container of an engine")
    els = [root, engine]
    for k in range(rng.choice([2, 10])):
        els.append(rng.choice([HypergraphNode, HypergraphEdge])(pick_name(rng), new_uuid(rng), "q", clock, rng.choice(els)))
    sel, desc = selections(rng, els), descents(rng, els)
    start = rng.choice([root, engine])
    ctx.log("engine inside" if inside else "engine", name, "query", sel[0], desc[0])
    engine.add_query("q", HierarchicalPrepositionQuery(start, sel[1], desc[1]))
    for _ in range(3):
        want = evaluate(start, sel[1], desc[1])
        ctx.same(engine.execute_all_queries(), want, "result of an engine inside a graph")
        e = rng.choice(els)
        if rng.random() < 0.5:
            els.append(HypergraphNode(pick_name(rng), new_uuid(rng), "q", clock, rng.choice([engine, e])))
        elif engine.parent is None:
            root.add_element(engine)
        else:
            engine.deregister()
        ctx.eq(engine.qualified_name, name if engine.parent is None else "root/" + name, "qualified name of an engine")
    ctx.count("engines_inside")
    ctx.case(ctx.oplog, bool(want))


@scenario("C13", quick=4, thorough=20)
def large(ctx, rng, i):
    clock = DummyClock()
    n = [200, 1500][i % 2]
    deep = (i // 2) % 2 == 0
    root = last = HypergraphNode("r", new_uuid(rng), "q", clock, None)
    for k in range(n):
        x = HypergraphNode(f"n{k % 5}", new_uuid(rng), "q", clock, None)
        last.add_element(x)
        if k % 9 == 0:
            x.add_element(SemanticValueNode(new_uuid(rng), f"n{k % 5}", "q", None, {"k": k}))
            e = HypergraphEdge(f"n{k % 4}", new_uuid(rng), "q", clock, last)
            e.unary_connect(x, None, rng.choice(DIRS), SemanticValueNode(new_uuid(rng), "n3", "q", None, {"k": k}))
        if deep:
            last = x
    engine = HypergraphQueryEngine("engine", b"engine", "engine", clock, None)
    sels = [lambda x: x.id_name == "n3", lambda x: isinstance(x, (HypergraphEdge, HypergraphRelation)),
            lambda x: isinstance(x, SemanticValueNode)]
    for k, sel in enumerate(sels):
        engine.add_query(f"q{k}", HierarchicalPrepositionQuery(root, sel, lambda x: True))
    ctx.log("large", n, "deep" if deep else "wide")
    want = [x for sel in sels for x in evaluate(root, sel, lambda x: True)]
    ctx.eq(len(want) > n / 5, True, "the queries of a large hierarchy have results")
    for _ in range(2):
        ctx.same(engine.execute_all_queries(), want, "result over a large hierarchy")
    ctx.maximum("elements", n)
    ctx.case(ctx.oplog)
