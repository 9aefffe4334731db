import asyncio

from rv.core import scenario, run
from rv.lib import *
from rei.foundations.hierarchical_traversal_strategies import (
    BreadthFirstHierarchicalTraversal, DepthFirstHierarchicalTraversal, DepthLimitedBreadthVisitChildren,
    DepthLimitedDepthVisitChildren)

RULE = ("Random hierarchies (up to 3000 elements, wide, bushy or up to 1500 levels deep) of all kinds are traversed from "
        "random starts by every strategy with random filters, depth limits and excluded roots, repeatedly, interleaved "
        "and after visitors failed; each recorded visit is judged; non-trivial if two or more elements were visited.")
ASSUMPTIONS = ["the hierarchy does not change during a traversal", "the depth limit is not negative"]
ANCHORS = ["foundations/hierarchical_traversal_strategies.py", "foundations/graph_monad.py"]
REQUIRED = ["visits", "bfs", "dfs", "bfs_limited", "dfs_limited", "failed_traversals", "interleaved", "repeated",
            "reused_object", "many_objects", "earlier_results"]


def tree(rng, shape=None, size=None, clock=None, share=None):
    clock = clock or DummyClock()
    shape = shape or rng.choice(["bushy", "bushy", "wide", "deep", "single", "mixed"])
    size = size or rng.choice([2, 8, 30, 200])
    if shape == "wide" and rng.random() < 0.1:
        size = max(size, rng.choice([300, 1100, 2500]))
    root = HypergraphNode("root", new_uuid(rng), "q", clock, None)
    els = [root]
    if shape == "single":
        return els
    if shape == "deep":
        size = max(size, rng.choice([30, 1200, 1500]))
    last = root
    share = rng.choice([0, 0, 0.1, 0.5]) if share is None else share      # identifiers are unique among siblings only

    def uid():
        return rng.choice(els).uuid if rng.random() < share else new_uuid(rng)
    for k in range(size):
        p = {"bushy": lambda: rng.choice(els), "wide": lambda: root, "deep": lambda: last,
             "mixed": lambda: rng.choice(els[-5:])}[shape]()
        match rng.randrange(8) if shape != "deep" else 0:
            case 0 | 1 | 2 | 3:
                e = HypergraphNode(rng.choice("abcde"), uid(), "q", clock, None)
            case 4 | 5:
                e = HypergraphEdge(rng.choice("abcde"), uid(), "q", clock, None)
            case 6:
                e = ValueNode(uid(), rng.choice("abcde"), "q", [1.0])
            case 7:
                e = SemanticValueNode(uid(), rng.choice("abcde"), "q", None, {"a": 1})
        if shape == "deep":            # bottom-up: building a chain top-down is quadratic in its names
            els.append(e)
            last = e
            continue
        if share and any(x.uuid == e.uuid for x in children(p)):
            continue
        p.add_element(e)
        els.append(e)
    if shape == "deep":
        for a, b in list(zip(els, els[1:]))[::-1][:1]:
            a.add_element(b)
        for a, b in zip(els[:-2], els[1:-1]):
            a.add_element(b)
    return els


def some_connections(rng, els):
    # edges and endpoints of different identifiers
    edges = list({e.uuid: e for e in els if isinstance(e, HypergraphEdge)}.values())
    nodes = list({e.uuid: e for e in els if isinstance(e, HypergraphNode)}.values())
    for e in edges[:40]:
        for n in rng.sample(nodes, min(len(nodes), rng.randrange(4))):
            e.unary_connect(n, None, rng.choice(DIRS))


def make_filter(rng):
    return rng.choice([
        ("all", lambda x: True), ("all", lambda x: True), ("none", lambda x: False),
        ("nodes", lambda x: isinstance(x, HypergraphNode)),
        ("elements", lambda x: isinstance(x, HypergraphElement)),
        ("name", lambda x: x.id_name != "c"), ("edges", lambda x: isinstance(x, HypergraphEdge)),
        ("depth", lambda x: x.depth % 3 != 2),
        ("truthy depth", lambda x: (x.depth + 1) % 4), ("truthy name", lambda x: x.id_name and [x]),
        ("truthy", lambda x: None if x.id_name == "c" else x)])


def expected_levels(start, flt, limit, ignore_root):
    """Levels of the elements to visit, each in the order of insertion."""
    levels = [[start] if flt(start) and not ignore_root else []]
    cur = [start]
    d = 0
    while cur and (limit is None or d < limit):
        cur = [c for p in cur for c in children(p) if flt(c)]
        levels.append(cur)
        d += 1
    return levels


STRATEGIES = {"bfs": BreadthFirstHierarchicalTraversal, "dfs": DepthFirstHierarchicalTraversal,
              "bfs_limited": DepthLimitedBreadthVisitChildren, "dfs_limited": DepthLimitedDepthVisitChildren}


def make(strategy, visitor, flt, limit, ignore_root):
    if strategy.endswith("limited"):
        return STRATEGIES[strategy](visitor, flt, limit, ignore_root)
    return STRATEGIES[strategy](visitor, flt, ignore_root)


def judge(ctx, strategy, start, flt, limit, ignore_root, visits, results, what=""):
    """Exactly once, nothing else, in the order of the strategy; the results in the order of the visits."""
    limit = limit if strategy.endswith("limited") else None
    levels = expected_levels(start, flt, limit, ignore_root)
    want = [e for l in levels for e in l]
    ctx.count("visits", len(visits))
    ctx.count(strategy)
    ids = [id(v) for v in visits]
    ctx.eq(len(set(ids)), len(ids), f"{strategy}{what}: an element is visited twice")
    wid = {id(e) for e in want}
    ctx.ok(set(ids) <= wid, f"{strategy}{what}: an element is visited which is not selected",
           [v for v in visits if id(v) not in wid][:3])
    ctx.eq(len(ids), len(wid), f"{strategy}{what}: number of visited elements")
    if strategy.startswith("bfs"):
        ctx.same(visits, want, f"{strategy}{what}: order of visits")
    else:
        # each element's selected subtree is visited right after it, before anything else
        open_ = []
        pos = {i: k for k, i in enumerate(ids)}
        size = {}
        for e in reversed(want):
            size[id(e)] = size.get(id(e), 0) + 1
            p = e.parent
            if e is not start and p is not None and id(p) in wid:
                size[id(p)] = size.get(id(p), 0) + size[id(e)]
        del open_
        for e in want:
            if e is start:
                ctx.eq(pos[id(e)], 0, f"{strategy}{what}: position of the start")
                continue
            p = e.parent
            if id(p) in pos:
                ctx.ok(pos[id(p)] < pos[id(e)] and
                       pos[id(e)] + size[id(e)] <= pos[id(p)] + size[id(p)],
                       f"{strategy}{what}: a waiting relative is visited before a subtree is finished", e)
    ctx.eq(results, [("visited", id(v)) for v in visits], f"{strategy}{what}: results handed back")
    ctx.state([v.depth for v in visits[:500]])


# what visitors may answer
RESULTS = {"visited": lambda x: ("visited", id(x)), "nothing": lambda x: None, "sometimes": lambda x: x.depth % 2 or None,
           "false": lambda x: False, "list": lambda x: [], "same": lambda x: "same", "name": lambda x: x.id_name}


@scenario("C10", quick=1200, thorough=6000)
def random_trees(ctx, rng, i):
    els = tree(rng)
    some_connections(rng, els)
    biggest = 0
    made = []
    kept = Kept(rng)
    for _ in range(rng.randrange(2, 9)):
        strategy = rng.choice(list(STRATEGIES))
        fname, flt = make_filter(rng)
        limit = rng.choice([0, 1, 2, 3, 7, 1000, float("inf")])
        ignore_root = rng.random() < 0.4
        start = els[0] if rng.random() < 0.5 else rng.choice(els)
        visits = []
        ctx.log(strategy, fname, limit, "ignore root" if ignore_root else "", "from", start.depth, "of", len(els))

        mode = rng.choice(list(RESULTS))

        def visitor(x, visits=visits, result=RESULTS[mode]):
            visits.append(x)
            return result(x)
        tr = make(strategy, visitor, flt, limit, ignore_root)
        got = run(tr.execute(start))
        ctx.eq(got, [RESULTS[mode](v) for v in visits], f"{strategy}: results ({mode}) handed back")
        kept.add(f"{strategy}: results", got)
        ctx.count("results_" + mode)
        judge(ctx, strategy, start, flt, limit, ignore_root, visits, [("visited", id(v)) for v in visits])
        biggest = max(biggest, len(visits))
        made.append((tr, visits, strategy, start, flt, limit, ignore_root))
    ctx.count("many_objects")
    # the same objects again, from other starts
    for tr, visits, strategy, _, flt, limit, ignore_root in rng.sample(made, min(3, len(made))):
        start = rng.choice(els)
        visits.clear()
        ctx.log("again", strategy, "from", start.depth)
        kept.add(f"{strategy}: results", run(tr.execute(start)))
        judge(ctx, strategy, start, flt, limit, ignore_root, visits, [("visited", id(v)) for v in visits], " again")
        ctx.count("reused_object")
        ctx.count("repeated")
    kept.check(ctx)
    ctx.maximum("elements", len(els))
    ctx.maximum("levels", max(e.depth for e in els))
    ctx.case(ctx.oplog, biggest >= 2)


class Failure(Exception):
    pass


@scenario("C10", quick=600, thorough=2500)
def failing_visitors(ctx, rng, i):
    """A failing visitor ends its traversal with its error and leaves nothing for any later traversal."""
    els = tree(rng, rng.choice(["bushy", "wide", "mixed"]), rng.choice([5, 40, 120]))
    others = tree(rng, "bushy", 20)
    for _ in range(4):
        strategy = rng.choice(list(STRATEGIES))
        fail_at = rng.randrange(0, len(els))
        visits, armed = [], [True]

        def visitor(x):
            if armed[0] and len(visits) == fail_at:
                raise Failure
            visits.append(x)
            return ("visited", id(x))

        tr = make(strategy, visitor, true, 1000, False)
        ctx.log(strategy, "fails at", fail_at)
        try:
            run(tr.execute(els[0]))
            ctx.ok(False, "the error of the visitor is reported")
        except Failure:
            ctx.count("failed_traversals")
        ctx.eq(len(visits), fail_at, "visits before the failure")
        armed[0] = False
        for what, start in (("same object after a failure", els[0]), ("same object elsewhere", others[0])):
            visits.clear()
            judge(ctx, strategy, start, true, 1000, False, visits, run(tr.execute(start)), " " + what)
        for strategy in STRATEGIES:
            v2 = []
            tr2 = make(strategy, lambda x: v2.append(x) or ("visited", id(x)), true, 1000, False)
            judge(ctx, strategy, others[0], true, 1000, False, v2, run(tr2.execute(others[0])),
                  " other object after a failure")
    ctx.case(ctx.oplog)


@scenario("C10", quick=600, thorough=2500)
def interleaved(ctx, rng, i):
    """Several traversals (also of one object) progress alternately, step by step in random order; some are given up."""
    els = tree(rng, rng.choice(["bushy", "mixed"]), rng.choice([6, 25, 60]))
    jobs = []
    for k in range(rng.randrange(2, 6)):
        strategy = rng.choice(list(STRATEGIES))
        fname, flt = make_filter(rng)
        limit, ignore = rng.choice([1, 2, 100]), rng.random() < 0.3
        visits = []
        tr = make(strategy, lambda x, v=visits: v.append(x) or ("visited", id(x)), flt, limit, ignore)
        jobs.append((strategy, flt, limit, ignore, rng.choice(els), visits, tr))
        ctx.log(strategy, fname, limit, ignore)

    async def all_together():
        return await asyncio.gather(*(tr.execute(start) for *_, start, _, tr in jobs))
    for (strategy, flt, limit, ignore, start, visits, tr), res in zip(jobs, run(all_together())):
        judge(ctx, strategy, start, flt, limit, ignore, visits, res, " gathered")
        visits.clear()
    # by hand: the traversals are started, some are given up unfinished, the others are continued
    order = list(range(len(jobs)))
    rng.shuffle(order)
    coros = {k: jobs[k][6].execute(jobs[k][4]) for k in order}
    results = {}
    given_up = set(k for k in order if rng.random() < 0.25)
    while coros:
        k = rng.choice(list(coros))
        if k in given_up:
            coros.pop(k).close()
            continue
        try:
            coros[k].send(None)
        except StopIteration as stop:
            results[k] = stop.value
            coros.pop(k)
        ctx.count("interleaved")
    for k, res in results.items():
        strategy, flt, limit, ignore, start, visits, tr = jobs[k]
        judge(ctx, strategy, start, flt, limit, ignore, visits, res, " interleaved")
    # a traversal within a visitor of another traversal
    inner_ok = []

    def outer(x):
        v = []
        t = BreadthFirstHierarchicalTraversal(lambda y: v.append(y) or ("visited", id(y)), true)
        co = t.execute(x)
        try:
            while True:
                co.send(None)
        except StopIteration as stop:
            inner_ok.append((x, v, stop.value))
        return ("visited", id(x))
    seen = []
    t = DepthFirstHierarchicalTraversal(lambda x: (seen.append(x), outer(x))[1], true)
    judge(ctx, "dfs", els[0], true, None, False, seen, run(t.execute(els[0])), " around others")
    for x, v, res in inner_ok:
        judge(ctx, "bfs", x, true, None, False, v, res, " within another")
    ctx.case(ctx.oplog)


@scenario("C10", quick=80, thorough=400)
def after_changes(ctx, rng, i):
    """One traversal object over a hierarchy that changes between executions."""
    clock = DummyClock()
    els = tree(rng, "bushy", 25)
    visits = []
    trs = {s: make(s, lambda x: visits.append(x) or ("visited", id(x)), true, 4, False) for s in STRATEGIES}
    for _ in range(8):
        movable = [e for e in els[1:] if isinstance(e, HypergraphElement)]
        e = rng.choice(movable)
        if e.parent is not None and rng.random() < 0.5:
            e.deregister()
        else:
            p = rng.choice(els)
            try:
                p.add_element(e)
            except Exception:
                pass
        ctx.log("change", e.id_name)
        for s, tr in trs.items():
            visits.clear()
            judge(ctx, s, els[0], true, 4, False, visits, run(tr.execute(els[0])), " after a change")
            ctx.count("repeated")
    ctx.case(ctx.oplog)
