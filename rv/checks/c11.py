from collections import Counter

from rv.core import scenario, run
from rv.lib import *
from rv.graphs import random_hypergraph, parallel
from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
from rei.hypergraph.norm.norm_functions import SumNorm, ProdNorm
import numpy as np

RULE = ("Random hypergraphs on one or several levels (members may contain edges leading back: cycles) with mixed "
        "directions, weights and sizes are traversed with every kind of depth limit, with and without index mapping, "
        "repeatedly; the multiset of reported pairs is compared with the one of an independent model; non-trivial if a "
        "pair was reported.")
ASSUMPTIONS = ["with an index mapping all reached elements are mapped"]
ANCHORS = ["foundations/hypergraph_traversal_strategies.py", "hypergraph/norm/norm_functions.py"]
REQUIRED = ["pairs", "weighted_relations", "cyclic", "limited", "mapped", "edges_reached", "from_edge",
            "parallel_relations"]


def reached_edges(start, limit):
    """Edges contained by elements which are reached over members, breadth first."""
    seen, edges = set(), []
    level = [start]
    d = 0
    while level:
        nxt = []
        for x in level:
            if id(x) in seen:
                continue
            seen.add(id(x))
            es = [x] if isinstance(x, HypergraphEdge) else list(x.sub_edges)
            for e in es:
                if id(e) in {id(y) for y in edges}:
                    continue
                seen.add(id(e))
                edges.append(e)
                if d + 1 < limit:
                    nxt.extend(r.endpoint for r in e.sub_relations)
        level = nxt
        d += 1
    return edges


def key(w):
    return tuple(map(digits, np.atleast_1d(np.asarray(w, dtype=float)).tolist()))


def digits(x):
    return float("%.10g" % float(x))


def expected(edges, ident_node, ident_edge, norm):
    c = Counter()
    for e in edges:
        rels = list(e.sub_relations)
        for r in rels:
            if r.weight is None:
                w = {IN: (1.0, 0.0), OUT: (0.0, 1.0), BI: (1.0, 1.0)}[r.direction]
                nw = key(w)
            else:
                n = norm(r.weight.get_values())
                w = (n if r.direction in (IN, BI) else 0.0, n if r.direction in (OUT, BI) else 0.0)
                nw = key(n)
            for o in rels:
                if o.endpoint is r.endpoint:
                    continue
                if w[0] != 0.0 and o.direction in (OUT, BI):
                    c[(ident_node(r.endpoint), ident_node(o.endpoint), ident_edge(e), digits(w[0]), nw)] += 1
                if w[1] != 0.0 and o.direction in (IN, BI):
                    c[(ident_node(o.endpoint), ident_node(r.endpoint), ident_edge(e), digits(w[1]), nw)] += 1
    return c


def observed(ctx, calls):
    c = Counter()
    for batch in calls:
        for a, b, e, w, nw in batch:
            c[(a, b, e, digits(w), key(nw))] += 1
    ctx.count("pairs", sum(c.values()))
    return c


def compare(ctx, got, want, what):
    ctx.checks += 1
    if got != want:
        extra, missing = got - want, want - got
        ctx.ok(False, f"{what}: {sum(extra.values())} pairs too many {list(extra.items())[:3]}, "
                      f"{sum(missing.values())} missing {list(missing.items())[:3]}")


@scenario("C11", quick=2400, thorough=8000)
def random_graphs(ctx, rng, i):
    g = random_hypergraph(rng, levels=rng.choice([1, 1, 2, 3]), weighted=rng.random() < 0.6)
    if rng.random() < 0.25:
        for _ in range(rng.choice([1, 3])):
            parallel(rng, g)
        ctx.count("parallel_relations")
    ctx.log("graph", g.describe())
    total = 0
    for _ in range(4):
        limit = rng.choice([1, 1, 2, 3, 5, float("inf")])
        start = g.root if rng.random() < 0.6 else rng.choice([g.root] + g.all_nodes + g.all_edges)
        norm, pynorm = rng.choice([(SumNorm(), lambda v: float(sum(v))),
                                   (ProdNorm(), lambda v: float(sum(x * x for x in v)))])
        calls = []
        tr = HypergraphTraversal(lambda x: calls.append(list(x)), true, norm, depth=limit)
        edges = reached_edges(start, limit)
        want = expected(edges, lambda n: n.uuid, lambda e: e.uuid, pynorm)
        for rep in range(rng.choice([1, 2])):
            calls.clear()
            ctx.log("traverse limit", limit, "from", start.qualified_name, type(norm).__name__)
            run(tr.execute(start))
            compare(ctx, observed(ctx, calls), want, "pairs reported" + (" again" if rep else ""))
        ctx.count("edges_reached", len(edges))
        ctx.count("limited", limit != float("inf"))
        ctx.count("from_edge", isinstance(start, HypergraphEdge))
        ctx.count("weighted_relations", sum(1 for e in edges for r in e.sub_relations if r.weight is not None))
        ctx.count("cyclic", g.cyclic and limit > 2)
        ctx.state(sorted(map(repr, want.items())))
        total += sum(want.values())
    ctx.case(ctx.oplog, total > 0)


@scenario("C11", quick=240, thorough=800)
def copies(ctx, rng, i):
    """Graphs which contain decoded copies of parts of themselves: the same identities in different places."""
    g = random_hypergraph(rng, levels=1, weighted=False)
    icon = GraphTensorCbor("sender", DummyClock(), g.root)
    run(icon.update_context(g.root))
    run(icon.update_coo())
    top = HypergraphNode("top", new_uuid(rng), "q", DummyClock(), None)
    bridge = HypergraphEdge("bridge", new_uuid(rng), "q", DummyClock(), top)
    for k in range(rng.choice([1, 2, 3])):
        copy, _ = GraphTensorCbor("receiver", DummyClock(), g.root).create_graph(icon.full_msg())
        place = HypergraphNode(f"place{k}", new_uuid(rng), "q", DummyClock(), top)
        link = HypergraphEdge("link", new_uuid(rng), "q", DummyClock(), place)
        link.unary_connect(copy, None, rng.choice(DIRS))
        for n in list(copy.sub_nodes)[:3]:
            link.unary_connect(n, None, rng.choice(DIRS))
        place.add_element(copy)
        bridge.unary_connect(place, None, rng.choice(DIRS))
    for limit in (2, 3, 4, float("inf")):
        calls = []
        tr = HypergraphTraversal(lambda x: calls.append(list(x)), true, SumNorm(), depth=limit)
        ctx.log("copies", g.describe(), "limit", limit)
        run(tr.execute(top))
        edges = reached_edges(top, limit)
        want = expected(edges, lambda n: n.uuid, lambda e: e.uuid, None)
        compare(ctx, observed(ctx, calls), want, "pairs reported of a graph with copies")
        ctx.count("edges_of_copies", len(edges))
    ctx.case(ctx.oplog, bool(want))


@scenario("C11", quick=720, thorough=2160)
def mapped_graphs(ctx, rng, i):
    """With an index mapping, also of more than 256 nodes."""
    g = random_hypergraph(rng, levels=1, weighted=rng.random() < 0.5,
                          nodes=rng.choice([0, 1, 3, 9, 300]), edges=rng.choice([0, 1, 2, 6, 15]))
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 3])):
            parallel(rng, g)
        ctx.count("parallel_relations")
    hom = IndexHomomorphismGraphTensor(True)
    run(hom.execute(g.root))
    calls = []
    tr = HypergraphTraversal(lambda x: calls.append(list(x)), true, SumNorm(), hom, rng.choice([1, 2, 5]))
    ctx.log("mapped", g.describe())
    run(tr.execute(g.root))
    want = expected(list(g.root.sub_edges), lambda n: hom.node(n.uuid), lambda e: hom.edge(e.uuid),
                    lambda v: float(sum(v)))
    compare(ctx, observed(ctx, calls), want, "pairs reported under an index mapping")
    ctx.count("mapped")
    ctx.case(ctx.oplog, bool(want))


@scenario("C11", quick=10, thorough=60)
def long_ways(ctx, rng, i):
    """Paths of members longer than the recursion limit, closed to a cycle."""
    clock = DummyClock()
    n = rng.choice([50, 1500])
    nodes = [HypergraphNode(f"n{k}", new_uuid(rng), "q", clock, None) for k in range(n)]
    edges = []
    for k, x in enumerate(nodes):
        e = HypergraphEdge("e", new_uuid(rng), "q", clock, x)
        e.unary_connect(x, None, IN)
        e.unary_connect(nodes[(k + 1) % n], None, OUT)
        edges.append(e)
    for limit in (1, 7, float("inf")):
        calls = []
        ctx.log("cycle of", n, "limit", limit)
        tr = HypergraphTraversal(lambda x: calls.append(list(x)), true, SumNorm(), depth=limit)
        run(tr.execute(nodes[0]))
        k = n if limit == float("inf") else min(n, limit)
        want = expected(edges[:k], lambda x: x.uuid, lambda e: e.uuid, None)
        compare(ctx, observed(ctx, calls), want, "pairs reported along a cycle")
    ctx.count("cyclic")
    ctx.case(ctx.oplog)


@scenario("C11", quick=360, thorough=1080)
def failing_and_changing(ctx, rng, i):
    """A failed traversal leaves nothing behind; changes between traversals are followed."""
    g = random_hypergraph(rng, levels=2, weighted=True)
    calls = []
    armed = [0]

    def visitor(x):
        if armed[0] and len(calls) >= armed[0] - 1:
            raise KeyError("visitor")
        calls.append(list(x))
    tr = HypergraphTraversal(visitor, true, SumNorm(), depth=float("inf"))
    for _ in range(5):
        armed[0] = rng.randrange(1, 4)
        calls.clear()
        ctx.log("failing at", armed[0])
        try:
            run(tr.execute(g.root))
        except KeyError:
            ctx.count("failed_traversals")
        armed[0] = 0
        g.change(rng)
        calls.clear()
        ctx.log("after a change", g.describe())
        run(tr.execute(g.root))
        edges = reached_edges(g.root, float("inf"))
        compare(ctx, observed(ctx, calls), expected(edges, lambda n: n.uuid, lambda e: e.uuid,
                                                    lambda v: float(sum(v))), "pairs reported after a change")
    ctx.case(ctx.oplog)
