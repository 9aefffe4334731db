import math

import numpy as np

from rv.core import scenario, run
from rv.contexts import Context
from rv import oracles
from rv.graphs import cells, marginals, same_tensor
from rv.lib import *
from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer

RULE = ("Random contexts are exported by coordinates; the entries are written into zero tensors under the exported index "
        "mapping and compared with the dense transformation and with an independent model; repeated, after changes and "
        "for other contexts by the same exporter; non-trivial if there was an entry.")
ASSUMPTIONS = ["the members of the edges of the context are the context or nodes within it, and contain edges of their "
               "own only if the depth of the representation is one",
               "the mapping is renewed after the structure changed"]
ANCHORS = ["hypergraph/encoding/graph_tensor_icon.py", "hypergraph/homomorphism_functions.py",
           "foundations/hypergraph_traversal_strategies.py"]
REQUIRED = ["entries", "dense_compared", "repeated", "changed", "other_context", "values_changed", "context_is_member",
            "deeper_members", "inner_edges", "earlier_results"]


def replay(ctx, tr, context):
    """The exported lists, written into zero tensors over the exported indices."""
    nodes = tr.node_index_list()
    edges = tr.edge_index_list()
    inside = list(context.sub_nodes)
    ctx.eq([n[0] for n in nodes], [context.uuid] + [n.uuid for n in inside], "exported nodes")
    ctx.eq([n[1] for n in nodes], [context.id_name] + [n.id_name for n in inside], "names of exported nodes")
    ctx.eq([n[3] for n in nodes], [0] + [context.uuid] * len(inside), "containers of exported nodes")
    ctx.eq([e[0] for e in edges], [e.uuid for e in context.sub_edges], "exported edges")
    ctx.eq([e[1] for e in edges], [e.id_name for e in context.sub_edges], "names of exported edges")
    ctx.eq([e[3] for e in edges], [context.uuid for e in edges], "containers of exported edges")
    ni = {n[0]: n[2] for n in nodes}
    ei = {e[0]: e[2] for e in edges}
    ctx.eq(len(set(ni.values())), len(ni), "exported node indices differ")
    ctx.eq(len(set(ei.values())), len(ei), "exported edge indices differ")
    w, out, inc = tr.msg_tensor_value_updates()
    # members within the nodes of the context have indices behind the exported ones
    N = max([*ni.values(), *(t[1] for t in out), *(t[1] for t in inc), *(k for t in w for k in t[1:3])]) + 1
    E = max(ei.values(), default=-1) + 1
    W, Io, Ii = np.zeros((E, N, N)), np.zeros((E, N)), np.zeros((E, N))
    for T, entries in ((W, w), (Io, out), (Ii, inc)):
        for *ix, v in entries:
            ctx.ok(all(isinstance(k, int) and 0 <= k < s for k, s in zip(ix, T.shape)), "an exported index is out of range", ix)
            T[tuple(ix)] = v
    return ni, ei, W, Io, Ii, [list(map(tuple, x)) for x in (w, out, inc)]


def judge(ctx, tr, context, total):
    ni, ei, W, Io, Ii, entries = replay(ctx, tr, context)
    edges = sorted(context.sub_edges, key=lambda e: ei[e.uuid])
    by_index = {id(n): ni[n.uuid] for n in [context, *context.sub_nodes]}
    deeper = {id(r.endpoint): -1 for e in edges for r in e.sub_relations if id(r.endpoint) not in by_index}
    if deeper:
        judge_deeper(ctx, W, Io, Ii, edges, by_index, deeper)
        return entries
    cell = cells(edges, by_index)
    io, ii = marginals(cell)
    same_tensor(ctx, W, W.shape, cell, "the exported weight tensor")
    same_tensor(ctx, Io, Io.shape, io, "the exported outgoing incidence")
    same_tensor(ctx, Ii, Ii.shape, ii, "the exported incoming incidence")
    # the same as the dense transformation, if that one applies
    if not any(r.endpoint is context for e in edges for r in e.sub_relations) and edges:
        d = NumpyHypergraphTensorTransformer()
        run(d.execute(context))
        rep = d.tensor_representation
        nn, ee = [ni[n.uuid] for n in context.sub_nodes], [ei[e.uuid] for e in context.sub_edges]
        ix = np.ix_
        for got, want, what in ((W[ix(ee, nn, nn)], rep.W, "weight tensor"), (Io[ix(ee, nn)], rep.Io, "outgoing incidence"),
                                (Ii[ix(ee, nn)], rep.Ii, "incoming incidence")):
            ctx.ok(got.shape == want.shape and np.array_equal(got, want), f"replayed {what} differs from the dense one")
        ctx.count("dense_compared")
    else:
        ctx.count("context_is_member", bool(edges))
    total[0] += len(cell)
    return entries


def judge_deeper(ctx, W, Io, Ii, edges, by_index, deeper):
    """Some members are nodes of nodes: their indices are not exported, but differ from each other and from the others."""
    for k, i in enumerate(deeper):
        deeper[i] = 10 ** 6 + k
    cell = cells(edges, {**by_index, **deeper})
    io, ii = marginals(cell)
    known = sorted(by_index.values())
    hidden = [k for k in range(W.shape[1]) if k not in set(known)]
    for T, want, what in ((W, cell, "weight tensor"), (Io, io, "outgoing incidence"), (Ii, ii, "incoming incidence")):
        seen = T.copy()
        for axis in range(1, T.ndim):
            seen[(slice(None),) * axis + (hidden,)] = 0
        same_tensor(ctx, seen, seen.shape, {k: v for k, v in want.items() if all(x < 10 ** 6 for x in k[1:])},
                    f"the exported {what} of the direct nodes")
        ctx.eq(int(np.count_nonzero(T)), sum(1 for v in want.values() if v), f"number of entries of the exported {what}")
    ctx.count("deeper_members")


@scenario("C19", quick=2400, thorough=8000)
def contexts(ctx, rng, i):
    cs = [Context(rng, numbers_only=True) for _ in range(rng.choice([1, 1, 2]))]
    c = cs[0]
    tr = CoordinateObjectTransformer(c.root, rng.choice([math.inf, math.inf, 1, 3])) if rng.random() < 0.5 else \
        CoordinateObjectTransformer(c.root)
    total = [0]
    kept = Kept(rng, 0.7)
    ctx.log("context", c.describe())
    run(tr.reset(c.root))
    for k in range(rng.choice([2, 5])):
        before = c.snapshot()
        ctx.log("export")
        run(tr.execute())
        kept.check(ctx)
        first = judge(ctx, tr, c.root, total)
        kept.add("an export", tr.msg_tensor_value_updates())
        kept.add("an exported index", [tr.node_index_list(), tr.edge_index_list()])
        if rng.random() < 0.5:
            run(tr.execute() if rng.random() < 0.5 else tr.execute(c.root))
            kept.check(ctx)
            ctx.eq(judge(ctx, tr, c.root, total), first, "entries of a repeated export")
            fresh = CoordinateObjectTransformer(c.root)
            run(fresh.reset(c.root))
            run(fresh.execute())
            ctx.eq(replay(ctx, fresh, c.root)[-1], first, "entries of a fresh exporter")
            ctx.count("repeated")
        oracles.same_snapshot(ctx, before, c.snapshot(), "an export changed the graph")
        x = rng.random()
        if x < 0.25:
            ws = [r.weight for e in c.root.sub_edges for r in e.sub_relations if r.weight is not None]
            if ws:
                rng.choice(ws).update_values([rng.choice([1.0, 4.0, 0.5, 0.0])])
                ctx.log("weight changed")
                ctx.count("values_changed")
            continue
        if x < 0.8:
            for _ in range(rng.randrange(1, 4)):
                c.change()
            ctx.count("changed")
        else:
            n = rng.choice(cs)
            ctx.count("other_context", n is not c)
            c = n
        ctx.log("context now", c.describe())
        run(tr.reset(c.root))
    ctx.state(total)
    ctx.case(ctx.oplog, total[0] > 0)


@scenario("C19", quick=480, thorough=2500)
def deeper(ctx, rng, i):
    """Edges with nodes of nodes as members; with a depth of one, members have edges of their own."""
    c = Context(rng, numbers_only=True)
    c.root_member = False
    depth = rng.choice([1, math.inf])
    f = c.factory
    inner, total = [], [0]
    for n in list(c.root.sub_nodes):
        for k in range(rng.randrange(3)):
            inner.append(HypergraphNode(f"deep{k}", new_uuid(rng), "q", c.clock, n))
            if rng.random() < 0.3:
                inner.append(HypergraphNode("deeper", new_uuid(rng), "q", c.clock, inner[-1]))
    if depth == 1:
        for n in rng.sample(list(c.root.sub_nodes), len(list(c.root.sub_nodes)) // 2):
            e = HypergraphEdge("inner edge", new_uuid(rng), "q", c.clock, n)
            for m in rng.sample(inner, min(len(inner), 3)):
                e.unary_connect(m, None, rng.choice(c.directions))
            ctx.count("inner_edges")
    members = inner + [n for n in c.root.sub_nodes]

    def within(n):
        while n is not None and n is not c.root:
            n = n.parent
        return n is c.root
    tr = CoordinateObjectTransformer(c.root, depth)
    for k in range(rng.choice([1, 3])):
        for e in list(c.root.sub_edges):
            have = {id(r.endpoint) for r in e.sub_relations}
            for m in rng.sample(members, min(len(members), rng.randrange(3))):
                if id(m) not in have and within(m):
                    c.connect(e, m)
            for r in list(e.sub_relations):
                if not within(r.endpoint) or r.endpoint is c.root:
                    list(e.remove_element(uuid=r.uuid))
        ctx.log("export", depth, c.describe())
        run(tr.reset(c.root))
        run(tr.execute())
        first = judge(ctx, tr, c.root, total)
        run(tr.execute())
        ctx.eq(judge(ctx, tr, c.root, total), first, "entries of a repeated export")
        c.change()
    ctx.case(ctx.oplog, bool(first[0]))
