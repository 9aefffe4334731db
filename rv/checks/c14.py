from rv.core import scenario, run
from rv.history import World, Desync
from rv.lib import *
from rv.graphs import random_hypergraph
from rv.checks.c10 import expected_levels
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor

RULE = ("Random contexts (flat, nested, with values) are mapped with all combinations of root handling and depth, again "
        "after changes and for other contexts by the same mapping object, and restored from transmitted pairs in any "
        "order; both directions, counts and order are compared with a reference; non-trivial if three or more elements "
        "were mapped.")
ASSUMPTIONS = ["identities of the elements in scope differ"]
ANCHORS = ["hypergraph/homomorphism_functions.py"]
REQUIRED = ["nodes_mapped", "edges_mapped", "values_mapped", "mapped_again", "other_context", "restored", "absent_elements",
            "deep", "with_root"]


def scope(start, ignore_root, depth):
    """What has to be mapped, in order."""
    sel = lambda cls: [e for l in expected_levels(start, lambda x: isinstance(x, cls), depth, ignore_root) for e in l]
    return sel(HypergraphNode), sel(HypergraphEdge), sel(ValueNode)


def compare(ctx, hom, nodes, edges, values, foreign=()):
    for what, els, fwd, back in (("node", nodes, hom.node, hom.dim), ("edge", edges, hom.edge, hom.depth),
                                 ("value", values, hom.val, hom.ival)):
        for i, e in enumerate(els):
            ctx.eq(fwd(e.uuid), i, f"index of a {what}", e)
            ctx.eq(back(i), e.uuid, f"{what} of an index", i)
            ctx.count(what + "s_mapped")
        for i in (len(els), -1):
            ctx.rejected(lambda: back(i), f"{what} of an index out of range {i}", KeyError)
        known = {e.uuid for e in els}
        for u in foreign:
            if u not in known:
                ctx.rejected(lambda: fwd(u), f"index of a {what} which is not in scope", KeyError)
                ctx.count("absent_elements")
    ctx.eq(hom.cnt_node, len(nodes), "number of mapped nodes")
    ctx.eq(hom.cnt_edges, len(edges), "number of mapped edges")


def distinct(els):
    return len({e.uuid for e in els}) == len(els)


def all_below(start):
    out, stack = [], [start]
    while stack:
        e = stack.pop()
        out.append(e)
        stack.extend(children(e))
    return out


@scenario("C14", quick=2400, thorough=8000)
def contexts(ctx, rng, i):
    w = World(ctx, rng, clock=rng.choice([TickClock, TickClock, FrozenClock])(), limit=rng.choice([6, 25, 60]))
    w.shared_identities = 0
    if not w.history(rng.choice([5, 30, 70]), 0):
        return
    ignore, depth = rng.random() < 0.5, rng.choice([1, 1, 2, 3, 0, float("inf")])
    if not ignore and rng.random() < 0.5:      # the root is part of the mapping unless it is asked to be ignored
        hom = IndexHomomorphismGraphTensor() if depth == 1 else IndexHomomorphismGraphTensor(depth=depth)
    else:
        hom = IndexHomomorphismGraphTensor(ignore, depth)
    ctx.log("mapping ignore_root", ignore, "depth", depth)
    last, n = None, 0
    for k in range(5):
        starts = [m.obj for m in w.els if m.kind == "node" or m.kind == "edge" and rng.random() < 0.3]
        start = last if last is not None and rng.random() < 0.4 else rng.choice(starts)
        nodes, edges, values = scope(start, ignore, depth)
        if distinct(nodes + edges + values):
            ctx.log("map", names_path(start))
            run(hom.execute(start))
            compare(ctx, hom, nodes, edges, values, [m.obj.uuid for m in w.els])
            n = max(n, len(nodes) + len(edges) + len(values))
            ctx.count("mapped_again", start is last)
            ctx.count("other_context", last is not None and start is not last)
            ctx.count("deep", depth > 1 and any(e.depth > start.depth + 1 for e in nodes))
            ctx.count("with_root", not ignore)
            ctx.state((ignore, depth, len(nodes), len(edges), len(values)))
            last = start
            restore(ctx, rng, hom, nodes, edges, values)
        for _ in range(rng.randrange(8)):
            try:
                w.step(0)
            except Desync:
                return
    ctx.case(ctx.oplog, n > 2)


def restore(ctx, rng, hom, nodes, edges, values):
    lists = [[(e.uuid, f(e.uuid)) for e in els]
             for els, f in ((nodes, hom.node), (edges, hom.edge), (values, hom.val))]
    other = IndexHomomorphismGraphTensor(rng.random() < 0.5)
    for rep in range(2):
        if rep == 1:
            other = hom if rng.random() < 0.2 else other
        for l in lists:
            rng.shuffle(l)
        other.reset_from_bijection(*[rng.choice([list, tuple])(l) for l in lists])
        compare(ctx, other, nodes, edges, values)
        ctx.count("restored")
    # a smaller mapping replaces a larger one
    sub = [l[:len(l) // 2] for l in lists]
    o2 = other if other is not hom else IndexHomomorphismGraphTensor()
    o2.reset_from_bijection(*sub)
    ctx.eq((o2.cnt_node, o2.cnt_edges), (len(sub[0]), len(sub[1])), "counts after restoring a smaller mapping")
    for l, fwd in zip(lists, (o2.node, o2.edge, o2.val)):
        for u, _ in l[len(l) // 2:]:
            ctx.rejected(lambda: fwd(u), "an element of the previous mapping is still mapped", KeyError)
    if other is hom:
        return
    if rng.random() < 0.3:
        ctx.log("reset")
        o2.reset_homology()
        compare(ctx, o2, [], [], [], [u for l in lists for u, _ in l])


@scenario("C14", quick=360, thorough=1080)
def large(ctx, rng, i):
    g = random_hypergraph(rng, nodes=rng.choice([0, 50, 400]), edges=rng.choice([0, 10, 40]))
    for k in range(rng.choice([0, 3, 30])):
        g.factory.create_value(g.root, f"v{k}", [1.0])
    hom = IndexHomomorphismGraphTensor(True, 1)
    ctx.log("map", len(g.all_nodes), len(g.all_edges))
    for _ in range(3):
        run(hom.execute(g.root))
        compare(ctx, hom, list(g.root.sub_nodes), list(g.root.sub_edges), list(g.root.sub_values),
                [g.root.uuid] + [n.uuid for n in g.all_nodes])
        g.change(rng)
        g.change(rng)
    ctx.case(ctx.oplog + [str(g.describe())], len(g.all_nodes) > 2)


@scenario("C14", quick=360, thorough=1080)
def failed_mapping(ctx, rng, i):
    """A mapping which was interrupted leaves nothing behind in the next one."""
    a = random_hypergraph(rng, nodes=rng.choice([3, 8]), edges=2, name="a")
    b = random_hypergraph(rng, nodes=rng.choice([0, 2, 5]), edges=rng.choice([0, 3]), name="b")
    depth = rng.choice([1, 2, 3])
    hom = IndexHomomorphismGraphTensor(False, depth)
    armed = []

    class Fault(Exception):
        pass

    class Cut(HypergraphNode):
        """A member whose contents cannot be read."""
        def get_subelements(self, f):
            if armed:
                raise Fault()
            return super().get_subelements(f)
    ctx.log("interrupted mapping", depth)
    cut = Cut("cut", new_uuid(rng), "cut", DummyClock(), a.root)
    armed.append(True)
    try:
        run(hom.execute(a.root))
    except Fault:
        ctx.count("interrupted")
    armed.clear()
    run(hom.execute(b.root))
    compare(ctx, hom, *scope(b.root, False, depth), [n.uuid for n in a.all_nodes] + [cut.uuid])
    ctx.count("other_context")
    ctx.case(ctx.oplog + [str(b.describe())])
