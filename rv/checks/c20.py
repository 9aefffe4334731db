from collections import Counter

from rv.core import scenario, run
from rv.lib import *
from rv.graphs import random_hypergraph, parallel
from rei.hypergraph.factorization_operations import (
    Factorization2Operation, Factorization2SubsetOperation, RelationFactorization2SubsetOperation,
    MapFactorizationToFactorGraph)

RULE = ("Random hypergraphs on one or several levels (cycles, one-sided edges, parallel relations) are factorized from "
        "random starts, and random subsets of nodes and edges or of relations with and without self-loops, repeatedly "
        "and after changes by the same operation objects; compared with the pairs of an independent model; non-trivial "
        "if a pair was yielded.")
ASSUMPTIONS = ["a subset names no element twice"]
ANCHORS = ["hypergraph/factorization_operations.py"]
REQUIRED = ["graph_pairs", "subset_pairs", "relation_pairs", "cyclic", "self_loops", "one_sided_edges", "repeated", "changed",
            "mapped", "earlier_results", "detached_edges", "one_shot_subsets"]


def contiguous(ctx, keys, what):
    """Edge by edge: what belongs to an edge is not interrupted by other edges."""
    seen, last = set(), None
    for k in keys:
        if k != last:
            ctx.ok(k not in seen, what + ": the pairs of an edge are not together")
            seen.add(k)
            last = k
    ctx.checks += 1


def reachable(start):
    """Edges reachable over contained edges and outgoing members."""
    out, seen, queue = [], set(), [start]
    while queue:
        x = queue.pop(0)
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, HypergraphEdge):
            out.append(x)
            queue.extend(r.endpoint for r in x.sub_relations if r.direction in (OUT, BI))
        else:
            queue.extend(x.sub_edges)
    return out


def remember(ctx, kept, got):
    if kept is not None:
        kept.check(ctx)
        if isinstance(got, list):
            kept.add("a factorization", got)


def judge_graph(ctx, op, start, kept=None):
    got = run(op.execute(start))
    remember(ctx, kept, got)
    edges = reachable(start)
    want = Counter()
    for e in edges:
        for a in e.sub_relations:
            if a.direction in (IN, BI):
                want[id(a)] += 1
    ctx.eq(Counter(id(a) for a, _ in got), want, "incoming relations of a factorized graph")
    got = [(a, list(outs)) for a, outs in got]
    for a, outs in got:
        ctx.same(outs, [b for b in a.parent.sub_relations if b.direction in (OUT, BI)],
                 "outgoing relations paired with an incoming one", a)
        ctx.count("graph_pairs", len(outs))
    contiguous(ctx, [id(a.parent) for a, _ in got], "factorized graph")
    for e in edges:
        ctx.same([a for a, _ in got if a.parent is e], [a for a in e.sub_relations if a.direction in (IN, BI)],
                 "incoming relations of an edge in order")
    ctx.count("one_sided_edges", sum(1 for e in edges if not any(a.direction in (IN, BI) for a in e.sub_relations)
                                     or not any(a.direction in (OUT, BI) for a in e.sub_relations)))
    return len(got)


def pairs(ctx, got, want, what):
    ctx.ok(all(len(p) == 2 for p in got), what + ": not a pair")
    g, w = Counter((id(a), id(b)) for a, b in got), Counter((id(a), id(b)) for a, b in want)
    if g != w:
        names = {(id(a), id(b)): (a, b) for a, b in [*got, *want]}
        ctx.ok(False, f"pairs of {what}", "too many", [names[k] for k in (g - w)][:3], "missing",
               [names[k] for k in (w - g)][:3])
    ctx.checks += 1
    contiguous(ctx, [id(a.parent) for a, _ in got], what)


def judge_subset(ctx, op, start, loops, kept=None, form=lambda x: x):
    got = run(op.execute(form(start)))
    remember(ctx, kept, got)
    nodes = [x for x in start if isinstance(x, HypergraphNode)]
    want = []
    for e in start:
        if isinstance(e, HypergraphEdge):
            rels = [r for r in e.sub_relations if any(r.endpoint is n for n in nodes)]
            want += [(a, b) for a in rels if a.direction in (IN, BI) for b in rels if b.direction in (OUT, BI)
                     and (loops or a.endpoint is not b.endpoint)]
    pairs(ctx, got, want, "a subset of nodes and edges")
    ctx.count("subset_pairs", len(want))
    ctx.count("self_loops", sum(1 for a, b in want if a.endpoint is b.endpoint))
    return len(want)


def judge_relations(ctx, op, start, loops, kept=None, form=lambda x: x):
    got = run(op.execute(form(start)))
    remember(ctx, kept, got)
    rels = [x for x in start if isinstance(x, HypergraphRelation)]
    want = [(a, b) for a in rels if a.direction in (IN, BI) for b in rels if b.direction in (OUT, BI)
            and a.parent is b.parent and (loops or a.endpoint is not b.endpoint)]
    pairs(ctx, got, want, "a subset of relations")
    ctx.count("relation_pairs", len(want))
    return len(want)


@scenario("C20", quick=2000, thorough=10000)
def random_graphs(ctx, rng, i):
    g = random_hypergraph(rng, levels=rng.choice([1, 1, 2, 3]), weighted=False)
    if rng.random() < 0.2:
        parallel(rng, g)
    op = Factorization2Operation()
    sub = {l: Factorization2SubsetOperation(l) if l or rng.random() < 0.5 else Factorization2SubsetOperation()
           for l in (False, True)}
    rel = {l: RelationFactorization2SubsetOperation(l) if l or rng.random() < 0.5
           else RelationFactorization2SubsetOperation() for l in (False, True)}
    n = 0
    kept = Kept(rng)
    detached = []
    ctx.log("graph", g.describe())
    for k in range(rng.choice([2, 5])):
        every = [g.root] + g.all_nodes + g.all_edges + detached
        start = g.root if rng.random() < 0.5 else rng.choice(every)
        ctx.log("factorize from", names_path(start))
        ctx.count("cyclic", len(reachable(start)) > 1 and g.cyclic)
        for rep in range(rng.choice([1, 2])):
            n += judge_graph(ctx, op, start, kept)
            ctx.count("repeated", rep)
        # subsets
        for _ in range(2):
            loops = rng.random() < 0.5
            share = rng.choice([0.3, 0.8, 1.0])
            start = [x for x in every if rng.random() < share]
            if rng.random() < 0.5:
                start += [r for e in g.all_edges[:2] for r in e.sub_relations]     # kinds without meaning here
            rng.shuffle(start)
            form = rng.choice([list, tuple, iter])
            if rng.random() < 0.15:
                start = children(g.root)
                form = lambda x: g.root.get_subelements(lambda x: True)
            ctx.log("factorize subset of", len(start), "loops", loops, form)
            ctx.count("one_shot_subsets", form not in (list, tuple))
            n += judge_subset(ctx, sub[loops], start, loops, kept, form)
            rels = [r for e in g.all_edges for r in e.sub_relations if rng.random() < share]
            rels += [r for e in detached for r in e.sub_relations if rng.random() < share]
            ctx.count("detached_edges", len(detached))
            if rng.random() < 0.3:
                rels += every[:3]
            if rng.random() < 0.7:
                rng.shuffle(rels)
            ctx.log("factorize relations", len(rels), "loops", loops)
            n += judge_relations(ctx, rel[loops], rels, loops, kept, rng.choice([list, tuple, iter]))
        ctx.state(n)
        if rng.random() < 0.6:
            if g.all_edges and rng.random() < 0.3:
                # an edge without a container keeps its relations
                e = rng.choice(g.all_edges)
                g.all_edges.remove(e)
                e.deregister()
                detached.append(e)
            g.change(rng, False)
            ctx.log("changed", g.describe())
            ctx.count("changed")
    ctx.case(ctx.oplog, n > 0)


@scenario("C20", quick=240, thorough=720)
def mapped(ctx, rng, i):
    g = random_hypergraph(rng, nodes=6, edges=4)
    got = run(Factorization2SubsetOperation(True).execute(list(g.all_nodes) + list(g.all_edges)))
    seen = []

    def f(p):
        seen.append(p)
        return len(seen), p[0].endpoint, p[1].endpoint
    ctx.log("map", g.describe())
    r = list(run(MapFactorizationToFactorGraph(f).execute(got)))
    ctx.same(seen, got, "pairs handed to the mapping")
    ctx.eq([x[0] for x in r], list(range(1, len(got) + 1)), "results of the mapping in order")
    ctx.ok(all(x[1] is p[0].endpoint and x[2] is p[1].endpoint for x, p in zip(r, got)), "results of the mapping")
    ctx.count("mapped", len(r))
    ctx.case(ctx.oplog, bool(got))


@scenario("C20", quick=8, thorough=60)
def long_ways(ctx, rng, i):
    clock = DummyClock()
    n = rng.choice([10, 400, 1600])
    nodes = [HypergraphNode(f"n{k}", new_uuid(rng), "q", clock, None) for k in range(n)]
    for k, x in enumerate(nodes):
        e = HypergraphEdge("e", new_uuid(rng), "q", clock, x)
        e.unary_connect(x, None, IN)
        e.unary_connect(nodes[(k + 1) % n], None, OUT)
    ctx.log("cycle of", n)
    op = Factorization2Operation()
    for start in (nodes[0], nodes[n // 2]):
        ctx.eq(judge_graph(ctx, op, start), n, "pairs along a cycle")
    ctx.count("cyclic")
    ctx.case(ctx.oplog)


@scenario("C20", quick=240, thorough=720)
def failing(ctx, rng, i):
    """A failed factorization leaves nothing behind."""
    g = random_hypergraph(rng, nodes=6, edges=5)
    op, sub, rel = Factorization2Operation(), Factorization2SubsetOperation(), RelationFactorization2SubsetOperation()
    every = list(g.all_nodes) + list(g.all_edges)
    rels = [r for e in g.all_edges for r in e.sub_relations]

    class Fault(Exception):
        pass

    class Broken(HypergraphEdge):
        def get_subelements(self, f):
            if armed:
                raise Fault()
            return super().get_subelements(f)
    armed = []
    b = Broken("broken", new_uuid(rng), "q", DummyClock(), g.root)
    for n in g.all_nodes[:2]:
        b.unary_connect(n, None, BI)
    ctx.log("failing", g.describe())
    for k in range(2):
        armed.append(1)
        for o, s in ((op, g.root), (sub, every + [b])):
            try:
                run(o.execute(s))
            except Fault:
                ctx.count("failed_factorizations")
        armed.clear()
        judge_graph(ctx, op, g.root)
        judge_subset(ctx, sub, every, False)
        judge_relations(ctx, rel, rels, False)
    ctx.case(ctx.oplog)
