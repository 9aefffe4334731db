import math

from rv.core import scenario, run
from rv.lib import *
from rv import oracles, robots, graphs
from rv.checks import c09, c10, c11, c13, c14, c16, c17, c18, c19, c20, c22, c24
from rv.contexts import Context
from rv.graphs import random_hypergraph
from rv.history import World, Desync

from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.hypergraph.norm.norm_functions import SumNorm
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
from rei.hypergraph.factorization_operations import (
    Factorization2Operation, Factorization2SubsetOperation, RelationFactorization2SubsetOperation)
from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine

RULE = ("Few heavy executions: hierarchies of up to 66000 elements or 5000 levels, hypergraphs in which members are reached "
        "in more than 2^40 ways and in cycles, hundreds of edges and nodes, messages with thousands of elements and values, "
        "robots with hundreds of links and many levels, long descriptions, values with 100000 entries, long histories; "
        "judged by the oracles of the other properties; each ends within a CPU budget far above its needs.")
ASSUMPTIONS = ["the budget of 60 s CPU per execution (typical: below 5 s) stands for 'ends'"]
ANCHORS = ["foundations/conceptual_item.py", "foundations/hierarchical_traversal_strategies.py",
           "foundations/hypergraph_traversal_strategies.py", "hypergraph/base_elements.py", "hypergraph/factorization_operations.py",
           "hypergraph/homomorphism_functions.py", "tensor/tensor_representation.py", "hypergraph/encoding/graph_tensor_icon.py",
           "format/mapping/cognilang_sdf_icon.py", "format/mapping/cognilang_file_icon.py"]
REQUIRED = ["wide", "chain", "bushy", "comb", "ladders", "dense", "sparse", "messages", "updates", "robots", "texts",
            "big_values", "paths", "many_endpoints", "long_histories", "many_ports"]


# ---------------------------------------------------------------------------------------------------------------
# Hierarchies
# ---------------------------------------------------------------------------------------------------------------

def hierarchy(rng, shape):
    """Elements in the order of their creation."""
    clock = rng.choice([TickClock, DummyClock])()
    els = [HypergraphNode("root", new_uuid(rng), "q", clock, None)]
    n = {"wide": rng.choice([5000, 33000, 66000]), "chain": rng.choice([3000, 5000]), "bushy": 20000, "comb": 12000}[shape]
    spine = [els[0]]
    holders = [els[0]]
    name = (lambda k: f"n{k}") if rng.random() < 0.5 else (lambda k: rng.choice("abcdefgh"))
    for k in range(n):
        down = shape == "chain" or shape == "comb" and k % 10 == 0
        p = {"wide": els[0], "chain": spine[-1], "comb": spine[-1], "bushy": rng.choice(holders)}[shape]
        match rng.randrange(10) if not down else 0:
            case 8:
                e = ValueNode(new_uuid(rng), name(k), "q", [k])
            case 7 | 9:
                e = HypergraphEdge(name(k), new_uuid(rng), "q", clock, None)
            case _:
                e = HypergraphNode(name(k), new_uuid(rng), "q", clock, None)
        if not down or shape != "chain":
            p.add_element(e)
        if isinstance(e, HypergraphNode):
            holders.append(e)
            if down:
                if shape == "chain":
                    p.add_element(e)
                spine.append(e)
        els.append(e)
    return clock, els, spine


def views(ctx, rng, p):
    """Look-ups and views of a container against its observed elements in order."""
    kids = children(p)
    for c in rng.sample(kids, min(len(kids), 40)) + kids[:2] + kids[-2:]:
        ctx.ok(p[c.uuid] is c, "access by identifier")
        ctx.same(p.get_element_by_id_name(c.id_name), [x for x in kids if x.id_name == c.id_name], "look-up by name")
    ctx.same(p.sub_nodes, [x for x in kids if isinstance(x, HypergraphNode)], "view of nodes")
    ctx.same(p.sub_edges, [x for x in kids if isinstance(x, HypergraphEdge)], "view of edges")
    ctx.same(p.sub_values, [x for x in kids if isinstance(x, ValueNode)], "view of values")
    ctx.eq(p.cnt_subelements, len(kids), "number of elements")


def query(ctx, start):
    engine = HypergraphQueryEngine("engine", b"engine", "engine", DummyClock(), None)
    sel, desc = lambda x: isinstance(x, HypergraphEdge), lambda x: True
    engine.add_query("a", HierarchicalPrepositionQuery(start, sel, desc))
    ctx.same(engine.execute_all_queries(), c13.evaluate(start, sel, desc), "result over a large hierarchy")


@scenario("C27", quick=16, thorough=80)
def hierarchies(ctx, rng, i):
    shape = ["wide", "chain", "bushy", "comb"][i % 4]
    clock, els, spine = hierarchy(rng, shape)
    root = els[0]
    ctx.log(shape, len(els))
    ctx.maximum("elements", len(els))
    oracles.forest(ctx, els)
    oracles.names(ctx, els)
    views(ctx, rng, root)
    if shape == "wide":
        ctx.eq([x.cid for x in els[1:]], list(range(len(els) - 1)), "ordinals in the order of insertion")
    else:
        views(ctx, rng, spine[len(spine) // 2])
    # traversals from the top and from the middle
    for strategy in c10.STRATEGIES:
        start = rng.choice([root, spine[len(spine) // 3]])
        limit = rng.choice([1, 3, 300, 10 ** 6, math.inf])
        flt = rng.choice([true, lambda x: not isinstance(x, ValueNode)])
        ignore = rng.random() < 0.5
        visits = []
        ctx.log(strategy, limit, ignore)
        tr = c10.make(strategy, lambda x: visits.append(x) or ("visited", id(x)), flt, limit, ignore)
        results = run(tr.execute(start))
        c10.judge(ctx, strategy, start, flt, limit, ignore, visits, results)
    query(ctx, root)
    if shape != "chain":
        hom = IndexHomomorphismGraphTensor(True, math.inf if shape != "wide" else 1)
        for start in (root, root if shape == "wide" else rng.choice(spine)):
            ctx.log("map")
            run(hom.execute(start))
            nodes, edges, values = c14.scope(start, True, math.inf)
            c14.compare(ctx, hom, nodes, edges, values, [start.uuid, b"foreign"])
            ctx.count("mapped", len(nodes))
    # a large part moves, leaves and comes back
    other = HypergraphNode("other", new_uuid(rng), "q", clock, None)
    els.append(other)
    if shape == "wide":
        moved = rng.sample(children(root), 2000)
        run(other.add_elements(iter(moved)))
        ctx.same(children(other), moved, "elements moved in bulk")
    else:
        part = spine[rng.randrange(1, len(spine))] if len(spine) > 1 else rng.choice(children(root))
        ctx.log("move", part.depth)
        home = part.parent
        other.add_element(part)
        oracles.names(ctx, els)
        bottom = part
        while children(bottom):
            bottom = children(bottom)[-1]
        if isinstance(bottom, HypergraphNode):
            ctx.rejected(lambda: bottom.add_element(part), "an element inserted far below itself")
        ctx.same(other.remove_element(uuid=part.uuid), [part], "handed back by the removal")
        oracles.names(ctx, els)
        home.add_element(part)
    oracles.forest(ctx, els)
    oracles.names(ctx, els)
    views(ctx, rng, root)
    # look-up by long paths
    for x in rng.sample(els[1:-1], 3) + [els[-2]]:
        names, y = [], x
        while y is not root and y is not None:
            names.append(y.id_name)
            y = y.parent
        if y is root:
            got = list(root.get_element_by_id_name("/".join(names[::-1])))
            ctx.ok(any(g is x for g in got), "look-up by a long path finds the element", len(names))
            for g in got[:20]:
                ctx.eq(names_path(g), ["root"] + names[::-1], "element found by a long path")
            ctx.maximum("path", len(names))
            ctx.count("paths")
    # all of it moves
    top = HypergraphNode("above", new_uuid(rng), "q", clock, None)
    top.add_element(root)
    oracles.names(ctx, [top, *els])
    if shape == "wide":
        clock, stamps = root.clock, {id(x): oracles.stamp(x) for x in els}
        ctx.same(top.remove_element(uuid=root.uuid), [root], "handed back by the removal")
        if isinstance(clock, TickClock):
            ctx.ok(all(oracles.stamp(x) is None or oracles.stamp(x) > stamps[id(x)] for x in els if x is not other
                       and x.parent is not other), "stamps of a large subtree after its removal")
        oracles.names(ctx, [top, *els])
    ctx.count(shape)
    ctx.state((shape, len(els)))
    ctx.case(ctx.oplog)


# ---------------------------------------------------------------------------------------------------------------
# Hypergraphs
# ---------------------------------------------------------------------------------------------------------------

def ladder(rng, layers, width, f):
    """Each node of a layer leads to each of the next one, and sometimes back: exponentially many ways."""
    top = f.generate_node("top")
    rows = [[f.generate_node(f"n{k}_{j}", top) for j in range(width)] for k in range(layers)]
    edges = 0
    for k, row in enumerate(rows):
        for x in row:
            for part in range(rng.choice([1, 2])):
                e = f.create_hyperedge(x, f"e{part}")
                e.unary_connect(x, None, IN)
                for y in rows[k + 1] if k + 1 < layers else []:
                    e.unary_connect(y, None, rng.choice([OUT, OUT, BI]))
                if rng.random() < 0.3:
                    back = rng.choice(rng.choice(rows[:k + 1]))
                    if back is not x:
                        e.unary_connect(back, None, OUT)
                edges += 1
    return top, rows, edges


@scenario("C27", quick=16, thorough=64)
def ladders(ctx, rng, i):
    f = HypergraphFactory("f", rng.choice([TickClock, FrozenClock])())
    layers, width = [(40, 2), (25, 4), (300, 2), (60, 3)][i % 4]
    top, rows, edges = ladder(rng, layers, width, f)
    ctx.log("ladder", layers, width, edges)
    for start in (rows[0][0], rng.choice(rows[layers // 2])):
        for limit in (math.inf, rng.choice([5, layers, 200])):
            calls = []
            run(HypergraphTraversal(lambda x: calls.append(list(x)), true, SumNorm(), depth=limit).execute(start))
            want = c11.expected(c11.reached_edges(start, limit), lambda x: x.uuid, lambda e: e.uuid, None)
            c11.compare(ctx, c11.observed(ctx, calls), want, "pairs reported along a ladder")
        n = c20.judge_graph(ctx, Factorization2Operation(), start)
        ctx.maximum("incoming relations", n)
    ctx.count("ladders")
    ctx.state((layers, width, edges))
    ctx.case(ctx.oplog)


@scenario("C27", quick=12, thorough=60)
def tensors(ctx, rng, i):
    dense = i % 2 == 0
    n, m = (120, 12) if dense else (300, 280)
    g = random_hypergraph(rng, nodes=n, edges=m, weighted=rng.random() < 0.5, weights=[[1.0], [0.5, 0.25], [3.0], [0.125]],
                          name="large")
    pool = [x for x in g.all_nodes if x.parent is g.root]
    big = g.factory.create_hyperedge(g.root, "all")
    g.all_edges.append(big)
    for x in pool if dense else rng.sample(pool, 40):
        g.connect(rng, big, x, False)
    ctx.log("dense" if dense else "sparse", n, len(g.all_edges))
    for _ in range(2):
        rep = c16.transform(g.root)
        cell = graphs.compare_tensors(ctx, rep, g.root)
        ctx.maximum("cells", len(cell))
        tr = CoordinateObjectTransformer(g.root)
        run(tr.reset(g.root))
        run(tr.execute())
        c19.judge(ctx, tr, g.root, [0])
        for k in range(5):
            g.change(rng, False)
    if dense:
        c16.compare(ctx, rng, c16.transform(g.root), "mixed")
    # the pairs, and the factorizations of subsets
    calls = []
    run(HypergraphTraversal(lambda x: calls.append(list(x)), true, SumNorm()).execute(g.root))
    want = c11.expected(c11.reached_edges(g.root, math.inf), lambda x: x.uuid, lambda e: e.uuid, SumNorm().norm)
    c11.compare(ctx, c11.observed(ctx, calls), want, "pairs of a large graph")
    loops = rng.random() < 0.5
    every = g.all_nodes + g.all_edges
    rng.shuffle(every)
    few = every if not dense else [x for x in every if isinstance(x, HypergraphEdge) or rng.random() < 0.4]
    c20.judge_subset(ctx, Factorization2SubsetOperation(loops), few, loops)
    rels = [r for e in g.all_edges for r in e.sub_relations if not dense or rng.random() < 0.5]
    rng.shuffle(rels)
    c20.judge_relations(ctx, RelationFactorization2SubsetOperation(loops), rels, loops)
    ctx.count("dense" if dense else "sparse")
    ctx.state((n, m, len(rels)))
    ctx.case(ctx.oplog)


@scenario("C27", quick=6, thorough=30)
def endpoints(ctx, rng, i):
    """Edges with thousands of endpoints; an element with thousands of relations leading to it."""
    clock, f, nodes = c09.setup(rng, 3000)
    ns = rng.sample(nodes[2:], 2500)
    vals = [f.create_value(None, f"v{k}", [k]) for k in range(7)] + [None]
    vs = [rng.choice(vals) for _ in ns]
    container = nodes[0]
    h = rng.randrange(len(ns))
    before = container.cnt_subelements
    ctx.log("connect", len(ns), h)
    e = f.connect_2factor_edges(container, "big", ns[:h], ns[h:], (IN, OUT), vs)
    c09.verify(ctx, e, container, "big", [(n, IN if k < h else OUT, v, None) for k, (n, v) in enumerate(zip(ns, vs))],
               before, "connect_2factor_edges")
    ctx.same(e.get_incoming_relations(), list(e.sub_relations)[:h], "incoming")
    ctx.same(e.get_outgoing_relations(), list(e.sub_relations)[h:], "outgoing")
    ctx.same(e.induced_subset, ns, "members")
    ctx.count("many_endpoints")
    hub = f.generate_node("hub", nodes[1])
    es = [f.create_hyperedge(nodes[1], f"e{k % 3}" if isinstance(clock, TickClock) else f"h{k}") for k in range(1500)]
    for x in es:
        x.unary_connect(hub, None, rng.choice(DIRS))
    ctx.eq(len(list(hub.sub_ports)), len(es), "ports of an element with many relations")
    gone = rng.sample(es, 700)
    for x in gone:
        list(x.remove_element(uuid=next(iter(x.sub_relations)).uuid))
    left = [r for x in es for r in x.sub_relations]
    ctx.eq(len(left), len(es) - len(gone), "relations left")
    ctx.eq(sorted(id(p.endpoint) for p in hub.sub_ports), sorted(map(id, left)), "ports of an element with many relations")
    for x in es[:50]:
        for r in x.sub_relations:
            oracles.incidence(ctx, r)
    oracles.connections(ctx, [*c14.all_below(nodes[0]), *c14.all_below(nodes[1])])
    ctx.count("many_ports")
    ctx.case(ctx.oplog)


# ---------------------------------------------------------------------------------------------------------------
# Messages
# ---------------------------------------------------------------------------------------------------------------

@scenario("C27", quick=6, thorough=30)
def messages(ctx, rng, i):
    n, m, v = [(3000, 600, 3000), (50, 20, 33000), (66000, 30, 40)][i % 3]
    c = Context(rng)
    f = c.factory
    nodes = [f.generate_node(f"large node{k}", c.root) for k in range(n)]
    f.generate_node("long" * 5000, c.root)
    for k in range(m):
        e = f.create_hyperedge(c.root, f"large edge{k}")
        for x in rng.sample(nodes, rng.randrange(min(n, 300 if k % 20 == 0 else 6))):
            e.unary_connect(x, None, rng.choice(DIRS))
    vs = [f.create_value(c.root, f"large value{k}", [k, k / 7, f"text{k}"]) for k in range(v)]
    vs.append(f.create_value(c.root, "many numbers", list(range(20000))))
    vs.append(f.create_value(c.root, "huge values", [2 ** 2000, -2 ** 3000, "x" * 70000, b"\0" * 70000, [[[1]] * 300]]))
    ctx.log("message", n, m, v)
    sender, codec = GraphTensorCbor("s", c.clock, c.root), GraphTensorCbor("r", DummyClock(), None)
    sent = c17.sender_state(c)
    msg = c17.encode(sender, c.root)
    ctx.maximum("bytes", len(msg))
    c17.compare(ctx, *codec.create_graph(msg), sent)
    ctx.count("messages")
    receiver = c18.Receiver(ctx, GraphTensorCbor("r2", DummyClock(), None), msg, c18.values_of(c.root))
    for x in rng.sample(vs, len(vs) // 2) + [vs[-1], vs[-2]]:
        x.update_values([rng.random(), "changed"] * rng.choice([0, 1, 2]))
    receiver.apply(sender.msg_value_update(), c18.values_of(c.root), 2)
    ctx.count("updates")
    ctx.case(ctx.oplog)


# ---------------------------------------------------------------------------------------------------------------
# Robots
# ---------------------------------------------------------------------------------------------------------------

class Large(robots.Generator):
    """Numbers of links and levels far above those of the other checks."""

    def __init__(self, rng, links, depth, **kw):
        super().__init__(rng, size=3, nesting=0, **kw)
        self.many, self.depth_wanted, self.count = links, depth, 0

    def name(self, used, base):
        self.count += 1
        n = f"{base}_{self.count}"
        while n in self.keywords:
            n += "_"
        used.add(n)
        self.names.append(n)
        return n

    def graph(self, path, used, level):
        r = self.rng
        items = []
        n = self.many if level == 0 else r.choice([1, 2, 4])
        links = [self.name(used, "link") for _ in range(n)]
        items += [("link", self.link(x, path)) for x in links]
        inner = None
        if level < self.depth_wanted:
            inner = self.graph([*path, self.name(used, "sub")], used, level + 1)
            items.append(("graph", inner))
        shape = r.choice(["chain", "star", "tree"])
        for k in range(1, n):
            a = links[{"chain": k - 1, "star": 0, "tree": r.randrange(k)}[shape]]
            items.append(("joint", self.joint(None, a, [links[k]], used)))
        if level == 0 and n > 2:
            # one edge to many ends
            items.append(("joint", self.joint(None, links[-1], links[:-1][:60], used)))
        if inner is not None:
            for _ in range(r.choice([1, 2]) if level < 3 else 1):
                items.append(("joint", self.joint(None, r.choice(links), [inner["name"]], used)))
        return {"name": path[-1], "items": items}

    def description(self):
        self.entity = self.name(set(), "bot")
        g = self.graph([self.name(set(), "body")], set(), 0)
        return {"entity": self.entity, "parameters": dict(self.parameters), "graphs": [g], "ambients": []}


@scenario("C27", quick=24, thorough=160)
def robot(ctx, rng, i):
    text = i % 2 == 1
    links, depth = [(700, 1), (40, 7), (300, 3), (8, 16)][i // 2 % 4] if not text else [(90, 2), (20, 8)][i // 2 % 2]
    gen = Large(rng, links, depth, text=text, keywords=c24.LANGUAGE.lexer.literals if text else ())
    d = gen.description()
    if text:
        s = robots.to_text(d, rng)
        ctx.log("text", len(s))
        ctx.maximum("characters", len(s))
        root = c24.interpret(s)
        d = robots.substituted(d)
        c24.check_description(ctx, root, d)
        ctx.count("texts")
    else:
        ctx.log("robot", links, depth)
        root = robots.Builder(rng.choice([TickClock(), LocalClock(), FrozenClock()]), rng).build(d)
    got, want = robots.read_model(c22.convert(root)), robots.model(d)
    ctx.maximum("links", len(want["links"]))
    robots.compare_structure(ctx, got, want)
    robots.compare_numbers(ctx, got, want)
    ctx.count("robots")
    ctx.case(ctx.oplog)


# ---------------------------------------------------------------------------------------------------------------
# Values and histories
# ---------------------------------------------------------------------------------------------------------------

@scenario("C27", quick=8, thorough=40)
def values(ctx, rng, i):
    n = rng.choice([1000, 70000, 150000])
    want = [rng.choice([k, k / 3, str(k), None]) for k in range(n)]
    v = ValueNode(new_uuid(rng), "big", "q", list(want))
    ctx.log("value", n)
    for _ in range(200):
        k = rng.randrange(n)
        want[k] = x = rng.random()
        v.update_value(k, x) if rng.random() < 0.5 else v.__setitem__(k, x)
        ctx.eq(v[k], x, "entry of a big value")
    ctx.ok(v.get_values() == want and list(v) == want, "entries of a big value")
    ctx.eq(v.dim, n, "dimension of a big value")
    want = want[: n // 2]
    v.update_values(list(want))
    ctx.ok(v.get_values() == want and v.dim == len(want), "entries of a big value after its replacement")
    attrs = {f"a{k}": [k] for k in range(5000)}
    s = SemanticValueNode(new_uuid(rng), "s", "q", None, dict(attrs))
    for k in rng.sample(range(5000), 300):
        attrs[f"a{k}"] = k
        s.add_named_attribute(f"a{k}", k)
    for k in range(5000):
        ctx.eq(s[f"a{k}"], attrs[f"a{k}"], "attribute of many")
    ctx.count("big_values")
    ctx.case(ctx.oplog)


@scenario("C27", quick=12, thorough=100)
def long_history(ctx, rng, i):
    w = World(ctx, rng, limit=600)
    for part in range(8):
        if not w.history(300, invalid=rng.choice([0, 0.05])):
            break
        els = oracles.everything(w)
        oracles.forest(ctx, els)
        oracles.contents(ctx, w)
        oracles.names(ctx, els)
        oracles.connections(ctx, els)
        ctx.count("long_histories")
    ctx.maximum("history elements", len(w.els))
    ctx.state(w.shape())
    ctx.case(ctx.oplog)
