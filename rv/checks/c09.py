from rv.core import scenario
from rv.lib import *
from rv import oracles

RULE = ("Random lists of zero to 400 distinct endpoints in any containers, directions, splits, values and semantic "
        "values for every connection function; the created edge is compared with the request; non-trivial if there was "
        "an endpoint.")
ASSUMPTIONS = ["endpoints of one edge have different identifiers"]
ANCHORS = ["factories/foundation_factory.py", "hypergraph/base_elements.py"]
REQUIRED = ["connect_nodes", "connect_2factor_edges", "connect_dir_edges", "connect_tuple_nodes", "create_hyperedge",
            "unary_connect", "with_values", "with_semantics", "rejections", "lists_of_nodes", "values"]


def setup(rng, big):
    clock = rng.choice([TickClock, FrozenClock])()
    f = HypergraphFactory("f", clock)
    roots = [f.generate_node(f"r{k}") for k in range(2)]
    nodes = list(roots)
    for k in range(big):
        nodes.append(f.generate_node(f"n{k}", rng.choice(nodes)))
    return clock, f, nodes


def verify(ctx, e, container, name, request, count_before, what):
    """request: [(endpoint, direction, value, semantic)]"""
    ctx.ok(isinstance(e, HypergraphEdge), what + ": creates an edge")
    ctx.ok(e.parent is container, what + ": container of the edge", e.parent)
    ctx.eq(e.id_name, name, what + ": name of the edge")
    ctx.eq(container.cnt_subelements, count_before + 1 + sum(1 for n, *_ in request if n is container),
           what + ": elements in the container")
    rels = list(e.sub_relations)
    ctx.same([r.endpoint for r in rels], [n for n, *_ in request], what + ": endpoints")
    ctx.eq([r.direction for r in rels], [d for _, d, *_ in request], what + ": directions")
    for r, (n, d, v, s) in zip(rels, request):
        ctx.ok(r.weight is v, what + ": value of the endpoint", n, r.weight, v)
        ctx.ok(r.parent is e, what + ": parent of the relation")
        ctx.ok(r.semantic_value_node is s, what + ": semantic value of the endpoint", n)
        ctx.same(children(r), [] if s is None else [s], what + ": elements of the relation")
        oracles.incidence(ctx, r)
        ctx.eq(sum(1 for p in n.sub_ports if p.endpoint is r), 1, what + ": ports of the endpoint", n)
    ctx.eq(e.cnt_subelements, len(request) + sum(1 for n, *_ in request if n is e), what + ": elements in the edge")


@scenario("C09", quick=3000, thorough=9000)
def connections(ctx, rng, i):
    clock, f, nodes = setup(rng, rng.choice([3, 10, 60, 400]) if rng.random() < 0.3 else rng.randrange(1, 12))
    vals = [None, None] + [f.create_value(rng.choice(nodes + [None]), f"v{k}", x) for k, x in
                           enumerate([[0.0], [1.0], [2, 3], [], None, [None, False, ""]])]
    for k in range(4):
        container, name = rng.choice(nodes), f"e{k}" + rng.choice(["", "ä", ".", " x"])
        ns = rng.sample(nodes, rng.randrange(min(len(nodes), rng.choice([2, 5, 400])) + 1))
        h = rng.randrange(len(ns) + 1)
        with_values = rng.random() < 0.6
        vs = [rng.choice(vals) for _ in ns]
        d0, d1 = rng.choice(DIRS), rng.choice(DIRS)
        before = container.cnt_subelements
        which = rng.randrange(6)
        used = vs if with_values else [None] * len(ns)
        ctx.count("with_values", with_values and bool(ns))
        ctx.log("connect", which, len(ns), h, d0.name, d1.name, with_values)
        match which:
            case 0:
                e = f.connect_nodes(container, name, ns, d0, vs if with_values else None)
                verify(ctx, e, container, name, [(n, d0, v, None) for n, v in zip(ns, used)], before, "connect_nodes")
                ctx.count("connect_nodes")
            case 1:
                e = f.connect_2factor_edges(container, name, ns[:h], ns[h:], (d0, d1), vs if with_values else None)
                verify(ctx, e, container, name, [(n, d0 if k < h else d1, v, None) for k, (n, v) in
                                                 enumerate(zip(ns, used))], before, "connect_2factor_edges")
                ctx.count("connect_2factor_edges")
            case 2:
                e = f.connect_dir_edges(container, name, ns[:h], ns[h:])
                verify(ctx, e, container, name, [(n, IN if k < h else OUT, None, None) for k, n in enumerate(ns)],
                       before, "connect_dir_edges")
                ctx.count("connect_dir_edges")
            case 3:
                req = []
                for n, v in zip(ns, vs):
                    s = SemanticValueNode(new_uuid(rng), "s", "q", None, {"k": 1}) if rng.random() < 0.4 else None
                    ctx.count("with_semantics", s is not None)
                    req.append((n, rng.choice(DIRS), v, s))
                e = f.connect_tuple_nodes(container, name, req)
                verify(ctx, e, container, name, req, before, "connect_tuple_nodes")
                ctx.count("connect_tuple_nodes")
            case 4:
                e = f.connect_nodes(container, name, ns)
                verify(ctx, e, container, name, [(n, BI, None, None) for n in ns], before, "connect_nodes by default")
                ctx.count("connect_nodes")
            case 5:
                e = f.create_hyperedge(container, name)
                verify(ctx, e, container, name, [], before, "create_hyperedge")
                ctx.count("create_hyperedge")
                req = []
                for n, v in zip(ns, vs):
                    d = rng.choice(DIRS)
                    if rng.random() < 0.3:
                        e.unary_connect(n, v)
                        d = BI
                    else:
                        e.unary_connect(n, v, d)
                    req.append((n, d, v, None))
                    ctx.count("unary_connect")
                verify(ctx, e, container, name, req, before, "unary_connect")
        ctx.ok(e.uuid and all(e.uuid != x.uuid for x in nodes), "identity of the edge")
        # wrong number of values
        m = rng.choice([x for x in range(len(ns) + 3) if x != len(ns)])
        wrong = [vals[2]] * m
        n0 = container.cnt_subelements
        ctx.rejected(lambda: f.connect_nodes(container, name + "bad", ns, d0, wrong), "values not matching the nodes")
        ctx.rejected(lambda: f.connect_2factor_edges(container, name + "bad", ns[:h], ns[h:], (d0, d1), wrong),
                     "values not matching the nodes (split)")
        ctx.eq(container.cnt_subelements, n0, "elements in the container after the rejection")
    ctx.state(ctx.oplog)
    ctx.case(ctx.oplog)


@scenario("C09", quick=1200, thorough=3600)
def lists_and_values(ctx, rng, i):
    clock, f, nodes = setup(rng, rng.randrange(1, 8))
    parent = rng.choice(nodes + [None])
    names = [f"x{k}{rng.choice(['', 'ä', '.'])}" for k in range(rng.choice([0, 1, 5, 300]))]
    ctx.log("generate_list_nodes", len(names))
    n0 = parent.cnt_subelements if parent is not None else 0
    got = f.generate_list_nodes(names, parent)
    ctx.eq([g.id_name for g in got], names, "names of created nodes")
    for g in got:
        ctx.ok(g.parent is parent, "parent of created nodes")
        ctx.ok(isinstance(g, HypergraphNode), "kind of created nodes")
        ctx.ok(g.clock is clock, "clock of created nodes")
    if parent is not None:
        ctx.same(children(parent)[n0:], got, "created nodes in order")
    ctx.count("lists_of_nodes")
    for k in range(4):
        pool = rng.choice([[0, -1.5, "s", None, [1]], range(5), [0.25, 1e-9, -3.0, 1e300], [True, 1, 1.0]])
        src = [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 5, 30, 300]))]
        p = rng.choice(nodes + [None])
        given = rng.choice([src, None, tuple(src)])
        v = f.create_value(p, f"v{k}", given)
        ctx.log("create_value", given, "in", p.id_name if p is not None else None)
        ctx.eq(v.get_values(), list(given) if given is not None else [], "values of a created value")
        ctx.ok(v.parent is p, "parent of a created value")
        ctx.eq(v.dim, len(given) if given is not None else 0, "dimension of a created value")
        if p is not None:
            ctx.ok(any(x is v for x in p.sub_values), "a created value is in its container")
        ctx.count("values")
    from rei.hypergraph.sample_graphs.fano_graph import create_fano_graph
    _, n0, ns, es = create_fano_graph("fano" + str(i), clock)
    want = ["012", "234", "146", "036", "256", "135", "045"]
    ctx.eq(sorted("".join(sorted(x.id_name for x in e.induced_subset)) for e in n0.sub_edges), sorted(want),
           "lines of the sample graph")
    ctx.eq([n.id_name for n in n0.sub_nodes], list("0123456"), "points of the sample graph")
    ctx.case(ctx.oplog)
