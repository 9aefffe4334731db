from rv.core import scenario, run, Violation
from rv.history import World
from rv.lib import *
from rv import oracles

RULE = ("Random histories in which a third of the operations is invalid (duplicates, insertion into itself or below "
        "itself at any distance, removal of what is not there or under another name, second connection, wrong number "
        "of values); every public observable of every element is compared before and after each of them, and the "
        "history goes on against the model; non-trivial if something was rejected; distinct by the operations.")
ASSUMPTIONS = ["names contain no separator", "removing by a name nobody has may also just hand back nothing"]
ANCHORS = ["foundations/conceptual_item.py", "hypergraph/base_elements.py", "factories/foundation_factory.py"]
REQUIRED = ["rejections", "rejected_add_ancestor", "rejected_add_again", "rejected_remove_missing_uuid",
            "rejected_remove_wrong_name", "rejected_remove_others_name", "rejected_remove_nothing",
            "rejected_unary_connect", "rejected_connect_wrong_values", "rejected_connect2_wrong_values",
            "rejected_factory_duplicate", "rejected_move_duplicate", "rejected_relation_conflict",
            "rejected_double_endpoint"]


def reject(world, desc, thunk, touched):
    ctx = world.ctx
    els = oracles.everything(world)
    before = oracles.snapshot(els)
    ctx.rejected(thunk, desc)
    ctx.count("rejected_" + desc.split(" ", 1)[0])
    oracles.same_snapshot(ctx, before, oracles.snapshot(oracles.everything(world)), "after the rejected " + desc)
    world.ctx.state((desc.split(" ")[0], world.shape()))


def observe(world, kind, touched):
    """The history after a rejection goes on as if it had not been there: order and ordinals as in the model."""
    for m in touched:
        if m is not None:
            world.ctx.same(children(m.obj), [c.obj for c in m.children], "contents after an operation", kind)
            if m.parent is not None:
                world.ctx.eq(m.obj.cid, m.cid, "ordinal after an operation", kind)


@scenario("C03", quick=960, thorough=4000)
def random_history(ctx, rng, i):
    w = World(ctx, rng, clock=rng.choice([TickClock, TickClock, FrozenClock])(), limit=rng.choice([8, 25, 60]),
              observer=observe)
    w.on_reject = reject
    w.history(rng.choice([40, 90, 150]), invalid=0.35)
    ctx.case(ctx.oplog, any("[invalid]" in o for o in ctx.oplog))


def guarded(ctx, els, what, thunk, kind, exc=Exception):
    ctx.log("[invalid]", what)
    before = oracles.snapshot(els())
    ctx.rejected(thunk, what, exc)
    ctx.count("rejected_" + kind)
    oracles.same_snapshot(ctx, before, oracles.snapshot(els()), "after the rejected " + what)


@scenario("C03", quick=360, thorough=1500)
def factory_rejections(ctx, rng, i):
    """A frozen clock gives the same identities again: creating twice is rejected; wrong values; double members."""
    clock = rng.choice([FrozenClock, DummyClock])()
    f = HypergraphFactory("f", clock)
    s = CognitiveEntitySemanticFactory("s", clock)
    roots = [f.generate_node(f"root{k}") for k in range(2)]
    nodes = list(roots)
    for k in range(rng.randrange(3, 9)):
        nodes.append(f.generate_node(f"n{k}", rng.choice(nodes)))
    edges = [f.connect_nodes(rng.choice(nodes), f"e{k}", rng.sample(nodes, rng.randrange(1, 4)))
             for k in range(rng.randrange(1, 4))]
    vals = [f.create_value(rng.choice(nodes), f"v{k}", [1.0]) for k in range(3)]
    sems = [s.generate_semantic_element("kinematic_link", f"s{k}", rng.choice(nodes), {"name": "s"}) for k in range(3)]
    loose = HypergraphRelation(new_uuid(rng), "loose", "q", nodes[2], None)
    known = roots + nodes + edges + vals + sems + [loose]

    class Els:
        els = [type("E", (), {"obj": o}) for o in known]

    els = lambda: oracles.everything(Els)
    for _ in range(14):
        match rng.randrange(11):
            case 0:
                n = rng.choice(nodes[2:])
                guarded(ctx, els, f"generate_node {n.id_name} again", lambda: f.generate_node(n.id_name, n.parent),
                        "factory_duplicate")
            case 1:
                e = rng.choice(edges)
                guarded(ctx, els, f"connect_nodes {e.id_name} again",
                        lambda: f.connect_nodes(e.parent, e.id_name, rng.sample(nodes, 2)), "factory_duplicate")
            case 2:
                e = rng.choice(edges)
                guarded(ctx, els, f"create_hyperedge {e.id_name} again",
                        lambda: f.create_hyperedge(e.parent, e.id_name), "factory_duplicate")
            case 3:
                v = rng.choice(vals)
                guarded(ctx, els, f"create_value {v.id_name} again",
                        lambda: f.create_value(v.parent, v.id_name, [2.0]), "factory_duplicate")
            case 4:
                v = rng.choice(sems)
                guarded(ctx, els, f"semantic element {v.id_name} again", lambda: s.generate_semantic_element(
                    "kinematic_link", v.id_name, v.parent, {"name": "x"}), "factory_duplicate")
            case 5:
                # a copy (same identity) elsewhere moves to where the original is
                n = rng.choice(nodes[2:])
                home = HypergraphNode("home", new_uuid(rng), "q", clock, None)
                copy = HypergraphNode(n.id_name, n.uuid, "q", clock, home)
                HypergraphNode("inner", new_uuid(rng), "q", clock, copy)
                Els.els.append(type("E", (), {"obj": home}))
                guarded(ctx, els, f"move of a copy of {n.id_name}", lambda: n.parent.add_element(copy),
                        "move_duplicate")
            case 6:
                e = rng.choice(edges)
                r = rng.choice(list(e.sub_relations))
                other = rng.choice(edges)
                twin = HypergraphRelation(r.uuid, "twin", "q", r.endpoint, None,
                                          direction=rng.choice(DIRS))
                Els.els.append(type("E", (), {"obj": twin}))
                guarded(ctx, els, f"relation of another one's identity to {other.id_name}",
                        lambda: other.add_element(twin), "relation_conflict")
            case 7:
                e = rng.choice(edges)
                ep = rng.choice(list(e.induced_subset))
                sv = SemanticValueNode(new_uuid(rng), "sv", "q", None, {"a": 1})
                Els.els.append(type("E", (), {"obj": sv}))
                guarded(ctx, els, f"second connection of {e.id_name}",
                        lambda: e.unary_connect(ep, rng.choice(vals), rng.choice(DIRS), sv), "unary_connect")
            case 8:
                k, m = rng.randrange(4), rng.randrange(6)
                ns = rng.sample(nodes, k)
                if k != m:
                    guarded(ctx, els, f"connect_nodes {k} nodes {m} values", lambda: f.connect_nodes(
                        rng.choice(nodes), "bad", ns, rng.choice(DIRS), [vals[x % 3] for x in range(m)]), "values",
                        ErrorInsufficientValues)
                    h = rng.randrange(k + 1)
                    guarded(ctx, els, f"connect_2factor {k} nodes {m} values", lambda: f.connect_2factor_edges(
                        rng.choice(nodes), "bad", ns[:h], ns[h:], (IN, OUT), [vals[x % 3] for x in range(m)]),
                        "values", ErrorInsufficientValues)
            case 10:
                # the same endpoint twice in one list, in two lists
                ns = rng.sample(nodes, rng.randrange(1, len(nodes) + 1))
                double = list(ns)
                double.insert(rng.randrange(len(ns) + 1), rng.choice(ns))
                h = rng.randrange(len(double) + 1)
                p = rng.choice(nodes)
                vs = [rng.choice(vals) for _ in double]
                for what, thunk in (
                        ("connect_nodes", lambda: f.connect_nodes(p, "bad", double, rng.choice(DIRS))),
                        ("connect_nodes with values", lambda: f.connect_nodes(p, "bad", double, BI, vs)),
                        ("connect_2factor_edges", lambda: f.connect_2factor_edges(
                            p, "bad", double[:h], double[h:], (rng.choice(DIRS), rng.choice(DIRS)), vs)),
                        ("connect_dir_edges", lambda: f.connect_dir_edges(p, "bad", double[:h], double[h:])),
                        ("connect_tuple_nodes", lambda: f.connect_tuple_nodes(
                            p, "bad", [(n, rng.choice(DIRS), None, None) for n in double]))):
                    guarded(ctx, els, f"{what} with an endpoint given twice", thunk, "double_endpoint",
                            ErrorDuplicateElement)
            case 9:
                p = rng.choice(nodes)
                if rng.random() < 0.5:
                    guarded(ctx, els, "semantic element without attributes", lambda: s.generate_semantic_element(
                        "kinematic_link", "x", p, {}), "semantic", ErrorInsufficientValues)
                else:
                    guarded(ctx, els, "semantic element of unknown type", lambda: s.generate_semantic_element(
                        "no_such_type", "x", p, {"a": 1}), "semantic")
    # the names which were rejected remain usable
    for p in nodes:
        n = p.cnt_subelements
        x = f.generate_node("bad", p)
        ctx.eq(p.cnt_subelements, n + 1, "count after the rejections")
        ctx.ok(x.parent is p, "parent after the rejections")
    ctx.state([c.qualified_name for c in els()])
    ctx.case(ctx.oplog)


@scenario("C03", quick=120, thorough=800)
def error_types(ctx, rng, i):
    """The documented errors, and removal by absent names."""
    clock = TickClock()
    f = HypergraphFactory("f", clock)
    root = f.generate_node("root")
    chain = [root]
    for k in range(rng.randrange(1, 30)):
        cls = rng.choice([HypergraphNode, HypergraphEdge])
        chain.append(cls(f"c{k}", new_uuid(rng), "q", clock, chain[-1]))
    class Els:
        els = [type("E", (), {"obj": root})]
    els = lambda: oracles.everything(Els)
    a, b = sorted(rng.sample(range(len(chain)), 2))
    guarded(ctx, els, f"ancestor {a} below {b}", lambda: chain[b].add_element(chain[a]), "add_ancestor",
            ErrorRecursiveHierarchy)
    guarded(ctx, els, f"{a} into itself", lambda: chain[a].add_element(chain[a]), "add_ancestor",
            ErrorRecursiveHierarchy)
    guarded(ctx, els, f"{b} again", lambda: chain[b - 1].add_element(chain[b]), "add_again", ErrorDuplicateElement)
    guarded(ctx, els, "remove nothing", lambda: list(chain[a].remove_element()), "remove_nothing", ErrorInvalidQuery)
    guarded(ctx, els, "remove missing", lambda: list(chain[a].remove_element(uuid=b"none")), "remove_missing_uuid",
            KeyError)
    guarded(ctx, els, "element without clock", lambda: HypergraphNode("x", b"x", "q", None, chain[a]), "no_clock",
            ErrorClockNotSet)
    before = oracles.snapshot(els())
    ctx.log("[invalid] remove by a name nobody has")
    try:
        ctx.eq(list(chain[a].remove_element(id_name="nobody")), [], "handed back for a name nobody has")
    except KeyError:
        pass
    oracles.same_snapshot(ctx, before, oracles.snapshot(els()), "after removal by a name nobody has")
    # bulk: the rejected one changes nothing, the ones before it took effect
    good = [HypergraphNode(f"g{k}", new_uuid(rng), "q", clock, None) for k in range(3)]
    n = chain[a].cnt_subelements
    ctx.log("[invalid] bulk with a duplicate")
    ctx.rejected(lambda: run(chain[a].add_elements([good[0], good[1], good[0], good[2]])), "bulk with a duplicate",
                 ErrorDuplicateElement)
    ctx.eq(chain[a].cnt_subelements, n + 2, "count after the rejected bulk operation")
    ctx.ok(good[2].parent is None, "element after the rejected one was not inserted")
    ctx.state([c.qualified_name for c in els()])
    ctx.case(ctx.oplog)
