from rv.core import scenario
from rv.history import World
from rv.lib import *

RULE = ("Random histories over few names (many siblings share a name); after each operation the touched containers, "
        "and at the end all of them, are asked for all present and several absent names, paths, identifiers and typed "
        "views, compared with the model in the order of insertion; non-trivial if some name was shared by siblings.")
ASSUMPTIONS = ["names contain no separator", "paths lead through elements which can be searched by name"]
ANCHORS = ["foundations/conceptual_item.py", "hypergraph/base_elements.py"]
REQUIRED = ["shared_names", "path_lookups", "absent_lookups", "identifier_lookups", "views"]

SEARCHABLE = ("node", "edge")


def path_lookup(m, tokens):
    for c in m.children:
        if c.name == tokens[0]:
            if len(tokens) == 1:
                yield c
            elif c.kind in SEARCHABLE:
                yield from path_lookup(c, tokens[1:])


def compare(ctx, rng, m):
    by_name = {}
    for c in m.children:
        by_name.setdefault(c.name, []).append(c)
    ctx.same(children(m.obj), [c.obj for c in m.children], "elements in the order of insertion")
    if m.kind in SEARCHABLE:
        for name, cs in by_name.items():
            if "/" in name:
                continue
            ctx.same(m.obj.get_element_by_id_name(name), [c.obj for c in cs], "look-up by name", name)
            if len(cs) > 1:
                ctx.count("shared_names")
        absent = rng.choice(["nobody", "", "a", "zz", "n0.port"])
        if absent not in by_name:
            ctx.same(m.obj.get_element_by_id_name(absent), [], "look-up of an absent name", absent)
            ctx.count("absent_lookups")
        # paths
        for _ in range(3):
            x, tokens = m, []
            while x.children and len(tokens) < 5 and (not tokens or rng.random() < 0.8):
                x = rng.choice(x.children)
                if "/" in x.name:
                    break
                tokens.append(x.name)
            if len(tokens) > 1:
                if rng.random() < 0.15:
                    tokens[rng.randrange(len(tokens))] = "nobody"
                ctx.same(m.obj.get_element_by_id_name("/".join(tokens)), [c.obj for c in path_lookup(m, tokens)],
                         "look-up by path", tokens)
                ctx.count("path_lookups")
        ctx.same(m.obj.get_element_by_id_name("nobody/a"), [], "look-up of an absent path")
    kind = lambda *k: [c.obj for c in m.children if c.kind in k]
    if m.kind == "node":
        ctx.same(m.obj.sub_nodes, kind("node"), "view of nodes")
        ctx.same(m.obj.sub_edges, kind("edge"), "view of edges")
        ctx.same(m.obj.sub_values, kind("value"), "view of values")
        for c in m.children:
            ctx.ok(m.obj[c.uuid] is c.obj, "access by identifier")
            ctx.count("identifier_lookups")
    if m.kind in ("node", "edge"):
        ctx.same(m.obj.sub_ports, kind("port"), "view of ports")
    if m.kind == "edge":
        rels = [c for c in m.children if c.kind == "rel"]
        ctx.same(m.obj.sub_relations, [r.obj for r in rels], "view of relations")
        ctx.same(m.obj.induced_subset, [r.endpoint.obj for r in rels], "view of members")
        ctx.same(m.obj.get_incoming_relations(), [r.obj for r in rels if r.obj.direction in (IN, BI)], "incoming")
        ctx.same(m.obj.get_outgoing_relations(), [r.obj for r in rels if r.obj.direction in (OUT, BI)], "outgoing")
    for cls in (HypergraphElement, ValueNode, HypergraphPort):
        ctx.same(m.obj.get_subelements(lambda x: isinstance(x, cls)),
                 [c.obj for c in m.children if isinstance(c.obj, cls)], "filtered elements")
    ctx.same(m.obj.get_subelements(lambda x: x.cid % 3), [c.obj for c in m.children if c.obj.cid % 3],
             "elements filtered by a condition which answers a number")
    ctx.same(m.obj.get_subelements(lambda x: x.id_name), [c.obj for c in m.children if c.obj.id_name],
             "elements filtered by a condition which answers a text")
    ctx.count("views")


def observe(world, kind, touched):
    for m in touched:
        if m is not None:
            compare(world.ctx, world.rng_q, m)
            if m.parent is not None:
                compare(world.ctx, world.rng_q, m.parent)


@scenario("C04", quick=960, thorough=4000)
def random_history(ctx, rng, i):
    w = World(ctx, rng, clock=rng.choice([TickClock, TickClock, FrozenClock])(), observer=observe,
              limit=rng.choice([10, 40, 80]))
    w.rng_q = __import__("random").Random(rng.random())
    if w.history(rng.choice([40, 90, 140]), invalid=rng.choice([0, 0.1])):
        for m in w.els:
            compare(ctx, rng, m)
    ctx.state(w.shape())
    ctx.case(ctx.oplog)


@scenario("C04", quick=60, thorough=200)
def many_of_a_name(ctx, rng, i):
    """Hundreds of elements of few names and kinds in one container, removed and re-inserted in random order."""
    clock = TickClock()
    w = World(ctx, rng, clock=clock, limit=10000)
    w.new_node(None, "root")
    root = w.els[0]
    for _ in range(rng.choice([1, 40, 400])):
        match rng.randrange(3):
            case 0: w.new_node(root, rng.choice("ab"))
            case 1: w.new_edge(root, rng.choice("ab"))
            case 2: w.new_value(root, rng.choice("ab"))
    out = []
    for _ in range(60):
        if out and rng.random() < 0.4:
            w.add(root, out.pop(rng.randrange(len(out))))
        else:
            before = [m for m in w.els if m.parent is root]
            w.remove()
            out.extend(m for m in before if m.parent is not root)
        compare(ctx, rng, root)
    ctx.state([m.cid for m in root.children])
    ctx.case(ctx.oplog)


@scenario("C04", quick=24, thorough=100)
def many_members(ctx, rng, i):
    """Edges with up to hundreds of relations, nodes in up to hundreds of edges; partly removed and put back."""
    w = World(ctx, rng, clock=TickClock(), limit=10000)
    w.shared_identities = 0
    root = w.new_node(None, "root")
    n = rng.choice([3, 40, 260])
    hubs = [w.new_node(root, "hub") for _ in range(2)]
    nodes = hubs + [w.new_node(root, rng.choice("abc")) for _ in range(n)]
    edges = [w.new_edge(root, rng.choice("ab")) for _ in range(3)]
    for e in edges[:2]:
        for m in rng.sample(nodes, len(nodes)):
            w.connect(e, m)
    for k in range(n):
        w.connect(w.new_edge(rng.choice(nodes), "e"), hubs[0])
    for _ in range(6):
        e = rng.choice(edges)
        rels = [c for c in e.children if c.kind == "rel"]
        out = rng.sample(rels, min(n // 3, len(rels)))
        for r in out:
            w.do(f"remove {r.label}", lambda: list(e.obj.remove_element(uuid=r.uuid)), True,
                 lambda got: w._removed(e, [r], got))
        for r in rng.sample(out, len(out)):
            w.add(rng.choice(edges), r)
        for m in edges + hubs:
            compare(ctx, rng, m)
    ctx.maximum("largest_edge", max(len(e.children) for e in edges))
    ctx.state([[c.label for c in e.children] for e in edges])
    ctx.case(ctx.oplog)


@scenario("C04", quick=6, thorough=40)
def long_paths(ctx, rng, i):
    clock = TickClock()
    root = x = HypergraphNode("r", new_uuid(rng), "q", clock, None)
    names = []
    n = rng.choice([2, 30, 150])
    for k in range(n):
        names.append(rng.choice("ab"))
        y = HypergraphNode(names[-1], new_uuid(rng), "q", clock, x)
        HypergraphNode(rng.choice("ab"), new_uuid(rng), "q", clock, x)   # a sibling which may share the name
        x = y
    ctx.log("path", n)
    got = list(root.get_element_by_id_name("/".join(names)))
    ctx.ok(any(g is x for g in got), "look-up by a long path finds the element")
    for g in got:
        ctx.eq(names_path(g), ["r"] + names, "element found by a long path")
    ctx.count("path_lookups")
    ctx.case(ctx.oplog)
