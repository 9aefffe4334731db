from rv.core import scenario
from rv.history import World, OwnNode
from rei.format.semantics.CognitiveEntity import KinematicLink
from rv.lib import *
from rv import oracles

RULE = ("Random histories of insertions, moves and removals of subtrees, and chains up to 1500 levels whose parts are "
        "moved, detached and re-attached; non-trivial if an element with descendants was moved or removed; distinct "
        "by the operations.")
ASSUMPTIONS = ["names contain no separator"]
ANCHORS = ["foundations/conceptual_item.py"]
REQUIRED = ["op_add", "op_remove_uuid", "op_remove_both", "op_remove_name", "op_remove_partial", "op_add_elements",
            "op_remove_elements", "subtree_changes", "origins"]


def origins(ctx, seen, els):
    """Identifier, name and name of origin stay as they were when the element was seen first."""
    for e in els:
        got = (e.uuid, e.id_name, e.progenitor_qualified_name)
        kept = seen.setdefault(id(e), (e, got))[1]
        ctx.eq(got, kept, "identifier, name and name of origin")
    ctx.count("origins", len(els))


def observe(world, kind, touched):
    els = oracles.everything(world)
    oracles.names(world.ctx, els)
    origins(world.ctx, world.__dict__.setdefault("origins", {}), els)
    if any(t is not None and t.children for t in touched[1:2]):
        world.ctx.count("subtree_changes")
    world.ctx.state([m.obj.qualified_name for m in world.els])


@scenario("C02", quick=640, thorough=4000)
def random_history(ctx, rng, i):
    w = World(ctx, rng, clock=rng.choice([TickClock, FrozenClock])(), observer=observe,
              limit=rng.choice([8, 25, 60, 90]))
    w.history(rng.choice([30, 80, 140]), invalid=rng.choice([0.0, 0.1]))
    ctx.case(ctx.oplog)


@scenario("C02", quick=12, thorough=80)
def deep_subtrees(ctx, rng, i):
    n = rng.choice([200, 1100, 1500])
    clock = TickClock()
    f = HypergraphFactory("f", clock)
    roots = [f.generate_node(f"r{k}") for k in range(3)]
    chain = [roots[0]]
    kinds = [lambda: HypergraphNode(pick_name(rng), new_uuid(rng), "q", clock, None),
             lambda: HypergraphEdge(pick_name(rng), new_uuid(rng), "q", clock, None),
             lambda: SemanticValueNode(new_uuid(rng), pick_name(rng), "q", None, {}),
             lambda: ValueNode(new_uuid(rng), pick_name(rng), "q", [1])]
    for k in range(n):
        chain.append(rng.choice(kinds)() if rng.random() < 0.2 else kinds[0]())
    ctx.log("chain", n)
    top_down = rng.random() < 0.5
    pairs = list(zip(chain, chain[1:]))
    half = pairs if top_down else pairs[-40:][::-1] + pairs[:-40]
    for a, b in half:
        a.add_element(b)
    side = [HypergraphNode("s", new_uuid(rng), "q", clock, rng.choice(chain)) for _ in range(30)]
    els = roots + chain[1:] + side
    oracles.names(ctx, els)
    for _ in range(4):
        k = rng.randrange(1, n)
        e = chain[k]
        how = rng.randrange(4)
        ctx.log("move", k, how)
        ctx.count("subtree_changes")
        if how == 0:
            list(chain[k - 1].remove_element(uuid=e.uuid))
        elif how == 1 and e.id_name:
            list(chain[k - 1].remove_element(id_name=e.id_name, uuid=e.uuid))
        elif how == 2 and e.id_name:
            list(chain[k - 1].remove_element(id_name=e.id_name))
        oracles.names(ctx, els)
        roots[rng.randrange(1, 3)].add_element(e)
        oracles.names(ctx, els)
        chain[k - 1].add_element(e)
        oracles.names(ctx, els)
    ctx.state([c.depth for c in els])
    ctx.case(ctx.oplog)


@scenario("C02", quick=300, thorough=2000)
def created(ctx, rng, i):
    """What is given at creation is what is answered, then and after the element lived elsewhere."""
    clock = rng.choice([TickClock, FrozenClock])()
    tops = [HypergraphNode(f"t{k}", new_uuid(rng), "q", clock, None) for k in range(3)]
    tops += [HypergraphEdge(f"t{k}", new_uuid(rng), "q", clock, tops[0]) for k in range(2)]
    els, given = [], {}

    def made(e, uuid, name, origin):
        given[id(e)] = (e, (uuid, name, origin))
        els.append(e)

    for k in range(rng.choice([3, 12])):
        uuid, name, origin = new_uuid(rng), pick_name(rng), rng.choice(["", "q", "f/" + pick_name(rng) + ".7", "a/b/c", "ä.0"])
        at = rng.choice(tops + [x for x in els if isinstance(x, HypergraphNode)])
        kind = rng.randrange(8)
        ctx.log("create", kind, name, origin)
        if kind < 2:
            e = (HypergraphNode, HypergraphEdge)[kind](name, uuid, origin, clock, rng.choice([None, at]))
        elif kind == 2:
            e = ValueNode(uuid, name, origin, [1, 2])
        elif kind == 3:
            e = SemanticValueNode(uuid, name, origin, None, {"a": 1})
        elif kind == 4:
            e = HypergraphRelation(uuid, name, origin, rng.choice(tops[:3]), None, direction=rng.choice(DIRS))
            at = rng.choice(tops[3:])
        elif kind == 5:
            e = HypergraphPort(uuid, name, origin, rng.choice(tops))
        elif kind == 6:
            e = OwnNode(name, uuid, origin, clock, rng.choice([None, at]))
        else:
            e = KinematicLink(uuid, name, origin, None, {"name": name})
        made(e, uuid, name, origin)
        if e.parent is None and rng.random() < 0.7:
            at.add_element(e)
    every = tops + els
    for step in range(4):
        origins(ctx, given, els)
        oracles.names(ctx, every)
        e = rng.choice(els)
        if e.parent is not None and rng.random() < 0.5:
            ctx.log("remove", e.id_name)
            list(e.parent.remove_element(uuid=e.uuid))
        elif not isinstance(e, (HypergraphRelation, HypergraphPort)):
            at = rng.choice(tops)
            if at is not e.parent:
                ctx.log("move", e.id_name)
                at.add_element(e)
        ctx.count("subtree_changes")
    origins(ctx, given, els)
    oracles.names(ctx, every)
    ctx.state([c.qualified_name for c in els])
    ctx.case(ctx.oplog)


@scenario("C02", quick=150, thorough=1500)
def cousins(ctx, rng, i):
    """Subtrees move between places of the same depth, below paths which differ in few names."""
    clock = TickClock()
    f = HypergraphFactory("f", clock)
    depth = rng.choice([1, 3, 10, 40])
    els, ways = [], []
    differ = rng.randrange(depth)
    for k in range(3):
        p, way = None, []
        for d in range(depth):
            p = HypergraphNode(f"{'same' if d != differ else 'way' + str(k)}", new_uuid(rng), "q", clock, p)
            way.append(p)
        ways.append(way)
        els += way
    movable = []
    for k in range(rng.choice([1, 3])):
        below = [rng.choice(ways)[-1]]
        top = None
        for _ in range(rng.choice([1, 4, 30])):
            e = rng.choice([HypergraphNode, HypergraphEdge])(pick_name(rng), new_uuid(rng), "q", clock, rng.choice(below[-3:]))
            if top is None:
                top, below = e, []
            below.append(e)
            els.append(e)
        for x in range(rng.randrange(3)):
            v = ValueNode(new_uuid(rng), pick_name(rng), "q", [1])
            rng.choice(below).add_element(v)
            s = SemanticValueNode(new_uuid(rng), pick_name(rng), "q", None, {})
            rng.choice(below).add_element(s)
            els += [v, s]
        movable += [top, rng.choice(below)]
    oracles.names(ctx, els)
    for _ in range(12):
        e = rng.choice(movable)
        level = [w[min(len(w), max(1, e.depth)) - 1] for w in ways]
        to = rng.choice(level if rng.random() < 0.8 else rng.choice(ways))
        x = to
        while x is not None and x is not e:
            x = x.parent
        if x is e or to is e.parent:
            continue
        if rng.random() < 0.3 and e.parent is not None:
            e.deregister()
            oracles.names(ctx, els)
        ctx.log("move", e.id_name, e.depth, "to", to.depth)
        to.add_element(e)
        ctx.count("subtree_changes")
        oracles.names(ctx, els)
    ctx.state([c.qualified_name for c in els])
    ctx.case(ctx.oplog)


@scenario("C02", quick=10, thorough=60)
def wide_subtrees(ctx, rng, i):
    """A big bushy subtree moves between containers at different depths."""
    clock = TickClock()
    w = World(ctx, rng, clock=clock)
    els = [HypergraphNode(f"r{k}", new_uuid(rng), "q", clock, None) for k in range(2)]
    for k in range(rng.choice([50, 400])):
        p = rng.choice(els)
        els.append(rng.choice([HypergraphNode, HypergraphEdge])(pick_name(rng), new_uuid(rng), "q", clock, p))
    oracles.names(ctx, els)
    for _ in range(15):
        e, p = rng.choice(els[2:]), rng.choice(els)
        if e.parent is None or rng.random() < 0.7:
            x = p
            while x is not None and x is not e:
                x = x.parent
            if x is e or p is e.parent:
                continue
            ctx.log("move", e.id_name, p.id_name)
            p.add_element(e)
        else:
            ctx.log("deregister", e.id_name)
            e.deregister()
        ctx.count("subtree_changes")
        oracles.names(ctx, els)
        ctx.state([c.qualified_name for c in els])
    ctx.case(ctx.oplog)
