from rv.core import scenario
from rv.history import World
from rv.lib import *
from rv import oracles

RULE = ("Random histories dominated by connecting, removing and moving relations, edges and endpoints; after each "
        "operation every relation and every port of all elements are matched against each other; non-trivial if a "
        "relation was removed or moved; distinct by the operations.")
ASSUMPTIONS = ["ports are only created and removed through relations", "relations contain semantic values only"]
ANCHORS = ["hypergraph/base_elements.py"]
REQUIRED = ["relations_observed", "ports_observed", "op_unary_connect", "op_factory_connect", "op_move_relation",
            "op_remove_relation", "op_new_relation"]


def observe(world, kind, touched):
    ctx = world.ctx
    els = oracles.everything(world)
    # relations which are contained nowhere are known to the workload, too
    oracles.connections(ctx, els)
    if kind != "accepted_invalid":
        for m in world.els:
            if m.kind == "edge":
                ctx.same(m.obj.sub_relations, [c.obj for c in m.children if c.kind == "rel"],
                         "relations of an edge", m.label)
                ctx.same(m.obj.induced_subset, [c.endpoint.obj for c in m.children if c.kind == "rel"],
                         "members of an edge", m.label)
    ctx.state([(m.label, [c.label for c in m.children if c.kind in ("rel", "port")]) for m in world.els])


class RelWorld(World):
    def move_relation(self):
        r = self.some(("rel",))
        e = self.some(("edge",))
        if r is None or e is None:
            return
        self.ctx.count("op_move_relation")
        self.add(e if self.rng.random() < 0.9 else self.some(("node",)), r)

    def remove_relation(self):
        r = self.some(("rel",), lambda m: m.parent is not None)
        if r is None:
            return
        P = r.parent
        how = self.rng.randrange(3)
        self.ctx.count("op_remove_relation")
        kw = [dict(uuid=r.uuid), dict(id_name=r.name, uuid=r.uuid), dict(id_name=r.name)][how]
        if r.name == "":
            kw = dict(uuid=r.uuid)
        gone = [r] if "uuid" in kw else [c for c in P.children if c.name == r.name]
        if any(c.kind == "port" for c in gone):
            return
        self.do(f"remove_relation {r.label} {how}", lambda: list(P.obj.remove_element(**kw)), True,
                lambda got: self._removed(P, gone, got), (P, r, r.endpoint))

    def step(self, invalid=0.08):
        x = self.rng.random()
        if x < 0.25:
            return self.connect()
        if x < 0.4:
            return self.move_relation()
        if x < 0.55:
            return self.remove_relation()
        return super().step(invalid)


@scenario("C08", quick=450, thorough=6000)
def random_history(ctx, rng, i):
    w = RelWorld(ctx, rng, clock=rng.choice([TickClock, FrozenClock])(), observer=observe,
                 limit=rng.choice([10, 30, 60]))
    w.history(rng.choice([40, 90, 140]), invalid=rng.choice([0, 0.1]))
    ctx.case(ctx.oplog, any(o.startswith(("remove_relation", "add rel")) for o in ctx.oplog))


@scenario("C08", quick=90, thorough=800)
def shared_members(ctx, rng, i):
    """Many edges over the same members in several graphs; taken apart in random order by all ways of removal."""
    number = rng.choice([1, 6, 20])
    alike = rng.random() < 0.5          # edges (and thus relations and ports) of the same name at the same instant
    clock = FrozenClock() if alike else TickClock()
    f = HypergraphFactory("f", clock)
    graphs = [f.generate_node(f"g{k}") for k in range(number if alike else 2)]
    nodes = f.generate_list_nodes([f"n{k}" for k in range(rng.choice([1, 5, 40]))], graphs[0])
    edges = []
    for k in range(number):
        ms = rng.sample(nodes, rng.randrange(len(nodes) + 1))
        h = rng.randrange(len(ms) + 1)
        g, name = (graphs[k], "e") if alike else (rng.choice(graphs), f"e{k}")
        edges.append(rng.choice([lambda: f.connect_nodes(g, name, ms, rng.choice(DIRS)),
                                 lambda: f.connect_dir_edges(g, name, ms[:h], ms[h:])])())
    els = graphs + nodes + edges
    loose = []
    conn = [(e, r) for e in edges for r in e.sub_relations]
    rng.shuffle(conn)
    for e, r in conn:
        ctx.log("detach", r.id_name)
        match rng.randrange(5):
            case 0: list(e.remove_element(uuid=r.uuid))
            case 1: list(e.remove_element(id_name=r.id_name, uuid=r.uuid))
            case 2:
                if r.parent is e:       # one of the same name can have been removed with another one
                    list(e.remove_element(id_name=r.id_name))
            case 3:     # into another container which is no edge
                rng.choice(graphs).add_element(r)
            case 4:     # to another edge, unless that edge has this member with this identity
                o = rng.choice(edges)
                if o is not e:
                    o.add_element(r)
        oracles.connections(ctx, els + [r for _, r in conn])
        if r.parent is None and rng.random() < 0.5:
            ctx.log("attach again")
            e.add_element(r)
            oracles.connections(ctx, els + [r for _, r in conn])
    # endpoints and edges leave their containers: connections stay in step
    for x in rng.sample(nodes + edges, min(6, len(nodes + edges))):
        x.deregister()
        oracles.connections(ctx, els + [r for _, r in conn])
    ctx.count("op_remove_relation", len(conn))
    ctx.state([len(list(n.sub_ports)) for n in nodes])
    ctx.case(ctx.oplog)


@scenario("C08", quick=90, thorough=600)
def incidence_and_ports(ctx, rng, i):
    """What is handed out cannot alter a relation; disconnecting and connecting by hand."""
    clock = TickClock()
    f = HypergraphFactory("f", clock)
    g = f.generate_node("g")
    nodes = f.generate_list_nodes([f"n{k}" for k in range(rng.randrange(1, 9))], g)
    dirs = [rng.choice(DIRS) for _ in nodes]
    e = f.connect_tuple_nodes(g, "e", [(n, d, None, None) for n, d in zip(nodes, dirs)])
    rels = list(e.sub_relations)
    ctx.eq([r.direction for r in rels], dirs, "directions of the relations")
    for r in rels:
        ctx.log("incidence", r.direction.name)
        v = r.relation_incidence_value
        try:
            v[:] = rng.choice([0.0, 5.0])
        except (TypeError, ValueError):
            pass                                   # nothing which could be altered was handed out
        oracles.incidence(ctx, r)
        n = r.endpoint
        ctx.ok(n.is_connected(r), "an endpoint is connected to its relation")
        n.disconnect(r)
        ctx.eq([p for p in n.sub_ports if p.endpoint is r], [], "ports after disconnecting")
        ctx.ok(not n.is_connected(r), "an endpoint is not connected after disconnecting")
        n.connect(r)
        oracles.connections(ctx, [g, e, *nodes, *rels])
        other = rng.choice(nodes)
        ctx.eq(other.is_connected(r), other is n, "connection to the relation of another endpoint")
    ctx.case(ctx.oplog)
