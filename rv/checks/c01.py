from rv.core import scenario
from rv.history import World, Desync
from rv.lib import *
from rv import oracles

RULE = ("Random histories (up to 140 operations each, over up to ~150 elements of all kinds) of insertions, moves, "
        "removals (also lazily and partially consumed), bulk and invalid operations, and deep chains with moves; a "
        "history is non-trivial if at least one move or removal of an element took effect; distinct by its operations.")
ASSUMPTIONS = ["names contain no separator", "ports are only created and removed through relations",
               "relations contain semantic values only"]
ANCHORS = ["foundations/conceptual_item.py", "hypergraph/base_elements.py"]
REQUIRED = ["op_add", "op_register", "op_remove_uuid", "op_remove_both", "op_remove_name", "op_remove_partial",
            "op_add_elements", "op_remove_elements", "op_deregister", "op_add_ancestor_invalid"]


def observe(world, kind, touched):
    ctx = world.ctx
    els = oracles.everything(world)
    oracles.forest(ctx, els)
    if kind != "accepted_invalid":
        oracles.contents(ctx, world)
    ctx.state(world.shape())


@scenario("C01", quick=640, thorough=4000)
def random_history(ctx, rng, i):
    w = World(ctx, rng, clock=rng.choice([TickClock, TickClock, FrozenClock])(), observer=observe,
              limit=rng.choice([8, 25, 60, 90]))
    w.history(rng.choice([30, 80, 140]), invalid=rng.choice([0.0, 0.1, 0.3]))
    moved = sum(v for k, v in ctx.counters.items() if k in ("op_add", "op_remove_uuid"))
    ctx.case(ctx.oplog, moved > 0)


@scenario("C01", quick=800, thorough=4000)
def few_names(ctx, rng, i):
    """One container, two names, all kinds of removal in turn."""
    w = World(ctx, rng, observer=observe)
    w.few = True
    w.new_node(None, "root")
    w.new_node(None, "other")
    root, other = w.els
    for _ in range(rng.choice([3, 6, 10])):
        rng.choice([w.new_node, w.new_value, w.new_edge])(root, rng.choice("ab"))
    try:
        for _ in range(rng.choice([10, 30])):
            out = [m for m in w.els if m.parent is not root and m not in (root, other) and m.kind != "port"]
            if out and rng.random() < 0.4:
                w.add(rng.choice([root, root, other]), rng.choice(out))
            else:
                w.remove()
    except Desync as d:
        ctx.log("DESYNC", d)
    ctx.case(ctx.oplog)


@scenario("C01", quick=12, thorough=80)
def deep_and_wide(ctx, rng, i):
    """Chains deeper than the recursion limit, wide containers: moved, detached and taken apart."""
    n = rng.choice([300, 1200, 1500])
    clock = TickClock()
    f = HypergraphFactory("f", clock)
    roots = [f.generate_node(f"r{k}") for k in range(2)]
    chain = [roots[0]]
    ctx.log("chain", n)
    for k in range(n):
        chain.append(HypergraphNode(f"n{k % 7}", new_uuid(rng), "q", clock, None))
    # bottom-up and top-down building
    if rng.random() < 0.5:
        for a, b in zip(chain, chain[1:]):
            a.add_element(b)
    else:
        for a, b in list(zip(chain, chain[1:]))[::-1][:60]:
            a.add_element(b)
        for a, b in list(zip(chain, chain[1:]))[:-60]:
            a.add_element(b)
    els = roots + chain[1:]
    oracles.forest(ctx, els)
    for _ in range(3):
        k = rng.randrange(1, n)
        ctx.log("move", k)
        roots[1].add_element(chain[k])
        oracles.forest(ctx, els)
        ctx.rejected(lambda: chain[-1].add_element(chain[k]), "an element inserted far below itself")
        oracles.forest(ctx, els)
        ctx.log("detach", k)
        ctx.same(roots[1].remove_element(uuid=chain[k].uuid), [chain[k]], "handed back by the removal")
        oracles.forest(ctx, els)
        chain[k - 1].add_element(chain[k])
    # wide, with shared names; taken apart by name
    kids = [HypergraphNode(f"w{k % 5}", new_uuid(rng), "q", clock, roots[1]) for k in range(700)]
    els += kids
    oracles.forest(ctx, els)
    for k in rng.sample(range(5), 5):
        ctx.log("remove_name", f"w{k}")
        got = list(roots[1].remove_element(id_name=f"w{k}"))
        ctx.same(got, [x for x in kids if x.id_name == f"w{k}"], "handed back by the removal by name")
        oracles.forest(ctx, els)
    ctx.eq(roots[1].cnt_subelements, 0, "count after taking all out")
    ctx.state(("deep", n, [c.depth for c in chain]))
    ctx.case(ctx.oplog)
