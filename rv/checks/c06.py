from rv.core import scenario, run
from rv.history import World, Desync
from rv.lib import *
from rv import oracles

RULE = ("Twin graphs grow by the same random history; then lists of elements (empty, one-shot, views of a container, with duplicates and "
        "rejected operations at any position, of all kinds) are added or removed in bulk in one and one by one in the "
        "other; all observables, errors and elements handed back are compared; non-trivial if the list was not empty.")
ASSUMPTIONS = ["names contain no separator"]
ANCHORS = ["foundations/conceptual_item.py", "hypergraph/base_elements.py"]
REQUIRED = ["bulk_add", "bulk_remove", "bulk_add_rejected", "bulk_remove_rejected", "bulk_empty", "bulk_relations",
            "bulk_views"]


def normal(w):
    pos = {id(m.obj): i for i, m in enumerate(w.els)}
    key = lambda o: pos.get(id(o), -1) if not isinstance(o, HypergraphPort) else ("port", pos.get(id(o.parent), -1),
                                                                                 pos.get(id(o.endpoint), -1))
    out = []
    for m in w.els:
        o = m.obj
        if isinstance(o, HypergraphPort):
            continue
        d = [key(o.parent) if o.parent is not None else None, [key(c) for c in children(o)], o.id_name, o.uuid,
             o.qualified_name, o.depth, o.cid]
        if isinstance(o, ConceptualItem):
            d.append(o.cnt_subelements)
            d.append([[key(x) for x in o.get_element_by_id_name(c.id_name)] for c in children(o)])
        if isinstance(o, HypergraphEdge):
            d.append([key(r) for r in o.sub_relations])
            d.append([key(r) for r in o.induced_subset])
        if isinstance(o, HypergraphElement):
            d.append([key(p) for p in o.sub_ports])
        if isinstance(o, HypergraphRelation):
            d.append(o.endpoint.is_connected(o))
        out.append(d)
    return out


def attempt(fn):
    try:
        return None, fn()
    except Exception as e:
        return type(e).__name__, None


def pair(ctx, seed, limit):
    import random
    ws = [World(_Quiet(ctx), random.Random(seed), limit=limit) for _ in range(2)]
    return ws


class _Quiet:
    """The history before is not what is monitored here."""

    def __init__(self, ctx):
        self.prop, self.ctx = "C06", ctx
        self.log = self.count = self.state = lambda *a: None


@scenario("C06", quick=2400, thorough=8000)
def twins(ctx, rng, i):
    seed = rng.random()
    A, B = pair(ctx, seed, rng.choice([10, 30, 60]))
    steps = rng.choice([20, 60, 100])
    if not (A.history(steps, 0) and B.history(steps, 0)):
        ctx.log("the history before went wrong")
        return
    if normal(A) != normal(B):
        raise Desync("twins differ before")
    for _ in range(6):
        n = len(A.els)
        idx = [k for k in range(n) if A.els[k].kind != "port"]
        P = rng.choice([k for k in idx if A.els[k].kind in ("node", "edge")] or [0])
        a, b = A.els[P].obj, B.els[P].obj
        oneshot = rng.random() < 0.5
        view = rng.random() < 0.15            # a view of a container which changes meanwhile
        wrap = (lambda it: iter(list(it))) if oneshot else (lambda it: it) if view else list
        if rng.random() < 0.5:
            if A.els[P].kind == "edge":
                pool = [k for k in idx if A.els[k].kind in ("rel", "rel", "value", "sem")] or idx
            else:
                pool = [k for k in idx if A.els[k].kind in ("node", "edge", "value", "sem")]
            sel = [rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 8]))]
            if rng.random() < 0.6:       # mostly valid: free, distinct ones first
                sel = list(dict.fromkeys(k for k in sel if A.els[k].obj.parent is not a and k != P))
            given = lambda: wrap(A.els[k].obj for k in sel)
            if view:
                kind = rng.choice([HypergraphNode, HypergraphEdge, HypergraphRelation, ValueNode])
                kind, src = rng.choice([(kind, A.els[k].obj) for k in idx if any(
                    isinstance(c, kind) for c in children(A.els[k].obj))] or [(kind, A.els[0].obj)])
                at = {id(m.obj): k for k, m in enumerate(A.els)}
                sel = [at[id(c)] for c in children(src) if isinstance(c, kind)]
                given = lambda: src.get_subelements(lambda x: isinstance(x, kind))
                ctx.count("bulk_views", bool(sel))
            ctx.log("bulk_add", P, sel, "one-shot" if oneshot else "view" if view else "list")
            ra = attempt(lambda: run(a.add_elements(given())))
            rb = attempt(lambda: [b.add_element(B.els[k].obj) for k in sel] and None)
            ctx.eq(ra[0], rb[0], "error of adding in bulk", sel)
            ctx.count("bulk_add")
            ctx.count("bulk_add_rejected", ra[0] is not None)
            ctx.count("bulk_relations", any(A.els[k].kind == "rel" for k in sel))
        else:
            pos = {id(m.obj): k for k, m in enumerate(A.els)}
            posb = {id(m.obj): k for k, m in enumerate(B.els)}
            kids = [pos[id(c)] for c in children(a) if not isinstance(c, HypergraphPort) and id(c) in pos]
            sel = [rng.choice(kids) for _ in range(rng.choice([0, 1, 3, 6]))] if kids else []
            if rng.random() < 0.6:
                sel = list(dict.fromkeys(sel))
            q = []
            for k in sel:
                o = A.els[k].obj
                q.append(rng.choice([("", o.uuid), (o.id_name, o.uuid), (o.id_name, None) if o.id_name else
                                     ("", o.uuid)]))
            if rng.random() < 0.2:
                q.insert(rng.randrange(len(q) + 1), rng.choice([("", None), ("", b"none"), ("nobody", b"none")]))
            given = lambda: wrap(q)
            if view:
                kind = rng.choice([HypergraphNode, HypergraphEdge, HypergraphRelation, ValueNode])
                q = [("", c.uuid) for c in children(a) if isinstance(c, kind)]
                sel = [pos[id(c)] for c in children(a) if isinstance(c, kind)]
                given = lambda: (("", c.uuid) for c in a.get_subelements(lambda x: isinstance(x, kind)))
                ctx.count("bulk_views", bool(sel))
            ctx.log("bulk_remove", P, q, "one-shot" if oneshot else "view" if view else "list")
            ra = attempt(lambda: run(a.remove_elements(given())))
            rb = attempt(lambda: [x for e in q for x in b.remove_element(e[0], e[1])])
            ctx.eq(ra[0], rb[0], "error of removing in bulk", q)
            if ra[0] is None:
                ctx.eq([pos.get(id(x)) for x in ra[1]], [posb.get(id(x)) for x in rb[1]],
                       "elements handed back by removing in bulk")
            ctx.count("bulk_remove")
            ctx.count("bulk_remove_rejected", ra[0] is not None)
            ctx.count("bulk_relations", any(A.els[k].kind == "rel" for k in sel))
        ctx.count("bulk_empty", not sel)
        na, nb = normal(A), normal(B)
        ctx.checks += 1
        for k, (x, y) in enumerate(zip(na, nb)):
            ctx.eq(x, y, "element after the bulk operation against single operations", x[2])
        A.clock.now = B.clock.now = max(A.clock.now, B.clock.now)
        ctx.state(na)
    ctx.case(ctx.oplog, any("[]" not in o for o in ctx.oplog))


@scenario("C06", quick=60, thorough=180)
def big_bulk(ctx, rng, i):
    """Thousands at once; the order is kept, every one takes effect."""
    clock = TickClock()
    root = HypergraphNode("r", b"r", "q", clock, None)
    n = rng.choice([300, 2000])
    els = [rng.choice([HypergraphNode, HypergraphEdge])(f"e{k % 9}", new_uuid(rng), "q", clock, None) for k in range(n)]
    ctx.log("add", n)
    run(root.add_elements(x for x in els))
    ctx.same(children(root), els, "elements added in bulk")
    ctx.eq([x.cid for x in els], list(range(n)), "ordinals of elements added in bulk")
    sel = rng.sample(els, n // 2)
    ctx.log("remove", len(sel))
    got = run(root.remove_elements(("", x.uuid) for x in sel))
    ctx.same(got, sel, "elements handed back by removing in bulk")
    s = {id(x) for x in sel}
    ctx.same(children(root), [x for x in els if id(x) not in s], "elements left after removing in bulk")
    for x in sel:
        ctx.ok(x.parent is None, "parent after removing in bulk")
    ctx.count("bulk_add")
    ctx.count("bulk_remove")
    ctx.case(ctx.oplog)
