from rv.core import scenario, run
from rv.history import World
from rv.lib import *
from rei.foundations.query.search_elements import QuerySearchSubElement, QuerySearchElement

RULE = ("Searches by new and by reused search objects, for present, moved, removed, replaced, out-of-scope and absent "
        "qualified names from random starts, between the operations of random histories; each result is compared with "
        "the names observed in the scope; non-trivial if a search succeeded and another failed.")
ASSUMPTIONS = ["names contain no separator",
               "no leftovers of an earlier successful search (known finding)"]
ANCHORS = ["foundations/query/search_elements.py"]
REQUIRED = ["found", "absent", "reused_found", "reused_stale", "out_of_scope", "sub_searches", "whole_searches",
            "changed_start", "shared_identities"]


def root_of(el):
    while el.parent is not None:
        el = el.parent
    return el


def scope(start):
    out, stack = [], [start]
    while stack:
        e = stack.pop()
        out.append(e)
        stack.extend(children(e))
    return out


def name_of(el):
    return "/".join(names_path(el))


class Searcher:
    """A search object together with what it was used for."""

    def __init__(self, ctx, cls):
        self.ctx, self.cls, self.q = ctx, cls, cls()
        self.past = {}            # name -> elements found
        self.last_start = None
        self.dirty = True         # leftovers of a successful search (known finding) may be there

    def search(self, start, name, others=()):
        ctx = self.ctx
        whole = self.cls is QuerySearchElement
        els = scope(root_of(start) if whole else start)
        if len({e.uuid for e in els}) != len(els):
            ctx.count("shared_identities")
        want = [e for e in els if name_of(e) == name]
        if any(s.dirty for s in (self, *others)):
            drain_searches(run)
            for s in (self, *others):
                s.dirty = False
        self.q.query_def = name
        ctx.log("search", self.cls.__name__, repr(name), "from", name_of(start), "expect", len(want))
        try:
            run(self.q.execute(start))
        except BaseException:
            self.dirty = True
            raise
        got = list(self.q.query_result)
        self.dirty = bool(got)
        ctx.count("whole_searches" if whole else "sub_searches")
        for g in got:
            ctx.eq(name_of(g), name, "current qualified name of an element found by a search")
            ctx.ok(any(g is e for e in els), "an element found by a search is outside its scope", g, start)
        ctx.eq(bool(got), bool(want), f"a search for {name!r} below {name_of(start)!r} finds an element")
        ctx.eq(len({id(g) for g in got}), len(got), "an element is found twice")
        if want:
            ctx.count("found")
            if name in self.past:
                ctx.count("reused_found")
        else:
            ctx.count("absent")
            if name in self.past:
                ctx.count("reused_stale")
            if not whole and any(name_of(e) == name for e in scope(root_of(start))):
                ctx.count("out_of_scope")
        if self.last_start is not None and self.last_start is not start:
            ctx.count("changed_start")
        self.last_start = start
        if want:
            self.past[name] = got
        return got


def pick_start(rng, els):
    nodes = [e for e in els if isinstance(e, HypergraphNode)]
    return rng.choice(nodes if rng.random() < 0.85 else els)


def pick_target(rng, els, searchers, removed_names):
    x = rng.random()
    if x < 0.55:
        return name_of(rng.choice(els))
    past = [n for s in searchers for n in s.past]
    if x < 0.8 and past:
        return rng.choice(past)
    if x < 0.9 and removed_names:
        return rng.choice(removed_names)
    return rng.choice(["", "nobody", "root0/nobody", "a", "root0", "root1", name_of(rng.choice(els)) + "/x",
                       rng.choice(els).id_name])


@scenario("C12", quick=260, thorough=6000)
def random_history(ctx, rng, i):
    seen_names = []

    def observe(world, kind, touched):
        for m in touched:
            if m is not None and rng.random() < 0.2 and len(seen_names) < 200:
                seen_names.append(name_of(m.obj))
    w = World(ctx, rng, clock=rng.choice([TickClock, TickClock, FrozenClock])(), observer=None,
              limit=rng.choice([8, 25, 45]))
    w.shared_identities = rng.choice([0, 0.1, 0.3])
    w.before = lambda world, touched: observe(world, None, touched)
    searchers = [Searcher(ctx, rng.choice([QuerySearchSubElement, QuerySearchElement])) for _ in range(3)]
    for k in range(2):
        w.new_node(None, name=f"root{k}")
    from rv.history import Desync
    for _ in range(rng.choice([20, 50])):
        try:
            w.step(0)
        except Desync:
            ctx.count("desynchronised")
            return
        if rng.random() < 0.7:
            s = rng.choice(searchers)
            if rng.random() < 0.15:
                searchers.remove(s)
                n = Searcher(ctx, rng.choice([QuerySearchSubElement, QuerySearchElement]))
                n.dirty = s.dirty
                searchers.append(n)
                s = n
            els = [m.obj for m in w.els]
            start = s.last_start if s.last_start is not None and rng.random() < 0.4 else pick_start(rng, els)
            s.search(start, pick_target(rng, els, searchers, seen_names), searchers)
    ctx.state(w.shape())
    ctx.case(ctx.oplog)


@scenario("C12", quick=150, thorough=3000)
def every_name_from_everywhere(ctx, rng, i):
    """All names of a hierarchy from all of its elements, by one search object; then again after a change."""
    clock = TickClock()
    f = HypergraphFactory("f", clock)
    root = f.generate_node("r")
    els = [root]
    for k in range(rng.choice([0, 1, 4, 9])):
        p = rng.choice([e for e in els if isinstance(e, (HypergraphNode, HypergraphEdge))])
        name = rng.choice("abcd")
        els.append(f.generate_node(name, p) if rng.random() < 0.8 or not isinstance(p, HypergraphNode)
                   else f.create_hyperedge(p, name))
    cls = [QuerySearchSubElement, QuerySearchElement][i % 2]
    s = Searcher(ctx, cls)
    for rounds in range(3):
        names = sorted({name_of(e) for e in els})
        starts = els if rounds == 0 else rng.sample(els, min(len(els), 4))
        for start in starts:
            for n in names + ["r/none", "none"]:
                s.search(start, n)
        # a change: remove, replace by another of the same name, or move
        c = [e for e in els if e.parent is not None]
        if c:
            e = rng.choice(c)
            match rng.randrange(3):
                case 0:
                    e.deregister()
                    ctx.log("removed", e.id_name)
                case 1:
                    p = e.parent
                    e.deregister()
                    els.append(f.generate_node(e.id_name, p))
                    ctx.log("replaced", e.id_name)
                case 2:
                    to = [x for x in els if isinstance(x, HypergraphNode) and x is not e.parent and not any(x is y for y in scope(e))]
                    if to:
                        rng.choice(to).add_element(e)
                        ctx.log("moved", e.id_name, "to", name_of(e))
        s.search(root, rng.choice(names))
    ctx.case(ctx.oplog, len(els) > 1)


@scenario("C12", quick=8, thorough=80)
def large(ctx, rng, i):
    """Deep and wide hierarchies."""
    clock = DummyClock()
    n = [30, 400, 1500][i % 3]
    deep = i % 2 == 0
    root = x = HypergraphNode("r", new_uuid(rng), "q", clock, None)
    els = [root]
    chain = [HypergraphNode(f"n{k % 7}" if deep else f"n{k}", new_uuid(rng), "q", clock, None) for k in range(n)]
    if deep:
        for a, b in list(zip([root] + chain, chain)):
            a.add_element(b)
    else:
        for b in chain:
            root.add_element(b)
    els += chain
    for cls in (QuerySearchSubElement, QuerySearchElement):
        if cls is QuerySearchElement and deep and n > 400:
            continue
        s = Searcher(ctx, cls)
        for e in (els[-1], els[len(els) // 2], root):
            s.search(root, name_of(e))
            s.search(els[len(els) // 2], name_of(e))
            s.search(rng.choice(els), "nothing")
    ctx.maximum("elements", n)
    ctx.case(ctx.oplog)


@scenario("C12", quick=2, thorough=4)
def leftovers(ctx, rng, i):
    """The known finding: leftovers of a successful search are found by a later one outside its scope."""
    drain_searches(run)
    f = HypergraphFactory("f", TickClock())
    a, b = f.generate_node("a"), f.generate_node("b")
    for k in range(4):
        f.generate_node(f"n{k}", a)
    ctx.log("search after a successful search elsewhere")
    q = QuerySearchSubElement()
    q.query_def = "a/n0"
    run(q.execute(a))
    ctx.eq([x.qualified_name for x in q.query_result], ["a/n0"], "result of a search")
    p = QuerySearchSubElement()
    p.query_def = "a/n3"
    run(p.execute(b))
    if p.query_result:
        ctx.finding("search-leftovers", "a search below 'b' finds 'a/n3', a leftover of an earlier search below 'a'")
    drain_searches(run)
    ctx.case(ctx.oplog)
