from rv.core import scenario, run
from rv.history import World
from rv.lib import *
from rv import oracles

RULE = ("Random histories with advancing, frozen and jumping clocks; the monitor keeps the ordinals ever given out by "
        "each container and all readings handed out by the clock, and compares the ordinals and stamps of all elements "
        "after each operation; non-trivial if an element was re-inserted; distinct by the operations.")
ASSUMPTIONS = ["names contain no separator"]
ANCHORS = ["foundations/conceptual_item.py", "foundations/clock.py"]
REQUIRED = ["op_add", "op_remove_uuid", "op_remove_name", "op_add_elements", "restamped", "kept_stamps", "reinsertions",
            "own_clock", "long_lives"]


class SpyClock(MetaClock):
    """Records each reading."""

    def __init__(self, inner):
        self.inner = inner
        self.log = []

    def get_time_ns(self):
        self.log.append(self.inner.get_time_ns())
        return self.log[-1]

    def get_time_sec(self):
        return self.get_time_ns() / 1e9


def subtree(e):
    out, stack = set(), [e]
    while stack:
        x = stack.pop()
        out.add(id(x))
        stack.extend(children(x))
    return out


def before(world, touched):
    world.stamps = {id(m.obj): (m.obj.timestamp, m) for m in world.els if isinstance(m.obj, ConceptualItem)}
    world.mark = len(world.clock.log)
    world.parents = {id(m.obj): m.parent for m in world.els}


def observe(world, kind, touched):
    ctx = world.ctx
    # ordinals: exactly the model's count (the model counts all insertions which ever happened)
    for m in world.els:
        if m.parent is not None:
            ctx.eq(m.obj.cid, m.cid, "ordinal in the container", m.label, m.parent.label)
    for m in world.els:
        cids = [c.obj.cid for c in m.children]
        ctx.ok(all(a < b for a, b in zip(cids, cids[1:])), "ordinals in the order of insertion", cids)
        if cids:
            ctx.ok(cids[0] >= 0 and cids[-1] < m.hist, "ordinal range", cids)
    # stamps
    if kind in ("rejected", "accepted_invalid", "remove_step"):
        return
    concerned = set()
    for m in world.els:
        fresh = id(m.obj) not in world.parents
        if fresh or world.parents[id(m.obj)] is not m.parent or m in world.moved:
            concerned |= subtree(m.obj)
    window = world.clock.log[world.mark:]
    for m in world.els:
        if not isinstance(m.obj, ConceptualItem):
            continue
        if id(m.obj) in concerned:
            ctx.ok(m.obj.timestamp in window, "stamp of an element concerned by the operation", m.label, kind,
                   m.obj.timestamp, window[:5])
            ctx.count("restamped")
        elif id(m.obj) in world.stamps:
            ctx.eq(m.obj.timestamp, world.stamps[id(m.obj)][0], "stamp of an element not concerned", m.label, kind)
            ctx.count("kept_stamps")
    world.moved = set()
    ctx.state([(m.cid, len(m.children)) for m in world.els])


@scenario("C05", quick=960, thorough=4000)
def random_history(ctx, rng, i):
    inner = rng.choice([lambda: TickClock(rng.choice([1000, -1, -4])), FrozenClock, lambda: JumpClock(rng)])()
    w = World(ctx, rng, clock=SpyClock(inner), observer=observe, limit=rng.choice([8, 25, 60]))
    w.unique = not isinstance(inner, FrozenClock)
    w.moved = set()
    w.before = before
    attach = w.m_attach

    def m_attach(P, e):
        if e.cid is not None:
            ctx.count("reinsertions")
        w.moved.add(e)
        attach(P, e)
    w.m_attach = m_attach
    w.history(rng.choice([40, 90, 140]), invalid=rng.choice([0, 0.1]))
    ctx.case(ctx.oplog)


@scenario("C05", quick=60, thorough=200)
def churn(ctx, rng, i):
    """One element in and out, hundreds of times: no ordinal twice."""
    clock = TickClock()
    P = rng.choice([lambda: HypergraphNode("p", b"p", "q", clock, None),
                    lambda: HypergraphEdge("p", b"p", "q", clock, None),
                    lambda: ValueNode(b"p", "p", "q", []),
                    lambda: SemanticValueNode(b"p", "p", "q", None, {})])()
    kids = [HypergraphNode(f"k{k % 4}", new_uuid(rng), "q", clock, None) for k in range(12)]
    given, last = set(), {}
    hist = 0
    for _ in range(rng.choice([50, 400])):
        e = rng.choice(kids)
        t0 = clock.now
        if e.parent is None:
            ctx.log("add", e.id_name)
            P.add_element(e)
            ctx.ok(e.cid not in given, "an ordinal is used again", e.cid)
            ctx.eq(e.cid, hist, "ordinal")
            given.add(e.cid)
            hist += 1
            ctx.count("reinsertions", e in last)
            last[e] = e.cid
        else:
            ctx.log("remove", e.id_name)
            list(P.remove_element(uuid=e.uuid) if rng.random() < 0.5 else
                 P.remove_element(id_name=e.id_name, uuid=e.uuid))
        ctx.ok(t0 < e.timestamp <= clock.now, "stamp within the operation", t0, e.timestamp, clock.now)
        ctx.count("restamped")
    ctx.case(ctx.oplog)


@scenario("C05", quick=3, thorough=10)
def long_life(ctx, rng, i):
    """A container through which tens of thousands of elements have passed."""
    clock = TickClock()
    P = HypergraphNode("p", b"p", "q", clock, None)
    kids = [HypergraphNode(f"k{k % 2}", new_uuid(rng), "q", clock, None) for k in range(3)]
    n = [67000, 34000, 17000][i % 3]
    wrong = []
    for k in range(n):
        e = kids[k % 3]
        if e.parent is not None:
            list(P.remove_element(uuid=e.uuid))
        P.add_element(e)
        if e.cid != k:
            wrong.append((k, e.cid))
    ctx.log("insertions", n)
    ctx.eq(wrong[:5], [], "ordinals which are not those of the insertion")
    ctx.count("long_lives")
    ctx.maximum("insertions", n)
    ctx.case(i)


@scenario("C05", quick=10, thorough=50)
def real_clock(ctx, rng, i):
    """The system clock: stamps within the real interval of the operation, in nanoseconds."""
    import time
    clock = LocalClock()
    f = HypergraphFactory("f", clock)
    for k in range(20):
        t0 = time.time_ns()
        n = f.generate_node(f"n{k}")
        m = f.generate_node("m", n)
        t1 = time.time_ns()
        ctx.log("generate", k)
        for x in (n, m):
            ctx.ok(t0 <= x.timestamp <= t1, "stamp of the system clock", t0, x.timestamp, t1)
        ctx.ok(t0 / 1e9 - 1 <= clock.get_time_sec() <= time.time() + 1, "seconds of the system clock")
    # several readings, since the clock of the machine may be set back once
    late = 0
    for _ in range(300):
        t0 = time.time_ns()
        t = clock.get_time_ns()
        t1 = time.time_ns()
        late += not t0 <= t <= t1
    ctx.ok(late < 5, "readings of the system clock outside the interval in which they were made", late)
    ctx.eq((DummyClock().get_time_ns(), DummyClock().get_time_sec()), (0, 0.0), "dummy clock")
    ctx.case(ctx.oplog)


class SeriesClock(MetaClock):
    """Clock number k hands out its own readings, different from those of every other clock."""

    def __init__(self, k, rng):
        self.k, self.n, self.rng = k, 0, rng

    def get_time_ns(self):
        self.n += self.rng.randrange(1, 4)
        return self.k * 10 ** 9 + self.n

    def get_time_sec(self):
        return self.get_time_ns() / 1e9

    def reading_since(self, stamp, mark):
        return self.k * 10 ** 9 + mark < stamp <= self.k * 10 ** 9 + self.n


@scenario("C05", quick=240, thorough=1500)
def own_clocks(ctx, rng, i):
    """Each element is stamped by its own clock, whichever clock its container has and also after the clock was replaced."""
    clocks = [SeriesClock(k, rng) for k in range(1, 5)]
    els, stamps = [], {}

    def judge(marks, concerned, what):
        ids = {id(x) for x in concerned}
        for e in els:
            if id(e) in ids:
                ctx.ok(e.clock.reading_since(e.timestamp, marks[e.clock]), f"stamp by the own clock after {what}",
                       e, e.clock.k, e.timestamp)
                ctx.count("own_clock")
            else:
                ctx.eq(e.timestamp, stamps[id(e)], f"stamp of an element not concerned by {what}", e)
            stamps[id(e)] = e.timestamp

    def below(e):
        out, stack = [], [e]
        while stack:
            x = stack.pop()
            out.append(x)
            stack.extend(c for c in children(x) if isinstance(c, (HypergraphNode, HypergraphEdge)))
        return out

    for _ in range(rng.choice([15, 40])):
        marks = {c: c.n for c in clocks}
        x = rng.random()
        if x < 0.35 or not els:
            parent = rng.choice(els) if els and rng.random() < 0.6 else None
            cls = rng.choice([HypergraphNode, HypergraphNode, HypergraphEdge])
            e = cls(f"n{len(els) % 5}", new_uuid(rng), "q", rng.choice(clocks), parent)
            els.append(e)
            ctx.log("create", e.id_name, e.clock.k, "below" if parent is not None else "", getattr(parent, "id_name", ""))
            judge(marks, [e], "a creation")
            continue
        e = rng.choice(els)
        if x < 0.5:
            e.clock = c = rng.choice(clocks)
            ctx.ok(e.clock is c, "clock after it was replaced", e)
            ctx.log("clock", e.id_name, e.clock.k)
            ctx.eq(e.timestamp, stamps[id(e)], "replacing the clock stamps nothing", e)
        elif x < 0.65 and e.parent is not None:
            ctx.log("remove", e.id_name)
            list(e.parent.remove_element(uuid=e.uuid))
            judge(marks, below(e), "a removal")
        else:
            inside = below(e)
            to = [p for p in els if not any(p is y for y in inside) and p is not e.parent]
            if to:
                p = rng.choice(to)
                ctx.log("move", e.id_name, "to", p.id_name)
                if rng.random() < 0.5:
                    p.add_element(e)
                else:
                    run(p.add_elements([e]))
                judge(marks, inside, "an insertion")
    ctx.case(ctx.oplog)
