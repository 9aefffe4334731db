from rv.core import scenario, run
from rv.contexts import Context, walk
from rv import oracles
from rv.lib import *
from rv.graphs import WEIGHTS
from rv.checks.c17 import encode, same_values
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor

RULE = ("A sender's values are changed at random (entries, whole lists of other lengths, order in the container) between "
        "updates; a receiver applies any subsequence of them, some twice, with losses and full messages in between; after "
        "each one the receiver's values are compared with the sender's at the time the update was made, and everything "
        "else with what it was before; non-trivial if an update changed a value of the receiver.")
ASSUMPTIONS = ["nodes, edges and values of the sender are the ones of the last full message",
               "values are of the types which CBOR transmits without change"]
ANCHORS = ["hypergraph/encoding/graph_tensor_icon_cbor.py", "hypergraph/encoding/graph_tensor_icon.py",
           "hypergraph/value_node.py"]
REQUIRED = ["updates_applied", "lost", "applied_twice", "dimension_changed", "effective", "full_messages", "late_updates",
            "reordered_values", "several_receivers"]


def rest(root):
    """Everything but the values."""
    s = oracles.snapshot(walk(root))
    for e in walk(root):
        if isinstance(e, ValueNode):
            s[id(e)] = s[id(e)][:-1]
    return s


def values_of(root):
    return [(v.uuid, v.get_values()) for v in root.sub_values]


class Receiver:
    def __init__(self, ctx, codec, msg, sent):
        self.ctx, self.codec = ctx, codec
        self.full(msg, sent)

    def full(self, msg, sent):
        self.root, self.hom = self.codec.create_graph(msg)
        self.by_uuid = {v.uuid: v for v in self.root.sub_values}
        self.ctx.count("full_messages")
        self.judge(sent, "after a full message")

    def judge(self, sent, what):
        self.ctx.eq(set(self.by_uuid), {u for u, _ in sent}, "values of the receiver " + what)
        for u, vals in sent:
            same_values(self.ctx, self.by_uuid[u], vals, "value of the receiver " + what)

    def apply(self, msg, sent, times):
        before, els = rest(self.root), walk(self.root)
        old = values_of(self.root)
        for _ in range(times):
            self.codec.from_msg_update_values(msg)
            self.judge(sent, "after an update")
        oracles.same_snapshot(self.ctx, before, rest(self.root), "an update changed something else")
        self.ctx.ok(all(a is b for a, b in zip(els, walk(self.root))), "an update replaced elements")
        self.ctx.count("updates_applied")
        self.ctx.count("applied_twice", times > 1)
        new = values_of(self.root)
        self.ctx.count("effective", old != new)
        self.ctx.count("dimension_changed", any(len(a[1]) != len(b[1]) for a, b in zip(old, new)))


@scenario("C18", quick=1600, thorough=8000)
def updates(ctx, rng, i):
    c = Context(rng)
    for k in range(rng.choice([0, 2, 5])):
        c.grow("value")
    sender = GraphTensorCbor("sender", c.clock, c.root)
    msg = encode(sender, c.root)
    ctx.log("context", c.describe())
    receivers = [Receiver(ctx, GraphTensorCbor(f"r{k}", DummyClock(), None), msg, values_of(c.root))
                 for k in range(rng.choice([1, 1, 2]))]
    ctx.count("several_receivers", len(receivers) > 1)
    effective = ctx.counters["effective"]
    pending = []
    for k in range(rng.choice([3, 8, 15])):
        for _ in range(rng.choice([0, 1, 1, 3])):
            vs = list(c.root.sub_values)
            if not vs:
                break
            v = rng.choice(vs)
            x = rng.random()
            weight = any(r.weight is v for e in c.root.sub_edges for r in e.sub_relations)
            fresh = (lambda: list(rng.choice(WEIGHTS))) if weight else c.values     # weights stay numbers
            if x < 0.35 and v.dim:
                j, d = rng.randrange(v.dim), rng.choice(fresh() or [0])
                ctx.log("set", v.id_name, j, d)
                v.update_value(j, d) if rng.random() < 0.5 else v.__setitem__(j, d)
            elif x < 0.85:
                new = fresh()
                ctx.log("values", v.id_name, new)
                v.update_values(new)
            else:
                ctx.log("reorder", v.id_name)
                list(c.root.remove_element(uuid=v.uuid))
                c.root.add_element(v)
                ctx.count("reordered_values")
        before = c.snapshot()
        upd = (sender.msg_value_update(), values_of(c.root))
        ctx.eq(sender.msg_value_update(), upd[0], "update made twice")
        oracles.same_snapshot(ctx, before, c.snapshot(), "making an update changed the sender")
        pending.append(upd)
        for n, r in enumerate(receivers):
            x = rng.random()
            if x < 0.35:
                ctx.log("lost for receiver", n)
                ctx.count("lost")
            elif x < 0.9:
                ctx.log("apply to receiver", n)
                r.apply(*upd, rng.choice([1, 1, 2]))
            else:
                m = rng.choice(pending)
                ctx.log("late update for receiver", n)
                r.apply(*m, 1)
                ctx.count("late_updates", m is not upd)
            # the sender is not touched by what the receivers do
            ctx.eq(values_of(c.root), upd[1], "values of the sender after an update was applied")
        if rng.random() < 0.1:
            # another full message, possibly of a changed context
            for _ in range(rng.randrange(4)):
                c.change()
            ctx.log("full message", c.describe())
            msg = encode(sender, c.root)
            for r in receivers:
                r.full(msg, values_of(c.root))
            pending.clear()
    upd = (sender.msg_value_update(), values_of(c.root))
    for r in receivers:
        r.apply(*upd, 1)
    ctx.state(sorted(map(repr, values_of(c.root))))
    ctx.case(ctx.oplog, ctx.counters["effective"] > effective)


@scenario("C18", quick=60, thorough=300)
def broken_updates(ctx, rng, i):
    """A truncated update is rejected; the next one restores equality."""
    c = Context(rng, weighted=False)
    c.grow("value")
    c.grow("value")
    sender = GraphTensorCbor("sender", c.clock, c.root)
    r = Receiver(ctx, GraphTensorCbor("r", DummyClock(), None), encode(sender, c.root), values_of(c.root))
    for _ in range(4):
        for v in c.root.sub_values:
            v.update_values(c.values())
        msg = sender.msg_value_update()
        cut = msg[:rng.randrange(len(msg))]
        old = values_of(r.root)
        ctx.log("truncated update", len(cut), "of", len(msg))
        ctx.rejected(lambda: r.codec.from_msg_update_values(cut), "a truncated update")
        ctx.eq(values_of(r.root), old, "values of the receiver after a rejected update")
        r.apply(msg, values_of(c.root), 1)
    ctx.case(ctx.oplog)
