import cbor2

from rv.core import scenario, run
from rv.contexts import Context, walk
from rv import oracles
from rv.lib import *
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor

RULE = ("Random contexts (roots and contexts inside larger graphs; values of all transmittable types; odd names; the "
        "context itself as a member; weights) are encoded, decoded by the same or by another codec and compared element "
        "by element with the sender; encoded again, re-encoded from the decoded graph, after changes and for other "
        "contexts; sender snapshots before and after; non-trivial if a relation was transmitted.")
ASSUMPTIONS = ["direct nodes, edges and values of the context; members are direct nodes or the context",
               "weights of relations and contents of nodes are no part of the message",
               "values are of the types which CBOR transmits without change"]
ANCHORS = ["hypergraph/encoding/graph_tensor_icon_cbor.py", "hypergraph/encoding/graph_tensor_icon.py",
           "hypergraph/homomorphism_functions.py"]
REQUIRED = ["messages", "relations_transmitted", "values_transmitted", "nodes_transmitted", "reencoded", "inner_contexts",
            "changed", "other_context", "context_is_member", "weighted_relations",
            "decoded_earlier"]


def compare(ctx, root, hom, sent):
    """The decoded graph against the sender's context as it was when encoded."""
    els = walk(root)
    ctx.eq((root.uuid, root.id_name, root.parent), (sent["uuid"], sent["name"], None), "decoded root")
    ctx.eq([(n.uuid, n.id_name) for n in root.sub_nodes], sent["nodes"], "decoded nodes")
    ctx.eq([(e.uuid, e.id_name) for e in root.sub_edges], sent["edges"], "decoded edges")
    ctx.eq([(v.uuid, v.id_name) for v in root.sub_values], [v[:2] for v in sent["values"]], "decoded values")
    ctx.eq([(x.uuid, x.progenitor_qualified_name) for x in
            [root, *root.sub_nodes, *root.sub_edges, *(r for e in root.sub_edges for r in e.sub_relations),
             *root.sub_values]], sent["origin"], "names of the originals of decoded elements")
    for v, (_, name, vals) in zip(root.sub_values, sent["values"]):
        same_values(ctx, v, vals, "decoded value " + repr(name))
    known = {root.uuid: root, **{n.uuid: n for n in root.sub_nodes}}
    for e, rels in zip(root.sub_edges, sent["relations"]):
        got = list(e.sub_relations)
        ctx.eq([(r.uuid, r.id_name, r.direction, r.endpoint.uuid) for r in got], rels, "decoded relations", e)
        for r in got:
            ctx.ok(r.endpoint is known[r.endpoint.uuid], "a decoded relation leads to a foreign element", r)
            ctx.ok(r.parent is e, "a decoded relation names another parent", r)
        ctx.count("relations_transmitted", len(rels))
    ctx.count("values_transmitted", len(sent["values"]))
    ctx.count("nodes_transmitted", len(sent["nodes"]))
    # what is decoded is a consistent graph of its own
    oracles.forest(ctx, els)
    oracles.names(ctx, els)
    oracles.connections(ctx, els)
    ctx.eq(len(els), 1 + len(sent["nodes"]) + len(sent["edges"]) + len(sent["values"]) +
           2 * sum(map(len, sent["relations"])), "number of decoded elements (relations with a port each)")
    # nothing is shared with the sender
    ctx.ok(not ({id(e) for e in els} & {id(e) for e in sent["els"]}), "an element of the sender is part of the decoded graph")
    # the mapping
    for u, i in sent["node_index"]:
        ctx.eq(hom.node(u), i, "node index after decoding")
        ctx.eq(hom.dim(i), u, "node of an index after decoding")
    for u, i in sent["edge_index"]:
        ctx.eq(hom.edge(u), i, "edge index after decoding")
        ctx.eq(hom.depth(i), u, "edge of an index after decoding")
    for u, i in sent["value_index"]:
        ctx.eq(hom.val(u), i, "value index after decoding")
        ctx.eq(hom.ival(i), u, "value of an index after decoding")
    ctx.eq((hom.cnt_node, hom.cnt_edges), (len(sent["node_index"]), len(sent["edge_index"])), "counts after decoding")


def same_values(ctx, v, vals, what):
    got = v.get_values()
    ctx.eq(got, vals, what)
    ctx.eq([type(x) for x in got], [type(x) for x in vals], "types of " + what)
    ctx.eq(v.dim, len(vals), "dimension of " + what)


def sender_state(c):
    """The context as it has to be decoded."""
    root = c.root
    ref = IndexHomomorphismGraphTensor(False, depth=float("inf"))
    run(ref.execute(root))
    return {"uuid": root.uuid, "name": root.id_name, "nodes": [(n.uuid, n.id_name) for n in root.sub_nodes],
            "edges": [(e.uuid, e.id_name) for e in root.sub_edges],
            "values": [(v.uuid, v.id_name, v.get_values()) for v in root.sub_values],
            "relations": [[(r.uuid, r.id_name, r.direction, r.endpoint.uuid) for r in e.sub_relations]
                          for e in root.sub_edges],
            "node_index": [(n.uuid, ref.node(n.uuid)) for n in [root, *root.sub_nodes]],
            "origin": [(x.uuid, x.qualified_name) for x in
                       [root, *root.sub_nodes, *root.sub_edges,
                        *(r for e in root.sub_edges for r in e.sub_relations), *root.sub_values]],
            "edge_index": [(e.uuid, ref.edge(e.uuid)) for e in root.sub_edges],
            "value_index": [(v.uuid, ref.val(v.uuid)) for v in root.sub_values],
            "els": c.everything()}


def encode(codec, root):
    run(codec.update_context(root))
    run(codec.update_coo())
    return codec.full_msg()


def relative(msg, prefix):
    """The structural parts of a message, names relative to the context."""
    cut = lambda q: q[len(prefix):] if q.startswith(prefix) else q
    nodes, edges, rels, values = cbor2.loads(msg)[:4]
    txt = lambda b: cut(b.decode() if isinstance(b, bytes) else b)
    return ([(*n[:4], txt(n[4])) for n in nodes], [(*e[:4], txt(e[4])) for e in edges],
            [(r[0], r[1], cut(r[2]), *r[3:]) for r in rels], [(*v[:4], txt(v[4]), v[5]) for v in values])


@scenario("C17", quick=1600, thorough=8000)
def round_trips(ctx, rng, i):
    cs = [Context(rng) for _ in range(rng.choice([1, 1, 2]))]
    c = cs[0]
    sender = GraphTensorCbor("sender", c.clock, c.root)
    receivers = [sender, GraphTensorCbor("receiver", DummyClock(), c.root), GraphTensorCbor("third", TickClock(), None)]
    n_rel = 0
    old, decoded = [], []
    for k in range(rng.choice([1, 3, 5])):
        ctx.log("encode", c.describe())
        before = c.snapshot()
        sent = sender_state(c)
        msg = encode(sender, c.root)
        ctx.eq(sender.full_msg(), msg, "message encoded twice")
        if rng.random() < 0.5:
            ctx.eq(encode(sender, c.root), msg, "message of a repeated encoding")
            ctx.eq(encode(GraphTensorCbor("other", c.clock, c.root), c.root), msg, "message of a fresh codec")
        oracles.same_snapshot(ctx, before, c.snapshot(), "encoding changed the sender")
        rcv = rng.choice(receivers)
        root, hom = rcv.create_graph(msg)
        compare(ctx, root, hom, sent)
        decoded.append((root, hom, sent))
        if rng.random() < 0.3:
            # what is decoded belongs to the receiver: the same message gives a graph of its own again
            decoded.append((*rng.choice([rcv, *receivers]).create_graph(msg), sent))
        oracles.same_snapshot(ctx, before, c.snapshot(), "decoding changed the sender")
        ctx.count("messages")
        ctx.count("inner_contexts", c.root.parent is not None)
        ctx.count("context_is_member", any(r.endpoint is c.root for e in c.root.sub_edges for r in e.sub_relations))
        weights = sum(1 for e in c.root.sub_edges for r in e.sub_relations if r.weight is not None)
        ctx.count("weighted_relations", weights)
        n_rel += sum(map(len, sent["relations"]))
        # encoding what was decoded
        again = encode(GraphTensorCbor("again", DummyClock(), root), root)
        prefix = c.root.qualified_name[:-len(c.root.id_name)] if c.root.id_name else c.root.qualified_name
        same_relative(ctx, relative(msg, prefix), relative(again, ""), "message of the decoded graph")
        if not weights:
            ctx.eq(cbor2.loads(again)[4:], cbor2.loads(msg)[4:], "tensor entries of the decoded graph")
        ctx.count("reencoded")
        if rng.random() < 0.3:
            ctx.log("the receiver changes what it decoded")
            mine = decoded.pop(rng.randrange(len(decoded)))[0]
            for x in rng.sample(walk(mine)[1:], min(3, len(walk(mine)) - 1)):
                if isinstance(x, ValueNode):
                    x.update_values(["changed"])
                elif x.parent is not None and not isinstance(x, HypergraphPort):
                    list(x.parent.remove_element(uuid=x.uuid))
        for d in decoded[-3:]:
            compare(ctx, *d)
            ctx.count("decoded_earlier")
        # an earlier message still describes the earlier state
        for m, s in old[-2:]:
            if rng.random() < 0.4:
                compare(ctx, *rng.choice(receivers).create_graph(m), s)
        old.append((msg, sent))
        ctx.state(sorted(map(repr, sent["relations"])))
        x = rng.random()
        if x < 0.7:
            for _ in range(rng.randrange(1, 5)):
                c.change()
            ctx.count("changed")
        elif len(cs) > 1:
            c = rng.choice([x for x in cs if x is not c])
            ctx.count("other_context")
    ctx.case(ctx.oplog, n_rel > 0)


def same_relative(ctx, a, b, what):
    for x, y, part in zip(a, b, ("nodes", "edges", "relations", "values")):
        ctx.eq(y, x, f"{part} of the {what}")


@scenario("C17", quick=8, thorough=80)
def large(ctx, rng, i):
    n, m = [(0, 0), (300, 5), (40, 80)][i % 3]
    c = Context(rng)
    nodes = [c.factory.generate_node(f"large node{k}", c.root) for k in range(n)]
    for k in range(m):
        e = c.factory.create_hyperedge(c.root, f"large edge{k}")
        for x in rng.sample(nodes, rng.randrange(min(len(nodes), 40))):
            e.unary_connect(x, None, rng.choice(DIRS))
    for k in range(n):
        c.factory.create_value(c.root, f"large value{k}", [k, k / 7])
    ctx.log("large", n, m)
    sender, receiver = GraphTensorCbor("s", c.clock, c.root), GraphTensorCbor("r", DummyClock(), None)
    sent = sender_state(c)
    for _ in range(2):
        compare(ctx, *receiver.create_graph(encode(sender, c.root)), sent)
        ctx.count("messages")
    ctx.case(ctx.oplog, n > 0)


@scenario("C17", quick=60, thorough=300)
def broken_messages(ctx, rng, i):
    """A message which ends early is rejected, and the next one is decoded as if it had not come."""
    c = Context(rng)
    sender, receiver = GraphTensorCbor("s", c.clock, c.root), GraphTensorCbor("r", DummyClock(), None)
    sent = sender_state(c)
    msg = encode(sender, c.root)
    for _ in range(4):
        cut = msg[:rng.randrange(len(msg))]
        ctx.log("truncated message", len(cut), "of", len(msg))
        ctx.rejected(lambda: receiver.create_graph(cut), "a truncated message")
        compare(ctx, *receiver.create_graph(msg), sent)
        ctx.count("messages")
    ctx.case(ctx.oplog)
