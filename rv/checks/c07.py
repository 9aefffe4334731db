import json
import os
import subprocess
import sys

from rv.core import scenario, VERIF, FRAMEWORK
from rv.lib import *

RULE = ("Random graphs of all kinds of elements with repeated, unicode, dotted and empty names are created by factories "
        "in this process and again in fresh processes with other hash seeds and with unrelated work in between; the "
        "identifiers of all elements are compared and searched for collisions; non-trivial from ten elements on.")
ASSUMPTIONS = ["names contain neither '/' nor ':'", "containers are nodes; siblings of one kind have different names",
               "digests of different texts differ (SHA3)"]
ANCHORS = ["foundations/identification/identity_generator.py", "factories/abstract_factory.py",
           "factories/foundation_factory.py", "hypergraph/base_elements.py",
           "format/semantics/cognitive_entity_semantic_factory.py"]
REQUIRED = ["processes", "identifiers", "relations", "ports", "semantic", "similar_names", "many_identifiers"]

NAMES = ["a", "b", "ab", "a.b", "a.b.0", "", "ä", "a\u0308", "é", "名", " ", "0", "00", "node", "edge", "value", "a_b",
         "A", "rel", "port", "1.7", "a.7", "a.7.7"]


def build(seed, size, noise=False, clock=None, fname="f", sname="s"):
    """Deterministic graph; returns [(description, identifier)] in the order of creation and the elements."""
    import random
    rng = random.Random(seed)
    clock = clock or FrozenClock(7)
    f, s = HypergraphFactory(fname, clock), CognitiveEntitySemanticFactory(sname, clock)
    root = f.generate_node("root")
    nodes, out = [root], [("root", root)]
    used = set()
    for k in range(size):
        if noise:
            x = f.generate_node(f"noise{k}")
            f.generate_node("inner", x)
            HypergraphFactory("other", clock).generate_node("x", x)
        p = rng.choice(nodes)
        name = rng.choice(NAMES) + rng.choice(["", str(rng.randrange(size))])
        kind = rng.choice(["node", "node", "node", "edge", "edge", "value", "sem"])
        sk = rng.choice(["kinematic_link", "material", "rigid_transformation"])
        ends = rng.sample(nodes, min(len(nodes), rng.randrange(4)))
        how = rng.randrange(3)
        key = (kind, sk if kind == "sem" else "", id(p), name)
        if key in used:
            continue
        used.add(key)
        if noise and k % 2:
            # elements of other factories with the same names were in the same containers
            g, t = HypergraphFactory("other", clock), CognitiveEntitySemanticFactory("others", clock)
            x = {"node": lambda: g.generate_node(name, p), "edge": lambda: g.create_hyperedge(p, name),
                 "value": lambda: g.create_value(p, name, [2]),
                 "sem": lambda: t.generate_semantic_element(sk, name, p, {"n": 2})}[kind]()
            list(p.remove_element(uuid=x.uuid))
        match kind:
            case "node":
                e = f.generate_node(name, p)
                nodes.append(e)
            case "edge":
                if how == 0:
                    e = f.connect_nodes(p, name, ends)
                elif how == 1:
                    e = f.connect_dir_edges(p, name, ends[:1], ends[1:])
                else:
                    e = f.create_hyperedge(p, name)
                    for n in ends:
                        e.unary_connect(n, None, IN)
                out.extend((f"rel {name}", r) for r in e.sub_relations)
            case "value":
                e = f.create_value(p, name, [1])
            case "sem":
                e = s.generate_semantic_element(sk, name, p, {"n": 1})
        out.append((f"{kind} {name}", e))
    for n in nodes:
        out.extend((f"port {n.id_name}", q) for q in n.sub_ports)
    return out


def uuids(out):
    return [(d, e.uuid.hex()) for d, e in out]


@scenario("C07", quick=60, thorough=1000)
def collisions(ctx, rng, i):
    seed, size = rng.random(), rng.choice([10, 60, 300, 1000])
    out = build(seed, size)
    ctx.log("build", seed, size, len(out))
    seen = {}
    for d, e in out:
        ctx.ok(isinstance(e.uuid, bytes), "identifier is a byte string", d)
        ctx.ok(e.uuid not in seen, "two elements share an identifier", d, seen.get(e.uuid), e.qualified_name)
        seen[e.uuid] = d + " " + e.qualified_name
        ctx.count("identifiers")
        ctx.count("relations", isinstance(e, HypergraphRelation))
        ctx.count("ports", isinstance(e, HypergraphPort))
        ctx.count("semantic", isinstance(e, SemanticValueNode))
    # the same again, with unrelated work in between
    ctx.eq(uuids(build(seed, size, noise=True)), uuids(out), "identifiers created again")
    # other factories do not collide with these
    for d, e in build(seed, size, fname="g", sname="t"):
        if isinstance(e, (HypergraphRelation, HypergraphPort)):
            continue
        ctx.ok(e.uuid not in seen, "elements of different factories share an identifier", d)
    ctx.state(uuids(out))
    ctx.case(ctx.oplog, len(out) >= 10)


@scenario("C07", quick=60, thorough=400)
def confused(ctx, rng, i):
    """The same elements in containers of similar names, and elements of similar names in one container."""
    clock = rng.choice([FrozenClock, DummyClock])()
    f, s = HypergraphFactory("f", clock), CognitiveEntitySemanticFactory("f", clock)
    names = [n for n in confusable(rng) if ":" not in n]
    root = f.generate_node(rng.choice(names))
    containers, out = [root], [("root", root)]
    for n in names:
        containers.append(f.generate_node(n, root))
    if rng.random() < 0.5:
        for p in rng.sample(containers[1:], 5):
            containers += [f.generate_node(n, p) for n in rng.sample(names, 5)]
    out += [("container " + c.id_name, c) for c in containers[1:]]
    inner = [("e", "v", "k"), tuple(rng.sample(names, 3))]
    for p in containers:
        for en, vn, sn in inner:
            out.append((f"edge {en}", f.create_hyperedge(p, en)))
            out.append((f"value {vn}", f.create_value(p, vn, [1])))
            out.append((f"sem {sn}", s.generate_semantic_element("material", sn, p, {"n": 1})))
            e = f.connect_nodes(p, en + "'", rng.sample(containers, 3))
            out.append((f"edge {en}'", e))
            out += [("rel", r) for r in e.sub_relations]
    for c in containers:
        out += [("port", q) for q in c.sub_ports]
    ctx.log("similar names", [short_name(n) for n in names[:50]], len(out))
    seen = {}
    for d, e in out:
        ctx.ok(e.uuid not in seen, "two elements share an identifier", d, seen.get(e.uuid), e.qualified_name)
        seen[e.uuid] = d + " " + e.qualified_name
        ctx.count("identifiers")
    # values without a container and roots
    vs = [f.create_value(None, n, [1]) for n in names] + [f.generate_node(n) for n in names if n != root.id_name]
    for v in vs:
        ctx.ok(v.uuid not in seen, "two elements share an identifier", v.id_name, seen.get(v.uuid))
        seen[v.uuid] = "lone " + v.id_name
    ctx.count("similar_names", len(names))
    ctx.case(ctx.oplog)


def short_name(n):
    return n if len(n) < 20 else f"{n[:5]}..{len(n)}..{n[-5:]}"


@scenario("C07", quick=6, thorough=40)
def processes(ctx, rng, i):
    """Fresh processes with other hash seeds create the same identifiers."""
    seed, size = rng.randrange(1 << 30), rng.choice([20, 200])
    want = uuids(build(seed, size))
    code = ("import sys, json; sys.path[:0] = [%r, %r]; from rv.checks.c07 import build, uuids; "
            "print(json.dumps(uuids(build(%d, %d, %s))))")
    for hs, noise in ((0, False), (1, True), (rng.randrange(2, 1 << 31), False)):
        env = dict(os.environ, PYTHONHASHSEED=str(hs))
        ctx.log("process", "hash seed", hs, "noise", noise)
        r = subprocess.run([sys.executable, "-B", "-c", code % (FRAMEWORK, VERIF, seed, size, noise)], env=env,
                           capture_output=True, text=True, cwd=FRAMEWORK, timeout=600)
        ctx.ok(r.returncode == 0, "building in another process", r.stderr[-500:])
        ctx.eq([tuple(x) for x in json.loads(r.stdout)], want, "identifiers of another process", hs)
        ctx.count("processes")
    ctx.state(want)
    ctx.case((seed, size))


@scenario("C07", quick=4, thorough=16)
def many(ctx, rng, i):
    """Hundreds of thousands of identifiers of one factory."""
    n = 300000
    f = HypergraphFactory(f"f{i}", FrozenClock(7))
    root = f.generate_node("root")
    ctx.log("values", n)
    if i % 2:
        ids = [f.create_value(None, f"value{k}").uuid for k in range(n)]
    else:
        ids = [f.unique_identifier.generate_uid(f"root/node{k}") for k in range(n)]
    ctx.eq(len(set(ids)), n, "number of different identifiers of many elements")
    ctx.ok(root.uuid not in set(ids), "the identifier of a root is that of another element")
    ctx.count("many_identifiers")
    ctx.maximum("identifiers_of_one_factory", n)
    ctx.case(i)


@scenario("C07", quick=40, thorough=400)
def ends(ctx, rng, i):
    """Relations and ports are identified by the pair of their ends, not by names."""
    clock = TickClock()
    nodes = [HypergraphNode(rng.choice("ab"), new_uuid(rng), "q", clock, None) for _ in range(rng.choice([2, 8, 30]))]
    top = HypergraphNode("top", b"top", "q", clock, None)
    edges = [HypergraphEdge(rng.choice("ab"), new_uuid(rng), "q", clock, top) for _ in range(rng.choice([2, 8]))]
    rel = {}
    for e in edges:
        for n in rng.sample(nodes, rng.randrange(1, len(nodes) + 1)):
            d = rng.choice(DIRS)
            e.unary_connect(n, None, d)
            ctx.log("connect", edges.index(e), nodes.index(n), d.name)
    for e in edges:
        for r in e.sub_relations:
            ctx.ok(r.uuid not in rel, "relations of different ends share an identifier")
            rel[r.uuid] = (e, r.endpoint)
    ports = [p for n in nodes for p in n.sub_ports]
    ctx.eq(len({p.uuid for p in ports}), len(ports), "identifiers of ports")
    ctx.eq(len(ports), len(rel), "number of ports")
    # connecting again after removal gives the same identifier, also later
    for e in edges:
        r = rng.choice(list(e.sub_relations))
        n, u = r.endpoint, r.uuid
        pu = [p.uuid for p in n.sub_ports if p.endpoint is r]
        list(e.remove_element(uuid=u))
        e.unary_connect(n, None, IN)
        r2 = [x for x in e.sub_relations if x.endpoint is n][0]
        ctx.eq(r2.uuid, u, "identifier of a relation of the same ends")
        ctx.eq([p.uuid for p in n.sub_ports if p.endpoint is r2], pu, "identifier of a port of the same ends")
    ctx.count("relations", len(rel))
    ctx.count("ports", len(ports))
    ctx.case(ctx.oplog)
