import contextlib
import gc
import io
import math
import random
import re
import warnings

import numpy as np
from lxml import etree

from rv.core import scenario, run, Violation
from rv.lib import *
from rv import oracles, robots
from rv.contexts import Context
from rv.graphs import random_hypergraph, parallel
from rv.history import World

from rei.foundations.hierarchical_traversal_strategies import (
    BreadthFirstHierarchicalTraversal, DepthFirstHierarchicalTraversal, DepthLimitedDepthVisitChildren,
    DepthLimitedBreadthVisitChildren, print_graph_hierarchy)
from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.foundations.query.search_elements import QuerySearchSubElement, QuerySearchElement
from rei.hypergraph.norm.norm_functions import SumNorm, ProdNorm
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
from rei.hypergraph.encoding.graph_tensor_icon_cbor import GraphTensorCbor
from rei.hypergraph.factorization_operations import (
    Factorization2Operation, Factorization2SubsetOperation, RelationFactorization2SubsetOperation,
    MapFactorizationToFactorGraph)
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer
from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine
from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon

RULE = ("Random sequences of all kinds of reading (views, traversals, searches, queries, mappings, tensors, encodings, "
        "factorizations, conversions; with new and with kept objects, started and abandoned, and interrupted by failing "
        "conditions) over random graphs; after each the graph is compared with its snapshot; results handed out are "
        "overwritten; the same readings in another order yield the same; a twin of the graph which nobody has read is "
        "changed the same way and remains the same; non-trivial if at least four kinds of reading took place.")
ASSUMPTIONS = ["conditions and visitors do not change the graph", "the attributes and the own list of a value are the value, "
               "not results", "no leftovers of an earlier successful search (known finding of C12)"]
ANCHORS = ["foundations/conceptual_item.py", "hypergraph/base_elements.py", "hypergraph/value_node.py",
           "foundations/hierarchical_traversal_strategies.py", "foundations/hypergraph_traversal_strategies.py",
           "foundations/query/search_elements.py", "query/query_engine.py", "hypergraph/homomorphism_functions.py",
           "tensor/tensor_representation.py", "hypergraph/encoding/graph_tensor_icon.py",
           "hypergraph/encoding/graph_tensor_icon_cbor.py", "hypergraph/factorization_operations.py",
           "format/mapping/cognilang_sdf_icon.py"]
KINDS = ["views", "names", "values", "traverse", "hyper", "mapping", "tensor", "coo", "cbor", "factorize", "query", "search",
         "print", "sdf"]
REQUIRED = ["read_" + k for k in KINDS] + ["kept_objects", "new_objects", "overwritten", "interrupted", "abandoned",
                                           "repeated", "twins", "deep_graphs", "histories", "robots"]


ATTRIBUTES = ["name", "type", "values", "value", "mass", "inertia", "origin", "pose", "translation", "rotation",
              "rotation_type", "diffuse", "ambient", "specular", "emissive", "radius", "length", "x", "y", "z", "dimensions",
              "bounds", "axis", "lower", "upper", "limits", "velocity", "effort", "color", "dim", "rotation_angles"]


class Interruption(Exception):
    pass


def full(top):
    """Everything observable of all elements below the top and of the weights."""
    out, stack, seen = [], [top], set()
    while stack:
        e = stack.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        out.append(e)
        stack.extend(children(e))
        if isinstance(e, HypergraphRelation):
            stack.extend(x for x in (e.weight, e.semantic_value_node) if isinstance(x, HierarchicalElement))
    snap = oracles.snapshot(out)
    for e in out:
        if isinstance(e, SemanticValueNode):
            snap[id(e)].append([(k, type(e[k]), repr(e[k])) for k in ATTRIBUTES])
        if isinstance(e, ValueNode):
            snap[id(e)].append([(type(x), repr(x)) for x in e])
        if isinstance(e, HypergraphRelation):
            snap[id(e)].append(repr(e.weight) if not isinstance(e.weight, HierarchicalElement) else "")
        if isinstance(e, ConceptualItem):
            snap[id(e)].append(id(e.clock))
    return out, snap


def seen(x):
    """What a result says; elements by themselves."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return [seen(y) for y in x]
    if isinstance(x, dict):
        return [(seen(k), seen(v)) for k, v in x.items()]
    if isinstance(x, (HierarchicalElement,)):
        return ("element", id(x))
    if isinstance(x, etree._Element):
        return etree.tostring(x)
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, (float, np.generic)):
        return (type(x).__name__, repr(x))
    return ("other", type(x).__name__)


def label(x, names):
    """As seen, elements replaced by what they are called: comparable with a twin."""
    if isinstance(x, list):
        return [label(y, names) for y in x]
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "element":
        return ("element", names.get(x[1]))
    return x


def entries(els):
    """What is held by reference: the entries of values."""
    return {id(x) for v in els if isinstance(v, ValueNode) for x in v}


def overwrite(ctx, x, held):
    """What was handed out belongs to the caller."""
    if id(x) in held:
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x.fill(77)
            ctx.count("overwritten")
    elif isinstance(x, list):
        for y in x:
            overwrite(ctx, y, held)
        if len(x) > 2:
            x[0] = "alien"
        else:
            x.clear()
        x.append("alien")
        ctx.count("overwritten")
    elif isinstance(x, tuple):
        for y in x:
            overwrite(ctx, y, held)
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, etree._Element):
        for y in list(x):
            x.remove(y)


class Reader:
    """Reads below a root. Each reading follows from the name and a number; objects may be kept."""

    def __init__(self, top, root, rng, keep, deep):
        self.top, self.root, self.keep, self.rng = top, root, keep, rng
        self.kept, self.deep = {}, deep
        self.open, self.wrong = [], []
        self.used = {"kept": 0, "new": 0}

    def one(self, key, make):
        if key in self.kept and self.rng.random() < self.keep:
            self.used["kept"] += 1
            return self.kept[key]
        self.used["new"] += 1
        self.kept[key] = make()
        return self.kept[key]

    def els(self):
        out, stack = [], [self.top]
        while stack:
            x = stack.pop()
            out.append(x)
            stack.extend(children(x))
        return out

    def read(self, kind, number, fail=None):
        """(content of the result, the result). A condition fails at its fail-th evaluation."""
        self.fail, self.evaluated = fail, 0
        self.inputs = []
        r = random.Random(number)
        got = getattr(self, kind)(r)
        for given, copy in self.inputs:
            if len(given) != len(copy) or any(a is not b for a, b in zip(given, copy)):
                raise Violation(f"reading ({kind}) changed the list of elements it was given")
        return seen(got), got

    def given(self, elements):
        self.inputs.append((elements, list(elements)))
        return elements

    def cond(self, f=true):
        def g(x):
            self.evaluated += 1
            if self.fail is not None and self.evaluated >= self.fail:
                raise Interruption
            return f(x)
        return g

    # --- the readings
    def views(self, r):
        out = []
        els = self.els()
        for e in r.sample(els, min(len(els), 6)):
            its = [e.get_subelements(self.cond(r.choice([true, lambda x: isinstance(x, HypergraphElement)])))]
            if isinstance(e, HypergraphElement):
                its.append(e.sub_ports)
                out += [e.is_connected(x) for x in r.sample(els, min(len(els), 3))]
            if isinstance(e, HypergraphNode):
                its += [e.sub_nodes, e.sub_edges, e.sub_values]
                subs = children(e)
                if subs:
                    out.append(e[r.choice(subs).uuid])
            if isinstance(e, HypergraphEdge):
                its += [e.sub_relations, e.induced_subset, e.get_incoming_relations(), e.get_outgoing_relations()]
            if isinstance(e, HypergraphRelation):
                out += [e.endpoint, e.direction.name, e.relation_incidence_value, e.weight]
            out += [list(it) for it in its]
        return out

    def names(self, r):
        out = []
        els = self.els()
        for e in r.sample(els, min(len(els), 6)):
            out += [e.qualified_name, e.id_name, e.uuid, e.depth, e.cid, e.parent, list(e.update_qualified_name())]
            if isinstance(e, ConceptualItem):
                n = r.choice(els).id_name
                out += [e.cnt_subelements, e.timestamp]
                if n and "/" not in n:
                    out.append(list(e.get_element_by_id_name(n)))
        return out

    def values(self, r):
        out = []
        vs = [x for x in self.els() if isinstance(x, ValueNode)]
        for v in r.sample(vs, min(len(vs), 6)):
            out += [v.dim, v.get_values(), [x for x in v]]
            if v.dim:
                n = r.randrange(v.dim)
                out += [v[n], v.get_value(n)]
            try:
                out.append(r.choice([SumNorm, ProdNorm])()(v))
            except TypeError:
                pass
        return [repr(out)] + [x for x in out if isinstance(x, list)]

    def traverse(self, r):
        got = []
        cls = r.choice([BreadthFirstHierarchicalTraversal, DepthFirstHierarchicalTraversal,
                        DepthLimitedDepthVisitChildren, DepthLimitedBreadthVisitChildren])
        limit = (r.choice([0, 1, 2, 5]),) if cls.__name__.startswith("DepthLimited") else ()
        tr = cls(got.append, self.cond(r.choice([true, lambda x: not isinstance(x, HypergraphPort)])), *limit)
        els = self.els()
        handed = run(tr.execute(r.choice([self.root, r.choice(els)])))
        return [got, handed]

    def hyper(self, r):
        self.edges = got = []
        norm = r.choice([SumNorm, SumNorm, ProdNorm])
        mapped = not self.deep and r.random() < 0.4
        depth = r.choice([1, 2, math.inf])
        hom, tr = self.one(("hyper", norm, mapped, depth), lambda: self.traversal(norm, mapped, depth))
        if mapped:
            run(hom.execute(self.root))
        run(tr.execute(self.root))
        return got

    def traversal(self, norm, mapped, depth):
        hom = IndexHomomorphismGraphTensor() if mapped else None
        return hom, HypergraphTraversal(lambda x: self.edges.append([list(y[:3]) + [float(y[3])] for y in x]), self.cond(),
                                        norm(), hom, depth)

    def mapping(self, r):
        key = (r.random() < 0.5, r.choice([1, 2, math.inf]))
        hom = self.one(("mapping", key), lambda: IndexHomomorphismGraphTensor(*key))
        handed = run(hom.execute(self.root))
        nodes = [hom.dim(i) for i in range(hom.cnt_node)]
        edges = [hom.depth(i) for i in range(hom.cnt_edges)]
        return [nodes, edges, [hom.node(u) for u in nodes], [hom.edge(u) for u in edges], len(handed or [])]

    def tensor(self, r):
        tr = self.one("tensor", NumpyHypergraphTensorTransformer)
        run(tr.execute(self.root))
        rep = tr.tensor_representation
        out = [rep.W, rep.Io, rep.Ii]
        if rep.W is not None and rep.W.size:
            with np.errstate(all="ignore"):
                for name in r.choices(["deg", "D", "L", "Lp", "DD", "Lnorm", "total_deg"], k=6):
                    try:
                        x = getattr(rep, name)
                    except ZeroDivisionError:      # a single edge
                        continue
                    out.append(np.copy(x))
                    if isinstance(x, np.ndarray) and x.flags.writeable and r.random() < 0.5:
                        x.fill(77)                 # handed out, belongs to the caller
                        if not np.array_equal(getattr(rep, name), out[-1], equal_nan=True):
                            self.wrong.append(name)
        return out

    def coo(self, r):
        tr = self.one("coo", lambda: CoordinateObjectTransformer(self.root))
        run(tr.reset(self.root))
        run(tr.execute())
        return [tr.node_index_list(), tr.edge_index_list(), tr.msg_relation_index_list(), tr.msg_tensor_value_updates(),
                tr.msg_value_nodes(), tr.msg_value_node_update()]

    def cbor(self, r):
        codec = self.one("cbor", lambda: GraphTensorCbor("codec", DummyClock(), self.root))
        run(codec.update_context(self.root))
        run(codec.update_coo())
        msg = codec.full_msg()
        out = [msg, codec.msg_value_update()]
        receiver = self.one("receiver", lambda: GraphTensorCbor("receiver", DummyClock(), None))
        root, hom = receiver.create_graph(msg)
        out += [root.id_name, len(list(root.sub_nodes)), len(list(root.sub_edges)), len(list(root.sub_values))]
        # what was decoded is not the graph
        for v in root.sub_values:
            v.update_values(["alien"])
        for x in list(root.sub_edges):
            x.deregister()
        return out

    def factorize(self, r):
        els = self.els()
        match r.randrange(4):
            case 0:
                return run(self.one("f2", Factorization2Operation).execute(self.root))
            case 1:
                start = [x for x in els if isinstance(x, (HypergraphNode, HypergraphEdge)) and r.random() < 0.8]
                loop = r.random() < 0.5
                return run(self.one(("f2s", loop), lambda: Factorization2SubsetOperation(loop)).execute(self.given(start)))
            case 2:
                start = [x for x in els if isinstance(x, HypergraphRelation) and r.random() < 0.8]
                loop = r.random() < 0.5
                return run(self.one(("r2s", loop), lambda: RelationFactorization2SubsetOperation(loop)).execute(self.given(start)))
            case 3:
                pairs = run(self.one(("r2s", False), RelationFactorization2SubsetOperation).execute(
                    [x for x in els if isinstance(x, HypergraphRelation)]))
                f = self.cond(lambda p: (p[0].endpoint, p[1].endpoint))
                return list(run(MapFactorizationToFactorGraph(f).execute(self.given(pairs))))

    def query(self, r):
        n, kinds = r.randrange(1, 4), r.sample([HypergraphNode, HypergraphEdge, HypergraphRelation], 3)

        def make():
            engine = HypergraphQueryEngine("engine", b"00", "engine/engine", DummyClock(), None)
            for i, cls in enumerate(kinds[:n]):
                engine.add_query(f"q{i}", HierarchicalPrepositionQuery(self.root, lambda x, cls=cls: isinstance(x, cls),
                                                                       self.cond()))
            return engine
        engine = self.one(("engine", n, tuple(kinds)), make)
        return run(engine.execute()) if r.random() < 0.5 else engine.execute_all_queries()

    def search(self, r):
        drain_searches(run)
        els = self.els()
        cls = r.choice([QuerySearchSubElement, QuerySearchElement])
        q = self.one(cls, cls)
        q.query_def = r.choice(els).qualified_name + r.choice(["", "", "x"])
        run(q.execute(r.choice([self.top, self.root])))
        got = list(q.query_result)
        drain_searches(run)
        return sorted([(x.qualified_name, x.uuid) for x in got])

    def print(self, r):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            run(print_graph_hierarchy(self.root))
        # weights are printed with their address
        return [re.sub("0x[0-9a-f]+", "", out.getvalue())]

    def sdf(self, r):
        root = self.top

        def depth(n):
            return lambda x: x.depth - root.depth <= n if isinstance(x, HypergraphNode) else True

        def make():
            engine = HypergraphQueryEngine("engine", b"00", "engine/engine", DummyClock(), None)
            for name, cls, cond in (("l", robots.KinematicLink, depth(2)), ("j", robots.KinematicJoint, depth(1)),
                                    ("c", robots.CognitiveEntity, true)):
                engine.add_query(name, HierarchicalPrepositionQuery(root, lambda x, cls=cls: isinstance(x, cls),
                                                                    self.cond(cond)))
            return engine
        found = self.one("sdf engine", make).execute_all_queries()
        icon = self.one("sdf", lambda: CognilangSdfIcon(DummyClock()))
        n = len(icon.root_xml)
        run(icon.encode(self.given(found)))
        return [found, icon.root_xml[n]]

    # --- left open
    def begin(self, r):
        """Iterations which are not finished."""
        els = self.els()
        e = r.choice(els)
        its = [e.get_subelements(true), iter(self.els())]
        if isinstance(e, HypergraphElement):
            its.append(e.sub_ports)
        if isinstance(e, HypergraphEdge):
            its += [e.sub_relations, e.induced_subset, e.get_incoming_relations()]
        if isinstance(e, HypergraphNode):
            its += [e.sub_nodes, e.sub_edges]
        if isinstance(e, ValueNode) and not isinstance(e, SemanticValueNode):
            its.append(iter(e))
        if isinstance(e, ConceptualItem) and e.id_name and "/" not in e.id_name:
            its.append(e.get_element_by_id_name(r.choice(children(e) or [e]).id_name.replace("/", "") or "x"))
        it = r.choice(its)
        next(it, None)
        self.open.append(it)


def names_of(els):
    # unique even where names are not: the place in the order of the walk
    return {id(x): (n, x.qualified_name) for n, x in enumerate(els)}


def world_graph(ctx, rng):
    w = World(ctx, rng, limit=rng.choice([8, 25]))
    w.shared_identities = 0
    if not w.history(rng.choice([15, 40]), 0):
        return None
    tops = [m.obj for m in w.els if m.obj.parent is None and isinstance(m.obj, HypergraphNode) and children(m.obj)]
    return rng.choice(tops) if tops else None


def make_graph(seed, source):
    """The same graph for the same seed (identities follow from a clock which the graph does not share)."""
    rng = random.Random(seed)
    if source == "context":
        c = Context(rng, root_member=False)
        return (c.outer or c.root), c.root, lambda r: (setattr(c, "rng", r), c.change())
    if source == "robot":
        gen = robots.Generator(rng, size=3, nesting=rng.choice([0, 1, 2]))
        d = gen.description()
        b = robots.Builder(rng.choice([TickClock, FrozenClock])(), rng)
        root = b.build(d)
        return root, root, None
    g = random_hypergraph(rng, levels=3 if source == "deep" else 1, weighted=True,
                          clock=rng.choice([TickClock, FrozenClock])())
    for _ in range(rng.randrange(3)):
        parallel(rng, g)
    for v in range(rng.randrange(3)):
        g.factory.create_value(g.root, f"v{v}", [v, 1.5])
    return g.root, g.root, lambda r: g.change(r)


def kinds_for(source):
    if source == "robot":
        return ["views", "names", "values", "traverse", "query", "search", "print", "sdf", "sdf", "factorize", "mapping"]
    if source == "world":
        return ["views", "names", "values", "traverse", "query", "search", "print", "mapping"]
    if source == "context":
        # weights and values of any kind
        return [k for k in KINDS if k not in ("sdf",)]
    if source == "deep":
        # tensors and encodings are for one level
        return [k for k in KINDS if k not in ("sdf", "tensor", "coo", "cbor")]
    return [k for k in KINDS if k != "sdf"]


def judge(ctx, top, before, what):
    els, after = full(top)
    oracles.same_snapshot(ctx, before, after, what)
    ctx.ok(len(after) == len(before), what + ": elements appeared")


@scenario("C26", quick=3000, thorough=15000)
def readings(ctx, rng, i):
    source = rng.choice(["flat", "flat", "deep", "context", "context", "robot", "world"])
    seed = rng.randrange(1 << 40)
    if source == "world":
        top = world_graph(ctx, rng)
        if top is None:
            return
        root, change = top, None
    else:
        top, root, change = make_graph(seed, source)
    ctx.count({"deep": "deep_graphs", "world": "histories", "robot": "robots"}.get(source, "flat_graphs"))
    ctx.log("graph", source, seed)
    plan = [(rng.choice(kinds_for(source)), rng.randrange(1 << 30)) for _ in range(rng.choice([4, 8, 12]))]
    reader = Reader(top, root, rng, rng.choice([0.0, 0.5, 1.0]), source == "deep")
    els, before = full(top)
    held = entries(els)
    results = {}
    for n, (kind, number) in enumerate(plan):
        x = rng.random()
        if x < 0.15:
            reader.begin(random.Random(number))
            ctx.count("abandoned")
        if x > 0.85:
            ctx.log("interrupted", kind, number)
            try:
                # objects whose execution failed are not used again
                Reader(top, root, rng, 0.0, source == "deep").read(kind, number, fail=rng.choice([1, 2, 5]))
            except Interruption:
                ctx.count("interrupted")
            judge(ctx, top, before, f"an interrupted reading ({kind})")
            if kind in ("query", "sdf"):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    gc.collect()           # what the interrupted one never awaited
        ctx.log("read", kind, number)
        content, got = reader.read(kind, number)
        ctx.ok(not reader.wrong, "overwriting what was handed out changed what is read later", reader.wrong)
        judge(ctx, top, before, f"reading ({kind})")
        if (kind, number) in results:
            ctx.ok(results[kind, number] == content, f"reading again ({kind}) has another result")
        results[kind, number] = content
        ctx.count("read_" + kind)
        if rng.random() < 0.5:
            overwrite(ctx, got, held)
            judge(ctx, top, before, f"overwriting what was handed out ({kind})")
    # again, in another order, partly with new objects
    again = list(plan)
    rng.shuffle(again)
    reader.keep = rng.choice([0.0, 0.5, 1.0])
    for kind, number in again[:8]:
        content, got = reader.read(kind, number)
        ctx.ok(content == results[kind, number], f"reading again in another order ({kind}) has another result",
               repr(content)[:600], repr(results[kind, number])[:600])
        ctx.count("repeated")
        if rng.random() < 0.3:
            overwrite(ctx, got, held)
    judge(ctx, top, before, "reading in another order")
    ctx.count("kept_objects", reader.used["kept"])
    ctx.count("new_objects", reader.used["new"])
    ctx.case([source, plan], len({k for k, _ in plan}) >= 4)
    ctx.state([source, [names_path(e) for e in els][:60]])
    if change is None:
        return
    # a twin which nobody has read is changed the same way
    ttop, troot, tchange = make_graph(seed, source)
    for k in range(rng.choice([1, 3, 6])):
        s = rng.randrange(1 << 40)
        ctx.log("change", s)
        change(random.Random(s))
        tchange(random.Random(s))
        if rng.random() < 0.5:
            reader.read(rng.choice(plan)[0], s)
    ga, gb = full(top), full(ttop)
    na, nb = names_of(ga[0]), names_of(gb[0])
    ctx.eq(translate(ga, na), translate(gb, nb), "a graph which was read and its twin which was not differ after changes")
    reader.keep = 0.5
    other = Reader(ttop, troot, rng, 0.0, reader.deep)
    for kind, number in plan[:4]:
        ctx.eq(label(reader.read(kind, number)[0], na), label(other.read(kind, number)[0], nb),
               f"reading ({kind}) a graph read before and its twin")
    ctx.count("twins")


def translate(g, names):
    """The snapshot with identities replaced by places."""
    els, snap = g
    clocks = {}

    def t(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, int):
            return names.get(x, clocks.get(x, x if x < 1 << 32 else "outside"))
        if isinstance(x, (list, tuple)):
            return [t(y) for y in x]
        if isinstance(x, dict):
            return {k: t(v) for k, v in x.items()}
        return x
    return [t(snap[id(e)]) for e in els]
