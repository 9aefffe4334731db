"""Random histories of operations on the real graph, shadowed by a reference model.

The model knows containment (ordered), ordinals and ports. Which comparisons are made after each operation is the
choice of the check (`observer`), so that a check judges its own property only.
"""
from rv.core import Violation, run
from rv.lib import *


class Desync(Exception):
    """Something else than the property under check went wrong: the model cannot follow any more."""


class M:
    """Model of one element."""
    __slots__ = ("obj", "kind", "parent", "children", "hist", "cid", "endpoint", "rel", "uuid", "name", "label")

    def __init__(self, obj, kind, label):
        self.obj, self.kind, self.label = obj, kind, label
        self.parent, self.children, self.hist, self.cid = None, [], 0, None
        self.endpoint = self.rel = None
        self.uuid, self.name = obj.uuid, obj.id_name

    def child_by_uuid(self, uuid):
        for c in self.children:
            if c.uuid == uuid:
                return c
        return None

    def ports(self):
        return [c for c in self.children if c.kind == "port"]


class OwnNode(HypergraphNode):
    """Users derive from the elements of the library."""


class OwnEdge(HypergraphEdge):
    pass


class OwnValue(ValueNode):
    pass


class OwnRelation(HypergraphRelation):
    pass


CONTAINERS = ("node", "edge", "value", "sem")


class World:
    def __init__(self, ctx, rng, clock=None, observer=None, limit=70):
        self.ctx, self.rng, self.limit = ctx, rng, limit
        self.clock = clock if clock is not None else TickClock(rng.choice([1000, 1000, -1]))
        self.factory = HypergraphFactory("f", self.clock)
        self.sem_factory = CognitiveEntitySemanticFactory("s", self.clock)
        self.els = []
        self.by_id = {}
        self.rel_uuids = {}           # (uuid of edge, uuid of endpoint) -> uuid of the relation between them
        self.observer = observer      # called after each operation: observer(world, kind, touched)
        self.before = None            # called before each operation
        self.on_reject = None         # called with the thunk of an invalid operation
        self.cnt = 0
        self.shared_identities = 0.07        # share of identities which also exist elsewhere
        self.few = rng.random() < 0.35       # few names: many siblings share one
        # Identities of factories are made from clock readings: only unique if the clock advances
        self.unique = not isinstance(self.clock, (FrozenClock, DummyClock))

    def pick(self):
        return self.rng.choice(["a", "b", "c"]) if self.few else pick_name(self.rng)

    # -- model ---------------------------------------------------------------------------------------------------
    def adopt(self, obj, kind):
        self.cnt += 1
        m = M(obj, kind, f"{kind}{self.cnt}")
        if isinstance(obj, (HypergraphRelation, HypergraphPort)):
            m.endpoint = self.by_id.get(id(obj.endpoint))
        self.els.append(m)
        self.by_id[id(obj)] = m
        return m

    def m_attach(self, P, e):
        P.children.append(e)
        e.parent = P
        e.cid = P.hist
        P.hist += 1
        if P.kind == "edge" and e.kind == "rel":
            self.m_port(e)

    def m_port(self, rel):
        ep = rel.endpoint
        if any(p.endpoint is rel for p in ep.ports()):
            return
        known = {id(c.obj) for c in ep.children}
        new = [c for c in children(ep.obj) if isinstance(c, HypergraphPort) and c.endpoint is rel.obj
               and id(c) not in known]
        if len(new) != 1:
            raise Desync(f"{len(new)} new ports of {ep.label} lead to {rel.label}")
        p = self.adopt(new[0], "port")
        p.endpoint = rel
        self.m_attach(ep, p)

    def m_detach(self, e):
        P = e.parent
        P.children.remove(e)
        e.parent = None
        if P.kind == "edge" and e.kind == "rel":
            for p in [p for p in e.endpoint.ports() if p.endpoint is e]:
                e.endpoint.children.remove(p)
                p.parent = None

    def m_inside(self, P, e):
        while P is not None:
            if P is e:
                return True
            P = P.parent
        return False

    def m_port_conflict(self, rel_uuid, endpoint, rel=None):
        return any(p.endpoint.uuid == rel_uuid and p.endpoint is not rel for p in endpoint.ports())

    def add_valid(self, P, e):
        if self.m_inside(P, e) or P.child_by_uuid(e.uuid) is not None:
            return False
        if P.kind == "edge" and e.kind == "rel" and self.m_port_conflict(e.uuid, e.endpoint, e):
            return False
        return True

    # -- driving -------------------------------------------------------------------------------------------------
    def do(self, desc, thunk, valid, effect, touched=()):
        """Performs one operation; an invalid one has to be rejected."""
        self.ctx.log(("" if valid else "[invalid] ") + desc)
        self.ctx.count("op_" + desc.split(" ", 1)[0] + ("" if valid else "_invalid"))
        if self.before is not None:
            self.before(self, touched)
        if valid:
            r = thunk()
            out = effect(r)
            if self.observer is not None:
                self.observer(self, desc.split(" ", 1)[0], touched)
            return out
        if self.on_reject is not None:
            self.on_reject(self, desc, thunk, touched)
            return None
        try:
            thunk()
        except Exception:
            if self.observer is not None:
                self.observer(self, "rejected", touched)
            return None
        if self.observer is not None:
            self.observer(self, "accepted_invalid", touched)
        raise Desync("accepted an invalid operation: " + desc)

    def some(self, kinds, pred=None):
        c = [m for m in self.els if m.kind in kinds and (pred is None or pred(m))]
        return self.rng.choice(c) if c else None

    def container(self, kinds=("node", "node", "node", "edge", "value", "sem")):
        k = self.rng.choice(kinds)
        return self.some((k,)) or self.some(("node",))

    def fresh_uuid(self):
        if self.els and self.rng.random() < self.shared_identities:
            # the same identity in another place
            return self.rng.choice([m for m in self.els if m.kind not in ("port", "rel")]).uuid
        return new_uuid(self.rng)

    # creations
    def new_node(self, parent="?", name=None):
        rng = self.rng
        name = self.pick() if name is None else name
        P = (self.container() if rng.random() < 0.8 else None) if parent == "?" else parent
        if rng.random() < 0.5 or not self.unique:
            u = self.fresh_uuid()
            valid = P is None or P.child_by_uuid(u) is None
            cls = rng.choice([HypergraphNode, HypergraphNode, OwnNode])
            return self.do(f"new_node {name!r} {u[:3].hex()} in {P.label if P else None}",
                           lambda: cls(name, u, "q/" + name, self.clock, P.obj if P else None),
                           valid, lambda o: self._adopt_in(o, "node", P), (P,))
        if P is not None and P.kind not in ("node", "edge"):
            P = self.some(("node",))
        return self.do(f"generate_node {name!r} in {P.label if P else None}",
                       lambda: self.factory.generate_node(name, P.obj if P else None), True,
                       lambda o: self._adopt_in(o, "node", P), (P,))

    def new_edge(self, parent="?", name=None):
        rng = self.rng
        name = self.pick() if name is None else name
        P = self.container(("node", "node", "edge")) if parent == "?" else parent
        if P is None:
            return
        if rng.random() < 0.5 or not self.unique:
            u = self.fresh_uuid()
            cls = rng.choice([HypergraphEdge, HypergraphEdge, OwnEdge])
            return self.do(f"new_edge {name!r} {u[:3].hex()} in {P.label}",
                           lambda: cls(name, u, "q/" + name, self.clock, P.obj),
                           P.child_by_uuid(u) is None, lambda o: self._adopt_in(o, "edge", P), (P,))
        return self.do(f"create_hyperedge {name!r} in {P.label}",
                       lambda: self.factory.create_hyperedge(P.obj, name), True,
                       lambda o: self._adopt_in(o, "edge", P), (P,))

    def new_value(self, parent="?", name=None):
        rng = self.rng
        name = self.pick() if name is None else name
        vals = [rng.choice([0, 1.5, -2, "s", None]) for _ in range(rng.randrange(4))]
        P = (self.container() if rng.random() < 0.8 else None) if parent == "?" else parent
        if rng.random() < 0.4 or not self.unique:
            u = self.fresh_uuid()
            cls = rng.choice([ValueNode, ValueNode, OwnValue])
            m = self.do(f"new_value {name!r} {u[:3].hex()}", lambda: cls(u, name, "q", vals), True,
                        lambda o: self._adopt_in(o, "value", None))
            if P is not None:
                self.add(P, m)
            return m
        return self.do(f"create_value {name!r} {vals} in {P.label if P else None}",
                       lambda: self.factory.create_value(P.obj if P else None, name, vals), True,
                       lambda o: self._adopt_in(o, "value", P), (P,))

    def new_sem(self, parent="?", name=None):
        rng = self.rng
        name = self.pick() if name is None else name
        P = self.container() if parent == "?" else parent
        if P is None or rng.random() < 0.5 or not self.unique:
            u = self.fresh_uuid()
            m = self.do(f"new_sem {name!r} {u[:3].hex()}",
                        lambda: SemanticValueNode(u, name, "q/" + name, None, {"name": name}), True,
                        lambda o: self._adopt_in(o, "sem", None))
            if P is not None:
                self.add(P, m)
            return m
        kind = rng.choice(["cognitive_entity", "kinematic_link", "material", "Inertia_Element"])
        return self.do(f"semantic_element {kind} {name!r} in {P.label}",
                       lambda: self.sem_factory.generate_semantic_element(kind, name, P.obj, {"name": name}), True,
                       lambda o: self._adopt_in(o, "sem", P), (P,))

    def _adopt_in(self, obj, kind, P):
        m = self.adopt(obj, kind)
        if P is not None:
            self.m_attach(P, m)
        return m

    # connections
    def connect(self, edge=None, endpoint=None, sem=None):
        rng = self.rng
        edge = edge or self.some(("edge",))
        endpoint = endpoint or (self.some(("node",)) if rng.random() < 0.9 else self.some(("edge",)))
        if edge is None or endpoint is None:
            return
        direction = rng.choice(DIRS)
        weight = self.some(("value",)) if rng.random() < 0.3 else None
        if sem is None and rng.random() < 0.15:
            sem = self.some(("sem",), lambda m: m.parent is None and not m.children)
        key = (edge.uuid, endpoint.uuid)
        u = self.rel_uuids.get(key)
        valid = u is None or (edge.child_by_uuid(u) is None and not self.m_port_conflict(u, endpoint))

        def effect(_):
            known = {id(c.obj) for c in edge.children}
            new = [c for c in children(edge.obj) if id(c) not in known and isinstance(c, HypergraphRelation)]
            if len(new) != 1:
                raise Desync(f"{len(new)} new relations")
            r = self.adopt(new[0], "rel")
            r.endpoint = endpoint
            self.rel_uuids[key] = r.uuid
            self.m_attach(edge, r)
            if sem is not None:
                self.m_attach(r, sem)
            return r
        return self.do(f"unary_connect {edge.label} {direction.name} {endpoint.label} weight "
                       f"{weight.label if weight else None} sem {sem.label if sem else None}",
                       lambda: edge.obj.unary_connect(endpoint.obj, weight.obj if weight else None, direction,
                                                      sem.obj if sem else None),
                       valid, effect, (edge, endpoint, sem))

    def new_relation(self):
        """A relation which belongs to no edge yet."""
        rng = self.rng
        endpoint = self.some(("node",))
        if endpoint is None:
            return
        u = self.fresh_uuid()
        d = rng.choice(DIRS)
        cls = rng.choice([HypergraphRelation, HypergraphRelation, OwnRelation])
        return self.do(f"new_relation {u[:3].hex()} {d.name} {endpoint.label}",
                       lambda: cls(u, pick_name(rng), "q", endpoint.obj, None, direction=d), True,
                       lambda o: self._adopt_in(o, "rel", None), (endpoint,))

    def factory_connect(self, many=None):
        rng = self.rng
        P = self.some(("node",))
        nodes = [m for m in self.els if m.kind == "node"]
        if P is None or not self.unique:
            return
        picked, uu = [], set()
        for m in rng.sample(nodes, min(len(nodes), rng.randrange(many or 5))):
            if m.uuid not in uu:
                uu.add(m.uuid)
                picked.append(m)
        name = self.pick()
        k = rng.randrange(len(picked) + 1)

        def thunk():
            match rng.randrange(3):
                case 0:
                    return self.factory.connect_nodes(P.obj, name, [m.obj for m in picked], rng.choice(DIRS))
                case 1:
                    return self.factory.connect_dir_edges(P.obj, name, [m.obj for m in picked[:k]],
                                                          [m.obj for m in picked[k:]])
                case _:
                    return self.factory.connect_tuple_nodes(
                        P.obj, name, [(m.obj, rng.choice(DIRS), None, None) for m in picked])

        def effect(o):
            e = self._adopt_in(o, "edge", P)
            rels = [c for c in children(o) if isinstance(c, HypergraphRelation)]
            if len(rels) != len(picked) or any(r.endpoint is not m.obj for r, m in zip(rels, picked)):
                raise Desync("connected other endpoints")
            for r, m in zip(rels, picked):
                mr = self.adopt(r, "rel")
                mr.endpoint = m
                self.rel_uuids[(e.uuid, m.uuid)] = mr.uuid
                self.m_attach(e, mr)
            return e
        return self.do(f"factory_connect {name!r} in {P.label} {[m.label for m in picked]}", thunk, True, effect,
                       (P, *picked))

    # insertion, move
    def add(self, P=None, e=None):
        rng = self.rng
        if e is None:
            e = rng.choice([m for m in self.els if m.kind != "port"])
        if P is None:
            if e.kind == "rel":
                P = self.some(("edge",)) if rng.random() < 0.9 else self.some(("node",))
            elif e.kind == "sem":
                P = self.some(CONTAINERS + ("rel",))
            else:
                P = self.container()
        if P is None:
            return
        valid = self.add_valid(P, e)

        def effect(_):
            if e.parent is not None:
                self.m_detach(e)
            self.m_attach(P, e)
        register = e.kind in ("node", "edge") and rng.random() < 0.3
        return self.do(f"{'register' if register else 'add'} {e.label} to {P.label} (from "
                       f"{e.parent.label if e.parent else None})",
                       (lambda: e.obj.register(P.obj)) if register else (lambda: P.obj.add_element(e.obj)),
                       valid, effect, (P, e, e.parent))

    # removal
    def remove(self):
        rng = self.rng
        cands = [m for m in self.els if m.parent is not None and m.kind != "port"]
        if not cands:
            return
        e = rng.choice(cands)
        P = e.parent
        how = rng.randrange(6)
        if how == 0 and e.kind in ("node", "edge"):
            return self.do(f"deregister {e.label}", lambda: e.obj.deregister(), True,
                           lambda _: self.m_detach(e), (P, e))
        if how <= 2:
            return self.do(f"remove_uuid {e.label} from {P.label}",
                           lambda: list(P.obj.remove_element(uuid=e.uuid)), True,
                           lambda r: self._removed(P, [e], r), (P, e))
        if how == 3 and e.name != "":
            return self.do(f"remove_both {e.label} from {P.label}",
                           lambda: list(P.obj.remove_element(id_name=e.name, uuid=e.uuid)), True,
                           lambda r: self._removed(P, [e], r), (P, e))
        same = [c for c in P.children if c.name == e.name]
        if e.name == "" or any(c.kind == "port" for c in same):
            return
        if how == 4 or len(same) == 1:
            return self.do(f"remove_name {e.name!r} ({len(same)}) from {P.label}",
                           lambda: list(P.obj.remove_element(id_name=e.name)), True,
                           lambda r: self._removed(P, same, r), (P, *same))
        k = rng.randrange(1, len(same))

        def partial():
            it = P.obj.remove_element(id_name=e.name)
            got = []
            for _ in range(k):
                got.append(next(it))
                if self.observer is not None:
                    self.sync_removed(P, same)
                    self.observer(self, "remove_step", (P, *same))
            it.close()
            return got

        def effect(got):
            self.sync_removed(P, same)
            return self.handed_back(got, same[:k])
        return self.do(f"remove_partial {e.name!r} {k} of {len(same)} from {P.label}", partial, True, effect,
                       (P, *same))

    def sync_removed(self, P, cands):
        for c in cands:
            if c.parent is P and c.obj.parent is None:
                self.m_detach(c)

    def _removed(self, P, es, result):
        for e in es:
            self.m_detach(e)
        self.handed_back(result, es)

    def handed_back(self, got, want):
        if self.ctx.prop == "C01":
            self.ctx.same(got, [m.obj for m in want], "elements handed back by a removal")

    # bulk
    def bulk_add(self):
        rng = self.rng
        P = self.container(("node", "edge"))
        if P is None or not hasattr(P.obj, "add_elements"):
            return
        cands = [m for m in self.els if m.kind in ("node", "edge", "value", "sem")]
        sel = [m for m in rng.sample(cands, min(len(cands), rng.randrange(5)))
               if not self.m_inside(P, m) and P.child_by_uuid(m.uuid) is None]
        uu, es = set(), []
        for m in sel:                      # no duplicates among themselves, no nesting among themselves
            if m.uuid not in uu:
                uu.add(m.uuid)
                es.append(m)

        def effect(_):
            for e in es:
                if e.parent is not None:
                    self.m_detach(e)
                self.m_attach(P, e)
        return self.do(f"add_elements {[e.label for e in es]} to {P.label}",
                       lambda: run(P.obj.add_elements(iter([e.obj for e in es]))), True, effect, (P, *es))

    def bulk_remove(self):
        rng = self.rng
        P = self.some(("node", "edge"), lambda m: any(c.kind != "port" for c in m.children))
        if P is None:
            return
        c = [x for x in P.children if x.kind != "port"]
        es = rng.sample(c, rng.randrange(min(4, len(c)) + 1))
        q = [(e.name, e.uuid) if rng.random() < 0.5 else ("", e.uuid) for e in es]

        def effect(_):
            for e in es:
                self.m_detach(e)
        return self.do(f"remove_elements {[e.label for e in es]} from {P.label}",
                       lambda: run(P.obj.remove_elements(q)), True, effect, (P, *es))

    # invalid ones
    def invalid(self):
        rng = self.rng
        P = self.container(("node", "node", "edge", "value", "sem"))
        if P is None:
            return
        nothing = lambda r: None
        match rng.randrange(8):
            case 0:
                u = new_uuid(rng)
                self.do(f"remove_missing_uuid from {P.label}", lambda: list(P.obj.remove_element(uuid=u)), False,
                        nothing, (P,))
            case 1:
                if P.children:
                    c = rng.choice(P.children)
                    self.do(f"remove_wrong_name {c.label} from {P.label}",
                            lambda: list(P.obj.remove_element(id_name=c.name + "_no", uuid=c.uuid)), False, nothing,
                            (P, c))
            case 2:
                names = {c.name for c in P.children if c.name}
                if len(names) > 1:
                    c = rng.choice([c for c in P.children if c.name])
                    other = rng.choice(sorted(names - {c.name}))
                    if not any(x.name == other and x.uuid == c.uuid for x in P.children):
                        self.do(f"remove_others_name {c.label} as {other!r} from {P.label}",
                                lambda: list(P.obj.remove_element(id_name=other, uuid=c.uuid)), False, nothing, (P, c))
            case 3:
                self.do(f"remove_nothing from {P.label}", lambda: list(P.obj.remove_element()), False, nothing, (P,))
            case 4:
                # below itself, at any distance
                chain = []
                m = P
                while m is not None:
                    chain.append(m)
                    m = m.parent
                a = rng.choice(chain)
                if a.kind != "port":
                    self.do(f"add_ancestor {a.label} to {P.label}", lambda: P.obj.add_element(a.obj), False, nothing,
                            (P, a))
            case 5:
                c = [x for x in P.children if x.kind != "port"]
                if c:
                    e = rng.choice(c)
                    self.do(f"add_again {e.label} to {P.label}", lambda: P.obj.add_element(e.obj), False, nothing,
                            (P, e))
            case 6:
                r = self.some(("rel",), lambda m: m.parent is not None and m.parent.kind == "edge" and
                              self.rel_uuids.get((m.parent.uuid, m.endpoint.uuid)) == m.uuid)
                if r is not None:
                    self.connect(r.parent, r.endpoint)
            case 7:
                nodes = [m for m in self.els if m.kind == "node"]
                C = self.some(("node",))
                if C is not None and nodes:
                    ns = rng.sample(nodes, min(len(nodes), rng.randrange(1, 4)))
                    vals = [ValueNode(new_uuid(rng), "v", "v", [1.0])
                            for _ in range(rng.choice([x for x in range(6) if x != len(ns)]))]
                    k = rng.randrange(len(ns) + 1)
                    if rng.random() < 0.5:
                        self.do(f"connect_wrong_values {len(ns)} nodes {len(vals)} values",
                                lambda: self.factory.connect_nodes(C.obj, pick_name(rng), [n.obj for n in ns], BI, vals),
                                False, nothing, (C, *ns))
                    else:
                        self.do(f"connect2_wrong_values {k}+{len(ns) - k} nodes {len(vals)} values",
                                lambda: self.factory.connect_2factor_edges(
                                    C.obj, pick_name(rng), [n.obj for n in ns[:k]], [n.obj for n in ns[k:]],
                                    (IN, OUT), vals), False, nothing, (C, *ns))

    # -- a random step -------------------------------------------------------------------------------------------
    def step(self, invalid=0.08):
        rng = self.rng
        if rng.random() < invalid:
            return self.invalid()
        grow = len(self.els) < self.limit
        ops = [(self.new_node, 6 if grow else 0), (self.new_edge, 3 if grow else 0), (self.new_value, 2 if grow else 0),
               (self.new_sem, 1 if grow else 0), (self.connect, 6 if len(self.els) < self.limit * 2 else 1),
               (self.new_relation, 1 if grow else 0), (self.factory_connect, 2 if grow else 0), (self.add, 8),
               (self.remove, 5), (self.bulk_add, 1), (self.bulk_remove, 1)]
        total = sum(w for _, w in ops)
        x = rng.random() * total
        for f, w in ops:
            x -= w
            if x < 0:
                return f()

    def history(self, steps, invalid=0.08):
        for i in range(2):
            self.new_node(None, name=f"root{i}")
        for _ in range(steps):
            try:
                self.step(invalid)
            except Desync as d:
                self.ctx.count("desynchronised")
                self.ctx.log("DESYNC", d)
                if self.observer is not None:      # what can be judged without the model
                    self.observer(self, "accepted_invalid", ())
                return False
        return True

    def shape(self):
        """The observed shape (for counting distinct states)."""
        pos = {id(m.obj): i for i, m in enumerate(self.els)}
        return [(m.kind, pos.get(id(m.obj.parent), -1)) for m in self.els]
