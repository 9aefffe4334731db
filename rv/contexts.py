"""Random contexts for encodings: direct nodes, edges and values of a node, possibly inside a larger graph."""
from rv.lib import *
from rv import oracles
from rv.graphs import WEIGHTS, Node, Edge

DATA = [0, 1, -3, 2.5, 1e300, 2 ** 40, -2 ** 70, "text", "", "ä\U0001f600", True, False, None, [1, 2], [], {"a": 1}, b"\0\xff",
        0.1, float("inf")]


def data(rng):
    return [rng.choice(DATA) for _ in range(rng.choice([0, 1, 1, 2, 3, 12]))]


class Context:
    def __init__(self, rng, weighted=True, root_member=True, numbers_only=False):
        self.rng = rng
        self.clock = rng.choice([TickClock, TickClock, FrozenClock])()
        f = self.factory = HypergraphFactory("f", self.clock)
        self.outer = None
        self.used = set()
        parent = None
        if rng.random() < 0.5:
            self.outer = f.generate_node(pick_name(rng))
            parent = self.outer
            for k in range(rng.randrange(3)):
                n = f.generate_node(f"outside{k}", self.outer)
                f.generate_node("inner", n)
            if rng.random() < 0.5:
                parent = f.generate_node(pick_name(rng), parent)
        self.root = f.generate_node(pick_name(rng), parent)
        self.root_member = root_member and rng.random() < 0.3
        self.weighted = weighted and rng.random() < 0.6
        self.numbers_only = numbers_only
        self.directions = rng.choice([DIRS, DIRS, [BI], [IN, OUT]])
        self.cnt = 0
        for _ in range(rng.choice([0, 1, 3, 6, 10])):
            self.grow("node")
        for _ in range(rng.choice([0, 1, 3, 6])):
            self.grow("value")
        for _ in range(rng.choice([0, 1, 2, 5, 8])):
            self.grow("edge")
        if self.outer is not None and rng.random() < 0.5:
            # the surroundings are connected with the context
            e = f.create_hyperedge(self.outer, "outer edge")
            for n in list(self.root.sub_nodes)[:2]:
                e.unary_connect(n, None, BI)

    def name(self):
        """Fresh within the context (identities are made of names and clock readings)."""
        self.cnt += 1
        n = pick_name(self.rng, 0.3)
        while n in self.used:
            n = n + str(self.cnt)
        self.used.add(n)
        return n

    def twin(self):
        """A name which others may have."""
        return self.rng.choice(sorted(self.used)) if self.used and self.rng.random() < 0.7 else self.name()

    def second(self, e):
        """Another relation to a member, as a decoder makes them."""
        rng = self.rng
        rels = list(e.sub_relations)
        if rels:
            r = rng.choice(rels)
            e.add_element(HypergraphRelation(new_uuid(rng), rng.choice([r.id_name, "second"]), "q", r.endpoint, None,
                                             direction=rng.choice(self.directions)))

    def values(self):
        if self.numbers_only:
            return list(self.rng.choice(WEIGHTS))
        return data(self.rng)

    def grow(self, kind):
        rng, f = self.rng, self.factory
        match kind:
            case "node":
                if rng.random() < 0.15:
                    n = Node(self.twin(), new_uuid(rng), "q", self.clock, self.root)
                else:
                    n = f.generate_node(self.name(), self.root)
                for k in range(rng.choice([0, 0, 0, 2])):
                    x = f.generate_node(f"in{k}", n)
                    f.create_value(x, "hidden", [1])
                return n
            case "value":
                return f.create_value(self.root, self.name(), self.values())
            case "edge":
                if rng.random() < 0.15:
                    e = Edge(self.twin(), new_uuid(rng), "q", self.clock, self.root)
                else:
                    e = f.create_hyperedge(self.root, self.name())
                pool = list(self.root.sub_nodes) + ([self.root] if self.root_member else [])
                for n in rng.sample(pool, min(len(pool), rng.randrange(6))):
                    self.connect(e, n)
                if rng.random() < 0.15:
                    self.second(e)
                return e

    def connect(self, e, n):
        rng = self.rng
        w = None
        if self.weighted and rng.random() < 0.5:
            w = self.factory.create_value(self.root if rng.random() < 0.5 else None, self.name(), list(rng.choice(WEIGHTS)))
        e.unary_connect(n, w, rng.choice(self.directions))

    def change(self):
        """A random change of the context."""
        rng = self.rng
        nodes, edges, values = list(self.root.sub_nodes), list(self.root.sub_edges), list(self.root.sub_values)
        match rng.randrange(10):
            case 9:
                if edges:
                    self.second(rng.choice(edges))
            case 0:
                self.grow("node")
            case 1:
                self.grow("edge")
            case 2:
                self.grow("value")
            case 3:
                rels = [(e, r) for e in edges for r in e.sub_relations]
                if rels:
                    e, r = rng.choice(rels)
                    list(e.remove_element(uuid=r.uuid))
            case 4:
                if edges:
                    e = rng.choice(edges)
                    e.deregister()
                    for r in list(e.sub_relations):
                        list(e.remove_element(uuid=r.uuid))
            case 5:
                if values:
                    v = rng.choice(values)
                    if not any(r.weight is v for e in edges for r in e.sub_relations):
                        v.update_values(self.values())
            case 6:
                n = [n for n in nodes if not list(n.sub_ports)]
                if n:
                    rng.choice(n).deregister()
            case 7:
                if edges:
                    e = rng.choice(edges)
                    have = {id(r.endpoint) for r in e.sub_relations}
                    n = [n for n in nodes if id(n) not in have]
                    if n:
                        self.connect(e, rng.choice(n))
            case 8:
                c = nodes + edges + values
                if c:
                    # last in order now
                    x = rng.choice(c)
                    list(self.root.remove_element(uuid=x.uuid))
                    self.root.add_element(x)

    def everything(self):
        top = self.outer if self.outer is not None else self.root
        out, stack, seen = [], [top], set()
        while stack:
            e = stack.pop()
            if id(e) in seen:
                continue
            seen.add(id(e))
            out.append(e)
            stack.extend(children(e))
            if isinstance(e, HypergraphEdge):
                stack.extend(r.weight for r in e.sub_relations if r.weight is not None)
        return out

    def snapshot(self):
        return oracles.snapshot(self.everything())

    def describe(self):
        return [names_path(self.root), [n.id_name for n in self.root.sub_nodes],
                [e.id_name + ":" + " ".join({IN: "<", OUT: ">", BI: "-"}[r.direction] + r.endpoint.id_name
                                            for r in e.sub_relations) for e in self.root.sub_edges],
                [(v.id_name, v.get_values()) for v in self.root.sub_values]]


def walk(root):
    out, stack = [], [root]
    while stack:
        e = stack.pop()
        out.append(e)
        stack.extend(children(e))
    return out
