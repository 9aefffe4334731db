"""Random hypergraphs and an independent model of their tensors."""
import numpy as np

from rv.lib import *

# exactly summable and not negative
NONNEG = [[1.0], [2.0], [0.5, 0.25], [3], [0.125], [1, 2, 3], [7.5], [0.0], []]
WEIGHTS = NONNEG + [[-1.0], [-2.5], [0.1], [1e3 + 0.1], [-0.1, 7], [1, -1], [-3, 1], [1 / 3], [1e-7], [2.0 ** 40 + 1],
                    [1e-320], [-1e12 - 1 / 3], [4, -4, 0.0], [True]]
# members may be of classes derived from the ones of the library
class Node(HypergraphNode):
    pass


class Edge(HypergraphEdge):
    pass


class Graph:
    def __init__(self):
        self.root = None
        self.factory = None
        self.all_nodes, self.all_edges, self.values = [], [], []
        self.cyclic = False
        self.directions = DIRS
        self.weights = WEIGHTS
        self.twins = None        # source of random numbers: nodes and edges of the same name, also in one container
        self.cnt = 0

    def describe(self):
        return [f"{len(self.all_nodes)} nodes"] + [
            e.parent.id_name + ":" + " ".join({IN: "<", OUT: ">", BI: "-"}[r.direction] + r.endpoint.id_name +
                                               ("" if r.weight is None else str(r.weight.get_values()))
                                               for r in e.sub_relations) for e in self.all_edges[:30]]

    def new_node(self, parent):
        self.cnt += 1
        t = self.twins
        if t is not None and t.random() < 0.4:
            n = t.choice([HypergraphNode, HypergraphNode, Node])(
                t.choice(["n1", "n2", "e2", "same"]), new_uuid(t), "q", parent.clock, parent)
        else:
            n = self.factory.generate_node(f"n{self.cnt}", parent)
        self.all_nodes.append(n)
        return n

    def new_edge(self, rng, parent, pool, most, weighted=False, nonneg=True):
        self.cnt += 1
        t = self.twins
        if t is not None and t.random() < 0.4:
            e = t.choice([HypergraphEdge, HypergraphEdge, Edge])(
                t.choice(["e1", "n2", "same"]), new_uuid(t), "q", parent.clock, parent)
        else:
            e = self.factory.create_hyperedge(parent, f"e{self.cnt}")
        self.all_edges.append(e)
        k = rng.choice([0, 1, 2, 2, 3, 3, 4, most])
        for n in rng.sample(pool, min(len(pool), k)):
            self.connect(rng, e, n, weighted)
        return e

    def connect(self, rng, e, n, weighted=False):
        w = None
        if weighted and rng.random() < 0.6:
            self.cnt += 1
            w = self.factory.create_value(None, f"w{self.cnt}", list(rng.choice(self.weights)))
        e.unary_connect(n, w, rng.choice(self.directions))

    def change(self, rng, weighted=True):
        """A random change of connections, edges, nodes or values."""
        direct = [n for n in self.all_nodes if n.parent is self.root]
        match rng.randrange(7):
            case 0:
                self.new_edge(rng, self.root, direct, 4, weighted)
            case 1:
                self.new_node(self.root)
            case 2 | 3:
                c = [(e, r) for e in self.all_edges for r in e.sub_relations]
                if c:
                    e, r = rng.choice(c)
                    list(e.remove_element(uuid=r.uuid))
            case 4:
                if self.all_edges:
                    e = rng.choice(self.all_edges)
                    self.all_edges.remove(e)
                    e.deregister()
            case 5:
                c = [r for e in self.all_edges for r in e.sub_relations if r.weight is not None]
                if c:
                    rng.choice(c).weight.update_values(list(rng.choice(self.weights)))
            case 6:
                # a node leaves with its connections
                c = [n for n in direct if n is not self.root]
                if len(c) > 1:
                    n = rng.choice(c)
                    for e in self.all_edges:
                        for r in [r for r in e.sub_relations if r.endpoint is n]:
                            list(e.remove_element(uuid=r.uuid))
                    self.all_nodes.remove(n)
                    n.deregister()


def random_hypergraph(rng, levels=1, weighted=False, nodes=None, edges=None, directions=None, clock=None, root=None,
                      name="root", weights=WEIGHTS):
    g = Graph()
    g.weights = weights
    g.twins = rng if rng.random() < 0.5 else None
    g.directions = directions or rng.choice([DIRS, DIRS, [BI], [IN, OUT]])
    clock = clock or rng.choice([FrozenClock, TickClock])()
    g.factory = HypergraphFactory("f", clock)
    g.root = root if root is not None else g.factory.generate_node(name)
    nodes = rng.choice([0, 1, 2, 4, 7, 12]) if nodes is None else nodes
    edges = rng.choice([0, 1, 2, 4, 8]) if edges is None else edges
    for _ in range(nodes):
        g.new_node(g.root)
    pool = list(g.all_nodes)
    for l in range(1, levels):
        for n in rng.sample(g.all_nodes, min(len(g.all_nodes), 3)):
            for _ in range(rng.randrange(3)):
                pool.append(g.new_node(n))
    # members may contain edges: the ways lead down, across and back
    holders = [g.root]
    if levels > 1:
        holders += list(g.all_nodes)
        pool = pool + [g.root]
        g.cyclic = True
    for _ in range(edges if levels == 1 else edges * 2):
        h = g.root if levels == 1 or rng.random() < 0.3 else rng.choice(holders)
        g.new_edge(rng, h, pool, rng.choice([5, 9]), weighted)
    return g


def weight_of(r):
    """(as incoming, as outgoing) weight of a relation."""
    n = 1.0 if r.weight is None else float(sum(r.weight.get_values()))
    return (n if r.direction in (IN, BI) else 0.0, n if r.direction in (OUT, BI) else 0.0)


def parallel(rng, g):
    """A second relation of an edge to one of its members (made by hand, as decoders do)."""
    es = [e for e in g.all_edges if list(e.sub_relations)]
    if not es:
        return
    e = rng.choice(es)
    r = rng.choice(list(e.sub_relations))
    w = None
    if rng.random() < 0.5:
        w = ValueNode(new_uuid(rng), "w", "w", list(rng.choice(g.weights)))
    e.add_element(HypergraphRelation(new_uuid(rng), "second", "q", r.endpoint, w, direction=rng.choice(g.directions)))


def cells(edges, node_index):
    """{(edge, u, v): admissible weights} for all ordered pairs of an incoming u and a different outgoing v."""
    out = {}
    for i, e in enumerate(edges):
        rels = [(node_index[id(r.endpoint)], *weight_of(r), r.direction) for r in e.sub_relations]
        for u, win, _, du in rels:
            if du not in (IN, BI):
                continue
            for v, _, wout, dv in rels:
                if dv not in (OUT, BI) or u == v:
                    continue
                out.setdefault((i, u, v), set()).update(x for x in (win, wout) if x != 0.0)
    return out


def same_tensor(ctx, got, shape, admissible, what):
    """Zero exactly where nothing is admissible, one of the admissible numbers elsewhere."""
    ctx.eq(tuple(got.shape), tuple(shape), "shape of " + what)
    ctx.ok(bool(np.all(np.isfinite(got))), what + " is not finite")
    nz = {tuple(int(k) for k in ix) for ix in np.argwhere(got != 0)}
    want = {k for k, v in admissible.items() if v}
    ctx.ok(nz == want, f"entries of {what}", "too many", sorted(nz - want)[:5], "missing", sorted(want - nz)[:5])
    for k in want:
        ctx.ok(any(abs(got[k] - x) <= 1e-9 * max(1.0, abs(x)) for x in admissible[k]),
               f"entry of {what} at {k}: observed {got[k]}, expected one of {sorted(admissible[k])}")
    ctx.count("entries", len(want))


def marginals(cell):
    io, ii = {}, {}
    for (e, u, v), ws in cell.items():
        io.setdefault((e, u), set()).update(ws)
        ii.setdefault((e, v), set()).update(ws)
    return io, ii


def compare_tensors(ctx, rep, root):
    nodes, edges = list(root.sub_nodes), list(root.sub_edges)
    E, N = len(edges), len(nodes)
    cell = cells(edges, {id(n): k for k, n in enumerate(nodes)})
    io, ii = marginals(cell)
    if E == 0 and N == 0:
        for t in (rep.W, rep.Io, rep.Ii):
            ctx.ok(t is None or t.size == 0, "tensor of an empty graph")
        return cell
    same_tensor(ctx, rep.W, (E, N, N), cell, "the weight tensor")
    same_tensor(ctx, rep.Io, (E, N), io, "the outgoing incidence matrix")
    same_tensor(ctx, rep.Ii, (E, N), ii, "the incoming incidence matrix")
    return cell
