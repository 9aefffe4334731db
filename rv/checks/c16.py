import math
import warnings

import numpy as np

from rv.core import scenario, run
from rv.lib import *
from rv.graphs import random_hypergraph, NONNEG
from rei.hypergraph.sample_graphs.fano_graph import create_fano_graph
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer

RULE = ("All derived quantities of random undirected, directed and mixed hypergraphs (weighted and not) are recomputed "
        "by plain loops from the tensors and, where the graph alone determines them, from the graph; the same graph is "
        "built in permuted orders; everything is read in random order and compared with what was there before; "
        "non-trivial if the graph had connected members.")
ASSUMPTIONS = ["weights are not negative and exactly summable", "normalized quantities need two edges",
               "projected entropy needs a positive total degree",
               "eigenvalues of directed graphs are only compared if they are well-conditioned, and finite in any case"]
ANCHORS = ["tensor/tensor_representation.py", "hypergraph/representation/abstract_representations.py",
           "hypergraph/sample_graphs/fano_graph.py"]
REQUIRED = ["undirected", "directed", "mixed", "weighted", "permuted", "degrees", "entropies", "projected_entropies",
            "reads", "sample_graphs"]


ALIKE = [[1.0], [1.0 + 2.0 ** -20], [1.0 - 2.0 ** -18]]      # nearly, but not equal


def plain(x):
    return np.asarray(x, dtype=float)


def near(ctx, got, want, what):
    got, want = plain(got), plain(want)
    ctx.eq(got.shape, want.shape, "shape of " + what)
    ctx.ok(bool(np.all(np.isfinite(got))), what + " is not finite")
    if got.size:
        d = float(np.max(np.abs(got - want)))
        ctx.ok(d <= 1e-9 * max(1.0, float(np.max(np.abs(want)))), f"{what} differs by {d}",
               got.tolist(), want.tolist())
    else:
        ctx.checks += 1


def h(x):
    return -x * math.log2(x) if x > 0 else 0.0


def reference(W, Io, Ii):
    """The definitions, by plain loops."""
    E, N = Io.shape
    deg = []
    for v in range(N):
        s = sum(Io[e][v] for e in range(E)) + sum(Ii[e][v] for e in range(E))
        deg.append(s / 2 if all(Io[e][v] == Ii[e][v] for e in range(E)) else s)
    D = np.zeros((N, N))
    for v in range(N):
        D[v, v] = deg[v]
    DD = np.zeros((E, N, N))
    for e in range(E):
        for v in range(N):
            s1 = sum(W[e][u][v] for u in range(N))
            s2 = sum(W[e][v][u] for u in range(N))
            DD[e, v, v] = s1 / 2 if s1 == s2 else s1
    L = np.zeros((E, N, N))
    Lp = D.copy()
    for e in range(E):
        for u in range(N):
            for v in range(N):
                L[e, u, v] = DD[e, u, v] - W[e][u][v]
                Lp[u, v] -= W[e][u][v]
    r = {"deg": deg, "D": D, "DD": DD, "L": L, "Lp": Lp, "total_deg": sum(deg)}
    if E > 1:
        Ln = np.zeros((E, N, N))
        for e in range(E):
            for u in range(N):
                for v in range(N):
                    Ln[e, u, v] = L[e, u, v] / (E - 1) / math.sqrt(deg[v] + 1)
        r["Lnorm"] = Ln
        r["entropy_vector"] = np.array([[h(Ln[e, v, v]) for v in range(N)] for e in range(E)]).reshape(E, N)
        r["entropy"] = float(np.sum(r["entropy_vector"]))
    return r


def compare(ctx, rng, rep, kind):
    W, Io, Ii = rep.W.copy(), rep.Io.copy(), rep.Ii.copy()
    want = reference(W.tolist(), Io, Ii)
    read = list(want)
    for _ in range(2):
        rng.shuffle(read)
        for name in read:
            got = getattr(rep, name)
            got = got() if callable(got) else got
            near(ctx, got, want[name], {"deg": "degree", "D": "degree matrix", "DD": "degree tensor", "L": "Laplacian",
                                        "Lp": "projected Laplacian", "Lnorm": "normalized Laplacian"}.get(name, name))
            if rng.random() < 0.3 and isinstance(got, np.ndarray) and got.flags.writeable:
                got.fill(77)           # what is handed out belongs to the caller
                ctx.count("overwritten")
            ctx.count("reads")
            if name == "entropy":
                ctx.count("entropies")
        if want["total_deg"] > 0:
            p = rep.entropy_projected()
            ctx.ok(math.isfinite(p), "projected entropy is not finite", p)
            vec = plain(rep.entropy_projected_vector())
            ctx.ok(abs(float(np.sum(vec)) - p) <= 1e-9 * max(1, abs(p)), "projected entropy is not the sum of its vector")
            M = want["Lp"] / want["total_deg"]
            if np.array_equal(M, M.T):
                q = sum(h(abs(x)) for x in np.linalg.eigvalsh(M))
                ctx.ok(abs(p - q) <= 1e-6, f"projected entropy: observed {p}, expected {q}")
                ctx.eq(len(vec), Io.shape[1], "length of the projected entropy vector")
            else:
                values, vectors = np.linalg.eig(M)
                if np.linalg.cond(vectors) < 1e4:        # (Bauer-Fike: errors of the eigenvalues are below 1e-10)
                    q = sum(h(abs(x)) for x in values)
                    ctx.ok(abs(p - q) <= 1e-6, f"projected entropy of a directed graph: observed {p}, expected {q}")
                    ctx.count("directed_projected_entropies")
            ctx.count("projected_entropies")
            ctx.count("reads")
        ctx.ok(np.array_equal(rep.W, W) and np.array_equal(rep.Io, Io) and np.array_equal(rep.Ii, Ii),
               "reading changed the representation")
    return want


def transform(root):
    tr = NumpyHypergraphTensorTransformer()
    run(tr.execute(root))
    return tr.tensor_representation


@scenario("C16", quick=1800, thorough=5400)
def random_graphs(ctx, rng, i):
    kind = rng.choice(["undirected", "undirected", "directed", "mixed"])
    weighted = rng.random() < 0.4
    g = random_hypergraph(rng, weighted=weighted, nodes=rng.choice([1, 2, 3, 5, 8, 13]),
                          edges=rng.choice([1, 2, 3, 5, 9]), weights=rng.choice([NONNEG, NONNEG, ALIKE]),
                          directions={"undirected": [BI], "directed": [IN, OUT], "mixed": DIRS}[kind])
    for k in range(rng.choice([1, 1, 3])):
        if k:
            g.change(rng, weighted)
        E, N = len(list(g.root.sub_edges)), len(list(g.root.sub_nodes))
        if E == 0 or N == 0:
            continue
        ctx.log(kind, g.describe())
        rep = transform(g.root)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = compare(ctx, rng, rep, kind)
        ctx.count(kind)
        ctx.count("weighted", weighted)
        from_graph(ctx, g, rep, kind)
        ctx.state([round(float(x), 9) for x in want["deg"]])
        if "entropy" in want:
            ctx.state(round(want["entropy"], 9))
        ctx.case(ctx.oplog, want["total_deg"] > 0)


def from_graph(ctx, g, rep, kind):
    """Degrees as the graph alone determines them."""
    nodes, edges = list(g.root.sub_nodes), list(g.root.sub_edges)
    plain_edges = all(r.weight is None for e in edges for r in e.sub_relations)
    if not plain_edges:
        return
    want = []
    for n in nodes:
        d = 0
        for e in edges:
            rels = list(e.sub_relations)
            mine = [r for r in rels if r.endpoint is n]
            for sides in ((IN, BI), (OUT, BI)):
                other = (OUT, BI) if sides[0] is IN else (IN, BI)
                if any(r.direction in sides for r in mine) and \
                        any(r.endpoint is not n and r.direction in other for r in rels):
                    d += 1
        want.append(d / 2 if kind == "undirected" else d)
    if kind == "mixed":
        return
    near(ctx, rep.deg, want, f"degree of an unweighted {kind} graph")
    near(ctx, rep.total_deg, sum(want), f"total degree of an unweighted {kind} graph")
    ctx.count("degrees", len(want))


@scenario("C16", quick=720, thorough=2500)
def permuted(ctx, rng, i):
    """The same graph created in another order of nodes and edges."""
    N, E = rng.choice([2, 3, 5, 8]), rng.choice([2, 3, 6])
    dirs = rng.choice([[BI], [IN, OUT], DIRS])
    spec = []
    for e in range(E):
        w = rng.choice([None, None, 0.5, 2.0])
        spec.append([(n, rng.choice(dirs), w) for n in rng.sample(range(N), rng.randrange(min(N, 5) + 1))])

    def build(np_, ep):
        f = HypergraphFactory("f", FrozenClock())
        root = f.generate_node("root")
        nodes = {n: f.generate_node(f"n{n}", root) for n in np_}
        for e in ep:
            edge = f.create_hyperedge(root, f"e{e}")
            for n, d, w in spec[e]:
                v = None if w is None else f.create_value(None, f"v{e}.{n}", [w])
                edge.unary_connect(nodes[n], v, d)
        return transform(root)
    pn, pe = list(range(N)), list(range(E))
    a = build(pn, pe)
    rng.shuffle(pn)
    rng.shuffle(pe)
    ctx.log("permuted", spec, pn, pe)
    b = build(pn, pe)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ix = np.ix_
        near(ctx, b.W, a.W[ix(pe, pn, pn)], "weight tensor of a permuted graph")
        near(ctx, b.Io, a.Io[ix(pe, pn)], "incidence of a permuted graph")
        near(ctx, b.Ii, a.Ii[ix(pe, pn)], "incidence of a permuted graph")
        near(ctx, b.deg, a.deg[pn], "degrees of a permuted graph")
        near(ctx, b.D, a.D[ix(pn, pn)], "degree matrix of a permuted graph")
        near(ctx, b.DD, a.DD[ix(pe, pn, pn)], "degree tensor of a permuted graph")
        near(ctx, b.L, a.L[ix(pe, pn, pn)], "Laplacian of a permuted graph")
        near(ctx, b.Lp, a.Lp[ix(pn, pn)], "projected Laplacian of a permuted graph")
        near(ctx, b.Lnorm, a.Lnorm[ix(pe, pn, pn)], "normalized Laplacian of a permuted graph")
        near(ctx, b.entropy_vector(), a.entropy_vector()[ix(pe, pn)], "entropy vector of a permuted graph")
        near(ctx, b.entropy(), a.entropy(), "entropy of a permuted graph")
        near(ctx, b.total_deg, a.total_deg, "total degree of a permuted graph")
        if a.total_deg > 0 and dirs == [BI]:
            d = abs(a.entropy_projected() - b.entropy_projected())
            ctx.ok(d < 1e-6, "projected entropy of a permuted graph", d)
    ctx.count("permuted")
    ctx.case(ctx.oplog, a.total_deg > 0)


@scenario("C16", quick=6, thorough=40)
def sample_graphs(ctx, rng, i):
    """The Fano plane: seven points, seven lines, three points on each line, any two points share one line."""
    clock = [DummyClock(), TickClock(), FrozenClock()][i % 3]
    f, root, nodes, edges = create_fano_graph(rng.choice(["fano", "x", "ä"]), clock)
    ctx.log("fano")
    ctx.same(root.sub_nodes, nodes, "points")
    ctx.same(root.sub_edges, edges, "lines")
    rep = transform(root)
    ctx.eq(rep.W.shape, (7, 7, 7), "shape")
    lines = [{nodes.index(n) for n in e.induced_subset} for e in edges]
    for a in range(7):
        for b in range(a):
            ctx.eq(sum(1 for l in lines if a in l and b in l), 1, "lines through two points", a, b)
    for e in range(7):
        for u in range(7):
            for v in range(7):
                ctx.eq(float(rep.W[e, u, v]), float(u != v and u in lines[e] and v in lines[e]), "weight")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        near(ctx, rep.deg, [3] * 7, "degrees of the Fano plane")
        near(ctx, rep.entropy(), 21 * h(1 / 6 / 2), "entropy of the Fano plane")
        # Lp = 3 I - (J - I): eigenvalues -3 and six times 4, total degree 21
        q = h(3 / 21) + 6 * h(4 / 21)
        ctx.ok(abs(rep.entropy_projected() - q) < 1e-9, f"projected entropy of the Fano plane: {rep.entropy_projected()}, {q}")
        compare(ctx, rng, rep, "undirected")
    ctx.count("sample_graphs")
    ctx.case(ctx.oplog + [str(i % 3)])
