import queue

from rv.core import scenario, run
from rv.lib import *
from rv.graphs import random_hypergraph, compare_tensors, parallel
from rei.foundations.hypergraph_traversal_strategies import HypergraphTraversal
from rei.hypergraph.homomorphism_functions import IndexHomomorphismGraphTensor
from rei.hypergraph.norm.norm_functions import SumNorm
from rei.tensor.tensor_representation import NumpyHypergraphTensorTransformer, NumpyTensorRepresentation

RULE = ("Random weighted, directed and undirected hypergraphs (0 to 300 nodes, parallel relations, zero weights, members "
        "removed) are transformed and every entry of the three tensors is judged by an independent model, again after "
        "random changes and for other contexts by the same transformer; non-trivial if there was an entry.")
ASSUMPTIONS = ["the members of the edges of the context are direct nodes of the context",
               "of the two relations of a pair either one may give the weight"]
ANCHORS = ["tensor/tensor_representation.py", "foundations/hypergraph_traversal_strategies.py",
           "hypergraph/norm/norm_functions.py", "hypergraph/homomorphism_functions.py"]
REQUIRED = ["entries", "transformed_again", "other_context", "changed", "empty_graphs", "parallel_relations", "large",
            "inner_edges", "earlier_results", "synchronized"]


@scenario("C15", quick=3000, thorough=10000)
def random_graphs(ctx, rng, i):
    tr = NumpyHypergraphTensorTransformer(rng.choice([1, 1, 1, 2, 5]))
    graphs = []
    total = 0
    for k in range(rng.choice([1, 1, 2])):
        g = random_hypergraph(rng, weighted=rng.random() < 0.6, name=f"root{k}")
        if rng.random() < 0.2 and g.all_edges:
            parallel(rng, g)
            ctx.count("parallel_relations")
        if rng.random() < 0.3:
            # further contents which are no part of the representation
            g.factory.create_value(g.root, "v", [9.0])
            for n in g.all_nodes[:2]:
                x = g.factory.generate_node("inner", n)
                if tr.repr_depth == 1 and rng.random() < 0.5:
                    # beyond the depth of the representation
                    e = HypergraphEdge("inner edge", new_uuid(rng), "q", n.clock, n)
                    for m in [x, *rng.sample(g.all_nodes, min(len(g.all_nodes), 2))]:
                        e.unary_connect(m, None, rng.choice(DIRS))
                    ctx.count("inner_edges")
        graphs.append(g)
    if rng.random() < 0.3:
        # a context inside a larger graph
        graphs[0].factory.generate_node("outer").add_element(graphs[0].root)
    g = last = None
    kept = Kept(rng)
    for k in range(rng.choice([2, 4, 8])):
        g = rng.choice(graphs)
        if k and rng.random() < 0.8:
            for _ in range(rng.randrange(1, 4)):
                g.change(rng)
            ctx.count("changed")
        ctx.log("transform", g.root.id_name, g.describe())
        run(tr.execute(g.root))
        cell = compare_tensors(ctx, tr.tensor_representation, g.root)
        kept.check(ctx)
        rep = tr.tensor_representation
        for t in (rep.W, rep.Io, rep.Ii):
            kept.add("a tensor", t)
        total += len(cell)
        ctx.count("transformed_again", last is g)
        ctx.count("other_context", last is not None and last is not g)
        ctx.count("empty_graphs", not cell)
        ctx.state(sorted(cell.items(), key=repr))
        last = g
    ctx.case(ctx.oplog, total > 0)


@scenario("C15", quick=16, thorough=200)
def large(ctx, rng, i):
    """More nodes than small integers are shared, and edges of many members."""
    g = random_hypergraph(rng, nodes=rng.choice([80, 300]), edges=rng.choice([3, 12]), weighted=True)
    for e in g.all_edges[:2]:
        have = {id(r.endpoint) for r in e.sub_relations}
        for n in rng.sample(g.all_nodes, 40):
            if id(n) not in have:
                g.connect(rng, e, n, True)
    tr = NumpyHypergraphTensorTransformer()
    for _ in range(2):
        ctx.log("transform", len(g.all_nodes), g.describe()[:3])
        run(tr.execute(g.root))
        compare_tensors(ctx, tr.tensor_representation, g.root)
        g.change(rng)
    ctx.count("large")
    ctx.case(ctx.oplog)


@scenario("C15", quick=120, thorough=500)
def failed_transformation(ctx, rng, i):
    """A transformation which failed half-way has no effect on later ones."""
    g = random_hypergraph(rng, nodes=5, edges=4, weighted=True)
    h = random_hypergraph(rng, nodes=4, edges=3, weighted=True, name="other")
    tr = NumpyHypergraphTensorTransformer()
    alien = HypergraphNode("alien", new_uuid(rng), "alien", DummyClock(), None)
    g.all_edges[-1].unary_connect(alien, None, BI)      # a member outside the context cannot be represented
    ctx.log("failing", g.describe())
    try:
        run(tr.execute(g.root))
        ctx.count("accepted_foreign_member")
    except Exception as e:
        ctx.log("failed", type(e).__name__)
        ctx.count("failed_transformations")
    run(tr.execute(h.root))
    compare_tensors(ctx, tr.tensor_representation, h.root)
    r = next(r for r in g.all_edges[-1].sub_relations if r.endpoint is alien)
    list(g.all_edges[-1].remove_element(uuid=r.uuid))
    run(tr.execute(g.root))
    compare_tensors(ctx, tr.tensor_representation, g.root)
    ctx.count("transformed_again")
    ctx.case(ctx.oplog)


@scenario("C15", quick=240, thorough=800)
def one_representation(ctx, rng, i):
    """One representation synchronized with the mappings of several graphs of other sizes, and filled from them."""
    rep = NumpyTensorRepresentation()
    size, kept = None, Kept(rng)
    for k in range(rng.choice([2, 5])):
        g = random_hypergraph(rng, nodes=rng.choice([1, 2, 3, 4, 6]), edges=rng.choice([1, 2, 3, 4, 6]), weighted=True,
                              name=f"root{k}")
        hom = IndexHomomorphismGraphTensor(True)
        run(hom.execute(g.root))
        if (hom.cnt_edges, hom.cnt_node) == size:
            continue                  # nothing is said about the contents in this case
        size = hom.cnt_edges, hom.cnt_node
        ctx.log("synchronize", size, g.describe())
        rep.synchronize_structure_dimensions(hom)
        ctx.eq(rep.W.shape, (size[0], size[1], size[1]), "shape of the weight tensor")
        for t in (rep.Io, rep.Ii):
            ctx.eq(t.shape, size, "shape of an incidence matrix")
        for t in (rep.W, rep.Io, rep.Ii):
            ctx.ok(not t.any(), "a tensor is not zero after other dimensions were set")
        kept.check(ctx)
        q = queue.Queue()
        run(HypergraphTraversal(q.put, true, SumNorm(), hom, 1).execute(g.root))
        run(rep.fill_weights(q, []))
        compare_tensors(ctx, rep, g.root)
        for t in (rep.W, rep.Io, rep.Ii):
            kept.add("a tensor", t)
        ctx.count("synchronized")
    ctx.case(ctx.oplog)
