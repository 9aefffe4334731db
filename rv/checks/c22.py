import copy

from lxml import etree

from rv.core import scenario, run
from rv.lib import *
from rv import robots
from rv.robots import Generator, Builder, model, read_model, compare_structure, compare_numbers, substituted
from rei.foundations.clock import DummyClock
from rei.format.mapping.cognilang_sdf_icon import CognilangSdfIcon
from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory
from rei.format.semantics.CognitiveEntity import KinematicLink, KinematicJoint, CognitiveEntity
from rei.query.query_engine import HierarchicalPrepositionQuery, HypergraphQueryEngine

RULE = ("Graphs of random robot descriptions (trees, chains, loops, forests, world-fixed links, several ends per joint "
        "edge, kinematic graphs nested in several levels and instantiated several times) are converted as the "
        "conversion application does it; the model is compared with the one which follows from the description, names "
        "and references are resolved; the graph is changed and converted again; non-trivial if there are joints.")
ASSUMPTIONS = ["one incoming end per joint edge, which is a link or the world", "nested kinematic graphs are trees of "
               "links with one root", "names contain neither '/' nor '.'"]
ANCHORS = ["format/mapping/cognilang_sdf_icon.py", "format/phys/kinematics/kinematic_semantic_context.py"]
REQUIRED = ["links", "joints", "relative_frames", "instances", "nested_levels_2", "world_joints", "loops",
            "several_ends", "conversions_again", "changed", "one_converter", "one_by_one", "failed_before"]


def elements(root):
    """The elements to convert, as selected by the conversion application."""
    def depth(n):
        return lambda x: x.depth - root.depth <= n if isinstance(x, HypergraphNode) else True
    engine = HypergraphQueryEngine("engine", b"00", "engine/engine", DummyClock(), None)
    engine.add_query("link_query", HierarchicalPrepositionQuery(root, lambda x: isinstance(x, KinematicLink), depth(2)))
    engine.add_query("joint_query", HierarchicalPrepositionQuery(root, lambda x: isinstance(x, KinematicJoint), depth(1)))
    engine.add_query("cognitive_query", HierarchicalPrepositionQuery(root, lambda x: isinstance(x, CognitiveEntity), true))
    return engine.execute_all_queries()


def convert(root):
    icon = CognilangSdfIcon(DummyClock())
    run(icon.encode(elements(root)))
    return icon.root_xml


def snapshot(root):
    """Everything below the root, by identity and names."""
    out, stack = [], [root]
    while stack:
        x = stack.pop()
        sub = children(x)
        out.append((x, x.id_name, x.qualified_name, [id(y) for y in sub]))
        stack += sub
    return out


def same_graph(ctx, before, after):
    ctx.eq([(id(a), n, q, s) for a, n, q, s in after], [(id(a), n, q, s) for a, n, q, s in before],
           "the conversion changed the graph")


def features(ctx, d):
    def walk(g, level, times):
        nested = robots.graphs(g)
        js = robots.joints(g)
        parents = {}
        for j in js:
            outs = [e["ref"] for e in j["ends"] if e["dir"] == "->"]
            ins = [e["ref"] for e in j["ends"] if e["dir"] == "<-"]
            ctx.count("several_ends", len(outs) > 1)
            ctx.count("world_joints", "world" in ins)
            for o in outs:
                parents.setdefault(o, []).extend(ins)
                if o in nested:
                    ctx.count("instances")
                    ctx.count(f"nested_levels_{level + 1}")
                    walk(nested[o], level + 1, times)
        ls = [x["name"] for x in robots.links(g)]
        if len(ls) > 2 and all(parents.get(x) for x in ls):
            ctx.count("loops")
    for g in d["graphs"]:
        walk(g, 0, 1)


def add(ctx, rng, d, b):
    """Adds a link and a joint to, or takes a joint away from, the graph and the description."""
    g = rng.choice(d["graphs"])
    node = b.at([g["name"]])
    js = robots.joints(g)
    gen = Generator(rng, nesting=0)
    gen.entity = d["entity"]
    if js and rng.random() < 0.4:
        j = rng.choice(js)
        edge = [x for x in node.get_subelements(lambda x: isinstance(x, HypergraphEdge)) if x.id_name == j["name"]][0]
        for _ in node.remove_element(uuid=edge.uuid):
            pass
        for r in list(edge.sub_relations):
            for _ in edge.remove_element(uuid=r.uuid):
                pass
        g["items"] = [(k, x) for k, x in g["items"] if x is not j]
        ctx.log("took joint", j["name"], "away")
        return
    used = {x["name"] for _, h in [("", h) for h in d["graphs"]] for _, x in h["items"]}
    ls = robots.links(g)
    new = gen.link(gen.name(used, "added"), [g["name"]])
    g["items"].append(("link", new))
    b.link(new, node)
    ctx.log("added link", new)
    if ls:
        j = gen.joint(None, rng.choice(ls)["name"], [new["name"]], used)
        g["items"].append(("joint", j))
        b.joint(j, node)
        ctx.log("added joint", j)


def describe(rng, i):
    return Generator(rng, size=rng.choice([3, 5, 8]), nesting=rng.choice([1, 2, 2, 3])).description()


@scenario("C22", quick=2800, thorough=12000)
def descriptions(ctx, rng, i):
    d = describe(rng, i)
    ctx.log("description", d)
    b = Builder(rng.choice([TickClock(), LocalClock(), FrozenClock()]), rng)
    root = b.build(d)
    features(ctx, d)
    before = snapshot(root)
    for n in range(rng.choice([1, 1, 2])):
        got = read_model(convert(root))
        compare_structure(ctx, got, model(d))
        ctx.count("conversions")
        ctx.count("conversions_again", n > 0)
    same_graph(ctx, before, snapshot(root))
    ctx.case(d, bool(got["joints"]))
    ctx.state(sorted(got["joints"]))
    for _ in range(rng.choice([0, 1, 3])):
        add(ctx, rng, d, b)
        compare_structure(ctx, read_model(convert(root)), model(d))
        ctx.count("changed")


def only(sdf, n):
    """The n-th model on its own."""
    out = etree.Element("sdf")
    out.append(copy.deepcopy(sdf[n]))
    return out


@scenario("C22", quick=600, thorough=4000)
def converters(ctx, rng, i):
    """One converter for several robots, one after the other: a model for each, the earlier ones stay as they were.
    Elements given one by one, links also before their entity."""
    clock = rng.choice([TickClock(), LocalClock(), FrozenClock()])
    icon = CognilangSdfIcon(DummyClock())
    done = []
    for k in range(rng.choice([2, 3])):
        d = Generator(rng, size=3, nesting=rng.choice([0, 1, 2])).description()
        ctx.log("robot", d)
        b = Builder(clock, rng)
        root = b.build(d)
        if rng.random() < 0.25 and robots.links(d["graphs"][0]):
            # a conversion which fails: the pose of a link cannot be used
            found = elements(Builder(clock, rng).build(d))
            n = len(icon.root_xml)
            try:
                x = rng.choice([x for x in found if isinstance(x, KinematicLink)])
                CognitiveEntitySemanticFactory("wrong", clock).generate_semantic_element(
                    "rigidtransformation", "wrong", x, {"translation": None, "rotation": None, "rotation_type": "rad"})
                run(icon.encode(found))
            except Exception:
                ctx.count("failed_before")
            while len(icon.root_xml) > n:
                icon.root_xml.remove(icon.root_xml[-1])
        run(icon.encode(elements(root)))
        done.append(model(d))
        ctx.eq(len(icon.root_xml), len(done), "number of models of one converter")
        for n, want in enumerate(done):
            got = read_model(only(icon.root_xml, n))
            compare_structure(ctx, got, want)
            compare_numbers(ctx, got, want)
        ctx.count("one_converter", k > 0)
    # one by one
    icon = CognilangSdfIcon(DummyClock())
    found = [x for x in elements(root) if isinstance(x, (KinematicLink, CognitiveEntity))]
    rng.shuffle(found)
    for x in found:
        icon.encode_element(x)
    [m] = list(icon.root_xml)
    ctx.eq(m.get("name"), d["entity"], "name of the model")
    ctx.eq([(x.tag, x.get("name")) for x in m], [("link", x.id_name) for x in found if isinstance(x, KinematicLink)],
           "links encoded one by one")
    got = read_model(icon.root_xml)
    want = model(d)
    want["links"] = {n: v for n, v in want["links"].items() if n in got["links"]}
    compare_numbers(ctx, got, want)
    ctx.count("one_by_one", len(found))
    ctx.case([str(x) for x in done])
