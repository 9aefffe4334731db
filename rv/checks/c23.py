from rv.core import scenario, run
from rv.lib import *
from rv.robots import Generator, Builder, model, read_model, compare_numbers
from rv.checks.c22 import convert, describe, add, same_graph, snapshot
from rv import robots

RULE = ("Every number, shape and material of the models generated from random descriptions is compared with independent "
        "formulas on the description; values of the graph (masses, dimensions, poses, materials) are changed and the "
        "graph is converted again; non-trivial if there are shapes.")
ASSUMPTIONS = ["boxes have one or three dimensions, ellipsoids one or three, cylinders two",
               "a referenced shape has a geometry of its own", "the body of a link is its first own geometry; the inertia "
               "of boxes and of links without own geometry is not claimed"]
ANCHORS = ["format/phys/solid_geometry_context.py", "format/phys/inertia_context.py",
           "format/phys/kinematics/kinematic_semantic_context.py"]
REQUIRED = ["poses", "inertias", "geometries", "referenced", "shared_references", "cylinder", "ellipsoid", "sphere",
            "polyhedron", "degrees", "radians", "changed_values"]


def all_links(b, d):
    def walk(g, node):
        for k, x in g["items"]:
            if k == "link":
                yield x, sub(node, x["name"])
            elif k == "graph":
                yield from walk(x, sub(node, x["name"]))
    for g in d["graphs"]:
        yield from walk(g, sub(b.root, g["name"]))


def sub(node, name):
    return [x for x in node.get_subelements(lambda x: isinstance(x, HypergraphNode)) if x.id_name == name][0]


def the(node, cls):
    return next(node.get_subelements(lambda x: isinstance(x, cls)))


def change(ctx, rng, d, b):
    """Changes one value of the graph and of the description."""
    gen = Generator(rng)
    ls = list(all_links(b, d))
    if not ls:
        return False
    x, node = rng.choice(ls)
    what = rng.choice(["mass", "pose", "geometry", "material"])
    if what == "mass" and x["mass"] is not None:
        x["mass"] = abs(gen.number(True))
        the(node, robots.InertiaElement).add_named_attribute("mass", x["mass"])
    elif what == "pose" and x["pose"] is not None:
        x["pose"] = gen.pose()
        t = the(the(node, KinematicLink), robots.RigidTransformation)
        t.add_named_attribute("translation", list(x["pose"]["t"]))
        t.add_named_attribute("rotation", list(x["pose"]["r"] or [0.0] * 3))
        t.add_named_attribute("rotation_type", {"d": "deg"}.get(x["pose"]["unit"], "rad"))
    elif x["shapes"]:
        s = rng.choice(x["shapes"])
        n = sub(node, s["name"])
        if what == "geometry" and s["geometry"][0] != "ref":
            k, v = s["geometry"]
            v = [gen.number(True) for _ in range(rng.choice({"cylinder": [2]}.get(k, [1, 3])))]
            s["geometry"] = (k, v)
            the(sub(n, "geom_" + s["node"]), robots.GeometryNode).add_named_attribute("values", list(v))
        elif what == "material" and s["material"] is not None:
            s["material"] = rng.choice(robots.MATERIALS)
            the(n, robots.VisualMaterial).add_named_attribute("material_name", s["material"])
        else:
            return False
    else:
        return False
    ctx.log("changed", what, "of", x["name"])
    ctx.count("changed_values")
    return True


from rei.format.semantics.CognitiveEntity import KinematicLink


def features(ctx, b, d):
    targets = {}
    for x, _ in all_links(b, d):
        for s in x["shapes"]:
            k, v = s["geometry"][:2]
            if k == "ref":
                ctx.count("referenced")
                t = tuple(s["geometry"][2])
                targets[t] = targets.get(t, 0) + 1
            else:
                ctx.count("sphere" if k == "ellipsoid" and len(v) == 1 else k)
        if x["pose"] is not None and x["pose"]["unit"] is not None:
            ctx.count({"d": "degrees", "r": "radians"}[x["pose"]["unit"]])
    ctx.count("shared_references", sum(v > 1 for v in targets.values()))
    return bool(targets)


@scenario("C23", quick=2800, thorough=12000)
def numbers(ctx, rng, i):
    d = describe(rng, i)
    ctx.log("description", d)
    b = Builder(TickClock(), rng)
    root = b.build(d)
    features(ctx, b, d)
    before = snapshot(root)
    got = read_model(convert(root))
    compare_numbers(ctx, got, model(d))
    same_graph(ctx, before, snapshot(root))
    ctx.case(d, any(l["shapes"] for v in got["links"].values() for l in v))
    ctx.state(sorted((k, [x["shapes"] for x in v]) for k, v in got["links"].items()))
    for _ in range(rng.choice([0, 2, 5])):
        if change(ctx, rng, d, b):
            compare_numbers(ctx, read_model(convert(root)), model(d))
