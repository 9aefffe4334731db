import contextlib
import glob
import importlib.util
import io
import os
import shutil
import sys
import tempfile

from lxml import etree

from rv import cogni
from rv.core import scenario, run, FRAMEWORK
from rv.lib import *

LANGUAGE = cogni.install()

from rv import robots
from rv.robots import (Generator, Builder, to_text, substituted, model, read_model, compare_structure, compare_numbers,
                       close, pose_numbers, SEMANTIC_CLASS)
from rv.checks.c22 import convert
from rei.format.mapping.cognilang_file_icon import CognilangParserFileIcon
from rei.format.semantics.CognitiveEntity import (CognitiveEntity, KinematicGraphDefinition, KinematicLink,
                                                  KinematicJoint, RigidTransformation, InertiaElement, VisualMaterial)

RULE = ("Random descriptions (links, joints, nested kinematic graphs, shapes and references, parameters, ambient parts, "
        "comments, all numbers) are written as text, parsed by the grammars of the repository, interpreted, and the "
        "graph is compared element by element with the one which follows from the description; the model generated from "
        "it is compared as well; so are the examples of the repository; non-trivial if there are joints or references.")
ASSUMPTIONS = ["the parser ANTLR generates at build time is not available here: a stand-in interprets the grammars",
               "one element without name of each kind per link, shapes are defined before they are referenced and have a "
               "geometry of their own then", "names contain no '/'"]
ANCHORS = ["format/mapping/cognilang_file_icon.py", "format/mapping/cognilang_map_utility.py",
           "format/semantics/cognitive_entity_semantic_factory.py"]
REQUIRED = ["texts", "graph_nodes", "joint_ends", "references", "parameters_used", "sensors", "actuators", "world_ends",
            "examples", "models", "application_runs", "interpreted_again", "same_text_again", "errors_before", "placed_graphs",
            "links", "joints", "geometries", "poses", "inertias"]


def interpret(text, icon=None):
    tree = LANGUAGE.parse(text)
    icon = icon or CognilangParserFileIcon("cogni_lang_file", LocalClock())
    with contextlib.redirect_stdout(io.StringIO()):
        icon.visit(tree)
    return icon.root_entity


def of(el, cls):
    return [x for x in el.get_subelements(lambda x: isinstance(x, cls))]


def one(ctx, el, cls, what):
    found = of(el, cls)
    ctx.eq(len(found), 1, f"number of {cls.__name__} of {what}")
    return found[0]


def semantics(ctx, el, classes, what):
    """The semantic values of an element are of exactly these classes."""
    got = sorted(type(x).__name__ for x in of(el, SemanticValueNode))
    ctx.eq(got, sorted(c.__name__ for c in classes), f"semantic values of {what}")


def check_pose(ctx, holder, p, what):
    if p is None:
        ctx.eq(len(of(holder, RigidTransformation)), 0, f"number of transformations of {what}")
        return
    t = one(ctx, holder, RigidTransformation, what)
    ctx.ok(close(t["translation"], p["t"]), f"translation of {what}: {t['translation']}, expected {p['t']}")
    rot = [float(x) for x in t["rotation"]]
    if t["rotation_type"] == "deg":
        rot = [x * 3.141592653589793 / 180 for x in rot]
    ctx.ok(close(rot, pose_numbers(p)[3:]), f"rotation of {what}: {t['rotation']} {t['rotation_type']}, expected {p}")


def nodes(ctx, el, names, what):
    """-> {name: node}: the nodes below an element are exactly these."""
    found = of(el, HypergraphNode)
    ctx.eq(sorted(x.id_name for x in found), sorted(names), f"nodes below {what}")
    ctx.count("graph_nodes", len(found))
    for x in found:
        ctx.ok(x.parent is el, f"parent of {x.id_name} below {what}")
    return {x.id_name: x for x in found}


def check_link(ctx, node, x, where, targets, references):
    what = where + "/" + x["name"]
    semantics(ctx, node, [KinematicLink] + [InertiaElement] * (x["mass"] is not None), what)
    sem = one(ctx, node, KinematicLink, what)
    ctx.eq(sem["name"], x["name"], f"name attribute of {what}")
    check_pose(ctx, sem, x["pose"], what)
    if x["mass"] is not None:
        ctx.eq(one(ctx, node, InertiaElement, what)["mass"], x["mass"], f"mass of {what}")
    found = of(node, HypergraphNode)
    ctx.eq(len(found), len(x["shapes"]), f"number of shapes of {what}")
    named = {s["name"] for s in x["shapes"] if s["name"] is not None}
    by_name = {n.id_name: n for n in found if n.id_name in named}
    ctx.eq(set(by_name), named, f"shapes of {what}")
    rest = {}
    for n in found:
        if n.id_name not in named:
            kind = "visual" if of(n, VisualMaterial) else "collision"
            ctx.ok(kind not in rest, f"two {kind} elements without name in {what}")
            rest[kind] = n
    for s in x["shapes"]:
        n = by_name[s["name"]] if s["name"] is not None else rest.get(s["kind"])
        ctx.ok(n is not None, f"{s['kind']} element of {what} is missing")
        s["node"] = n.id_name
        label = f"{s['kind']} {n.id_name} of {what}"
        ctx.ok(n.parent is node, "parent of " + label)
        targets[(where, x["name"], s["name"])] = n
        semantics(ctx, n, [VisualMaterial] * (s["kind"] == "visual"), label)
        if s["kind"] == "visual":
            m = one(ctx, n, VisualMaterial, label)["material_name"]
            ctx.eq(m, s["material"] or "white", "material of " + label)
        inner = of(n, HypergraphNode)
        ctx.eq(len(inner), 1, "number of geometries of " + label)
        g = s["geometry"]
        s["node"] = inner[0].id_name.removeprefix("geom_")
        if g[0] == "ref":
            semantics(ctx, inner[0], [], "geometry of " + label)
            references.append((where, inner[0], g[2], label))
        else:
            semantics(ctx, inner[0], [SEMANTIC_CLASS[g[0]]], "geometry of " + label)
            v = one(ctx, inner[0], SEMANTIC_CLASS[g[0]], label)["values"]
            ctx.eq(list(v), [float(y) for y in g[1]], "dimensions of " + label)


def check_joint(ctx, edge, j, found, graph, where, worlds):
    what = f"joint {where}/{j['name']}"
    ctx.ok(edge.parent is graph, "parent of " + what)
    ctx.eq(len(of(edge, SemanticValueNode)), 0, "number of semantic values of " + what)
    rels = list(edge.sub_relations)
    ctx.eq(len(rels), len(j["ends"]), "number of ends of " + what)
    ends = {r.endpoint.id_name: r for r in rels}
    ctx.eq(sorted(ends), sorted(e["ref"] for e in j["ends"]), "ends of " + what)
    for e in j["ends"]:
        r = ends[e["ref"]]
        label = f"end {e['ref']} of {what}"
        if e["ref"] == "world":
            worlds.append(r.endpoint)
            ctx.ok(r.endpoint.parent is None, "the world has a parent")
            ctx.count("world_ends")
        else:
            ctx.ok(r.endpoint is found[e["ref"]], label + " is another element of that name")
        ctx.eq(r.direction, {"<-": IN, "->": OUT, "--": BI}[e["dir"]], "direction of " + label)
        semantics(ctx, r, [KinematicJoint], label)
        s = one(ctx, r, KinematicJoint, label)
        ctx.ok(s.parent is r, "parent of the semantic value of " + label)
        ctx.eq(s.id_name, j["name"] + "." + e["ref"], "name of " + label)
        ctx.eq(s["joint_type"], e["type"], "joint type of " + label)
        ctx.eq(None if s["axis"] is None else [float(x) for x in s["axis"]], e["axis"], "axis of " + label)
        check_pose(ctx, s, e["pose"], label)
        if e["pose"] is None:
            ctx.ok(r.weight is None, f"value of {label}: {r.weight}")
        else:
            w = r.weight
            w = w.get_values() if isinstance(w, ValueNode) else w
            p = pose_numbers(e["pose"])
            ctx.ok(len(w) == 2 and close([float(x) for x in w[0]], p[:3]) and close([float(x) for x in w[1]], p[3:]),
                   f"value of {label}: {w}, expected {p}")
        ctx.count("joint_ends")


def check_graph(ctx, node, g, where, targets, references, worlds, edges):
    where = where + "/" + g["name"] if where else g["name"]
    semantics(ctx, node, [KinematicGraphDefinition], where)
    ctx.eq(one(ctx, node, KinematicGraphDefinition, where)["name"], g["name"], "name attribute of " + where)
    found = nodes(ctx, node, [x["name"] for k, x in g["items"] if k != "joint"], where)
    for k, x in g["items"]:
        if k == "link":
            check_link(ctx, found[x["name"]], x, where, targets, references)
        elif k == "graph":
            check_graph(ctx, found[x["name"]], x, where, targets, references, worlds, edges)
    es = of(node, HypergraphEdge)
    names = {x["name"] for k, x in g["items"] if k == "joint"}
    by_name = [e for e in es if e.id_name in names]
    ctx.eq(sorted(e.id_name for e in by_name), sorted(names), "joints of " + where)
    for e in by_name:
        check_joint(ctx, e, [x for k, x in g["items"] if k == "joint" and x["name"] == e.id_name][0], found, node, where,
                    worlds)
    edges[where] = [e for e in es if e.id_name not in names]


def check_ambient(ctx, node, a, where, *rest):
    what = where + "/" + a["name"] if where else a["name"]
    semantics(ctx, node, [], what)
    ctx.eq(len(of(node, HypergraphEdge)), 0, "number of edges of " + what)
    found = nodes(ctx, node, [x["name"] for _, x in a["items"]], what)
    for k, x in a["items"]:
        if k == "ambient":
            check_ambient(ctx, found[x["name"]], x, what, *rest)
        elif k == "graph":
            check_graph(ctx, found[x["name"]], x, what, *rest)
            ctx.count("placed_graphs")
        else:
            nodes(ctx, found[x["name"]], [], what + "/" + x["name"])
            ctx.count(k + "s")


def check_description(ctx, root, d):
    ctx.eq(root.id_name, d["entity"], "name of the entity")
    ctx.ok(root.parent is None, "the entity has a parent")
    semantics(ctx, root, [CognitiveEntity], "the entity")
    ctx.eq(one(ctx, root, CognitiveEntity, "the entity")["name"], d["entity"], "name attribute of the entity")
    found = nodes(ctx, root, [g["name"] for g in d["graphs"]] + [a["name"] for a in d["ambients"]], "the entity")
    ctx.eq(len(of(root, HypergraphEdge)), 0, "number of edges of the entity")
    targets, references, worlds, edges = {}, [], [], {}
    for g in d["graphs"]:
        check_graph(ctx, found[g["name"]], g, "", targets, references, worlds, edges)
    for a in d["ambients"]:
        check_ambient(ctx, found[a["name"]], a, "", targets, references, worlds, edges)
    ctx.ok(len({id(w) for w in worlds}) <= 1, "joints are fixed to different worlds")
    # each reference has an edge of its own, from the referenced shape to the referencing geometry
    used = []
    for where, geometry, tags, label in references:
        mine = [e for e in edges[where] if any(r.endpoint is geometry for r in e.sub_relations)]
        ctx.eq(len(mine), 1, "number of references of " + label)
        rels = list(mine[0].sub_relations)
        target = targets[("/".join(tags[:-2]), tags[-2], tags[-1])]
        ctx.eq(sorted((r.direction.name, r.endpoint is target, r.endpoint is geometry) for r in rels),
               [("INWARDS", False, True), ("OUTWARDS", True, False)], f"reference of {label} to {'/'.join(tags)}")
        used.append(mine[0])
        ctx.count("references")
    everything = [e for es in edges.values() for e in es]
    ctx.eq(len({id(e) for e in used}), len(used), "several elements share one reference")
    ctx.eq(len(everything), len(used), "number of references")


@scenario("C24", quick=2000, thorough=8000)
def descriptions(ctx, rng, i):
    gen = Generator(rng, text=True, size=rng.choice([2, 4, 7]), nesting=rng.choice([1, 2, 3]),
                    keywords=LANGUAGE.lexer.literals)
    d = gen.description()
    text = to_text(d, rng)
    ctx.log(text)
    ctx.count("texts")
    ctx.count("parameters_used", len(d["parameters"]))
    root = interpret(text)
    d = substituted(d)
    check_description(ctx, root, d)
    ctx.case(text, "joint " in text or "{{" in text)
    ctx.state([len(list(root.get_subelements(true))), text.count("link"), text.count("joint"), text.count("ambient")])
    got = read_model(convert(root))
    compare_structure(ctx, got, model(d))
    compare_numbers(ctx, got, model(d))
    ctx.count("models")
    if rng.random() < 0.2:
        # what was interpreted before is of no importance
        check_description(ctx, interpret(text), d)


def loosen(rng, g):
    """Any direction, pose and axis at any end of the joints, as far as they can be written."""
    gen = Generator(rng)
    gen.text = True
    for k, x in g["items"]:
        if k in ("graph", "ambient"):
            loosen(rng, x)
        elif k == "joint":
            for e in x["ends"]:
                e["dir"] = rng.choice(["->", "<-", "--"])
                if rng.random() < 0.3:
                    e["pose"] = fixed_pose(gen.pose())
                if rng.random() < 0.3:
                    e["axis"] = [0.0, rng.choice([1.0, -1.0]), 0.25]


def fixed_pose(p):
    plain = lambda v: None if v is None else [x if not isinstance(x, tuple) else 0.5 for x in v]
    return p | {"t": plain(p["t"]), "r": plain(p["r"])}


@scenario("C24", quick=1000, thorough=6000)
def interpreters(ctx, rng, i):
    """One interpreter for several descriptions (also such with errors in between), which are more general than the
    conversion admits; the graphs of the earlier ones stay as they were."""
    icon = CognilangParserFileIcon("cogni_lang_file", rng.choice([LocalClock, DummyClock])())
    done = []
    for k in range(rng.choice([1, 2, 3])):
        again = done and rng.random() < 0.2
        if again:
            text, d, _ = rng.choice(done)
        else:
            d = Generator(rng, text=True, size=rng.choice([2, 4]), nesting=rng.choice([0, 1, 2]),
                          keywords=LANGUAGE.lexer.literals, placed=rng.random() < 0.5).description()
            for g in d["graphs"] + d["ambients"]:
                loosen(rng, g)
            text = to_text(d, rng)
            d = substituted(d)
        ctx.log(text)
        if rng.random() < 0.15:
            wrong = text.replace("kinematic ", "kinematic wrong_one { link n joint j: fix <- {n} fix -> {nowhere} }\nkinematic ", 1)
            if wrong != text:
                try:
                    interpret(wrong, icon)
                except Exception:
                    ctx.count("errors_before")
        root = interpret(text, icon)
        check_description(ctx, root, d)
        ctx.count("texts")
        ctx.count("interpreted_again", k > 0)
        ctx.count("same_text_again", bool(again))
        ctx.ok(all(root is not r for _, _, r in done), "two descriptions have the same graph")
        done.append((text, d, root))
        for _, d0, r0 in done[:-1]:
            check_description(ctx, r0, d0)
    ctx.case([t for t, _, _ in done], any("joint " in t for t, _, _ in done))


APPLICATION = os.path.join(FRAMEWORK, "apps", "simulation", "convert_cognilang_sdf.py")


@scenario("C24", quick=200, thorough=2000)
def application(ctx, rng, i):
    """The conversion application: a file with a description in, files with the model and for loading it out."""
    spec = importlib.util.spec_from_file_location("convert_cognilang_sdf", APPLICATION)
    app = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(app)
    d = Generator(rng, text=True, size=rng.choice([2, 5]), nesting=rng.choice([0, 1, 2]), keywords=LANGUAGE.lexer.literals).description()
    text = to_text(d, rng)
    ctx.log(text)
    home = tempfile.mkdtemp(prefix="rv-c24-")
    argv, out = sys.argv, os.path.join(home, "out dir")
    try:
        os.mkdir(out)
        source = os.path.join(home, rng.choice(["in.cogni", "another file", d["entity"] + ".sdf"]))
        with open(source, "w", encoding="ascii") as f:
            f.write(text)
        sys.argv = ["convert_cognilang_sdf.py", "--input", source, "--output", out]
        for _ in range(rng.choice([1, 2])):
            with contextlib.redirect_stdout(io.StringIO()):
                app.main()
            with open(os.path.join(out, d["entity"] + ".sdf"), encoding="utf-8") as f:
                got = read_model(etree.fromstring(f.read()))
            want = model(substituted(d))
            compare_structure(ctx, got, want)
            compare_numbers(ctx, got, want)
            ctx.ok(d["entity"] + ".load.sh" in os.listdir(out), "the file for loading the model is missing", os.listdir(out))
            with open(os.path.join(out, d["entity"] + ".load.sh"), encoding="utf-8") as f:
                words = f.read().split()
            ctx.ok(d["entity"] in words and any(w.endswith(d["entity"] + ".sdf") for w in words), "the command for loading", words)
            with open(source, encoding="ascii") as f:
                ctx.eq(f.read(), text, "the description after the conversion")
            ctx.count("application_runs")
    finally:
        sys.argv = argv
        shutil.rmtree(home, ignore_errors=True)
    ctx.case(text, "joint " in text)


EXAMPLES = sorted(glob.glob(os.path.join(FRAMEWORK, "examples", "*.cogni")))

# links and joints of the example descriptions, written down by hand
WHEELS = [f"wheel_{s}_{e}" for s in ("left", "right") for e in ("front", "rear")]
CAR = {"links": ["base_link"] + [f"{w}.{x}" for w in WHEELS for x in ("wheel_base", "tire")],
       "joints": [f"{w}.connect.wheel_base" for w in WHEELS] + [f"{w}.wheel_joint.tire" for w in WHEELS]}
LOOP = {"links": [f"link_0{i}" for i in (1, 2, 3, 4)],
        "joints": [f"connect_{i}{i % 4 + 1}.link_0{i % 4 + 1}" for i in (1, 2, 3, 4)]}
MODELS = {"example_robotcar.cogni": CAR, "example_robotcar_ambient.cogni": CAR, "example_robotcar_w_parameters.cogni": CAR,
          "example_kinematic_loop.cogni": LOOP,
          "pendulum.cogni": {"links": ["base", "arm", "ball"],
                             "joints": ["world_base.base", "base_arm.arm", "arm_ball.ball"]},
          "two_link_pendulum.cogni": {"links": ["base", "arm_1", "arm_2", "ball"],
                                      "joints": ["world_base.base", "base_arm_1.arm_1", "base_arm_2.arm_2",
                                                 "arm_ball.ball"]}}


@scenario("C24", quick=len(EXAMPLES), thorough=len(EXAMPLES))
def examples(ctx, rng, i):
    path = EXAMPLES[i]
    ctx.log(path)
    with open(path, encoding="utf-8") as f:
        text = f.read()
    root = interpret(text)
    got = read_model(convert(root))
    ctx.eq(got["models"], [root.id_name], "models of " + path)
    names = list(got["links"]) + list(got["joints"])
    frames = set(names) | {"world"}
    for n, ls in got["links"].items():
        ctx.eq(len(ls), 1, "number of links " + n)
        for l in ls:
            ctx.ok(all(r is None or r in frames for _, r in l["poses"]), f"frame of link {n}")
            ctx.ok(all(g for _, _, g, _, _ in l["shapes"]), f"link {n} has a shape without geometry")
    for n, js in got["joints"].items():
        ctx.eq(len(js), 1, "number of joints " + n)
        for j in js:
            ctx.ok(all(x in frames for x in j["parents"] + j["children"] + [r for _, r in j["poses"] if r]),
                   f"joint {n} mentions an element which is not in the model", j)
    if os.path.basename(path) in MODELS:
        want = MODELS[os.path.basename(path)]
        ctx.eq(sorted(got["links"]), sorted(want["links"]), "links of " + path)
        ctx.eq(sorted(got["joints"]), sorted(want["joints"]), "joints of " + path)
    ctx.count("examples")
    ctx.case(path)
