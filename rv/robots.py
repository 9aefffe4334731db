"""Descriptions of robots: random generation, the two ways to build their graph (factories, text of the cognitive
language), and the graph and the model which follow from a description alone."""
import math
from decimal import Decimal

from rv.lib import *
from rei.format.semantics.CognitiveEntity import (CognitiveEntity, KinematicGraphDefinition, KinematicLink,
                                                  KinematicJoint, RigidTransformation, InertiaElement, GeometryNode,
                                                  VisualMaterial, CylinderGeometry, EllipsoidGeometry,
                                                  PolyhedronGeometry)

SEMANTIC = {"cylinder": "cylindergeometry", "ellipsoid": "ellipsoidgeometry", "polyhedron": "polyhedrongeometry"}
SEMANTIC_CLASS = {"cylinder": CylinderGeometry, "ellipsoid": EllipsoidGeometry, "polyhedron": PolyhedronGeometry}
JOINT_TYPES = {"fix": "fixed", "rev": "revolute", "tr": "prismatic"}
MATERIALS = ["white", "red", "black", "Blue", "dark_grey", "GREEN", "x"]
EXTREME = [0.0, 360.0, -360.0, 400.25, -725.5, 3600.0, 1e6, -1e6, 12345.678901, 1e-6, -1e-6, 180.0, 3.141593, 6.5]


# ---------------------------------------------------------------------------------------------------------------
# Generation
# ---------------------------------------------------------------------------------------------------------------

class Generator:
    """Random descriptions. `text`: only what can be written in the cognitive language."""

    def __init__(self, rng, text=False, size=5, nesting=2, keywords=(), placed=False):
        self.placed = placed     # kinematic graphs within ambient parts as well
        self.keywords = keywords
        self.rng, self.text, self.size, self.nesting = rng, text, size, nesting
        self.parameters = {}
        self.names = []
        self.counter = 0
        self.shape_names = []
        self.referenced = []
        self.shapes_of = []      # (path of tags from the entity's kinematic graph on, geometry) of own geometries

    def number(self, positive=False):
        r = self.rng
        x = r.choice([round(r.uniform(-3, 3), r.randrange(1, 5)), r.choice([0.0, 1.0, -1.0, 90.0, -180.0, 0.5]),
                      r.uniform(-100, 100), r.uniform(-1e-3, 1e-3), r.choice(EXTREME)])
        if positive:
            x = abs(x) + r.choice([0.0, 0.25])
            if x == 0 and r.random() < 0.7:
                x = 1.0
        if self.text:
            x = float(f"%.{r.choice([6, 6, 3, 9, 12])}f" % x)
            if positive and x == 0 and r.random() < 0.7:
                x = 0.125
        elif r.random() < 0.1:
            x = int(x) or 1
        return x

    def name(self, used, base):
        r = self.rng
        while True:
            n = base if r.random() < 0.93 else r.choice(["world_", "world", "World", "worldly"]) + r.choice(["", base])
            if self.names and r.random() < 0.15:
                n = r.choice(self.names)      # the same name elsewhere
            elif r.random() < 0.7:
                n += "_" * (r.random() < 0.5) + str(r.randrange(12))
            if r.random() < 0.03:
                n = r.choice(["_", "__"]) + n
            if not self.text and r.random() < 0.15:
                n += r.choice([" x", "ä", "-", "#", "'", "<&>"])
            if r.random() < 0.1:
                n += r.choice(["a", "B", "_"])
            if n not in used and n not in self.keywords and n != "world":
                used.add(n)
                self.names.append(n)
                return n

    def value(self, positive):
        x = self.number(positive)
        if self.text and self.rng.random() < 0.15:
            p = self.rng.choice(["P_{}", "P_1{}", "P1_{}", "p_{}", "P_{}_1", "x{}"]).format(
                self.rng.randrange(len(self.parameters) + 3))
            if p in self.parameters:
                p = p + "_" + str(len(self.parameters))
            if p in self.parameters or p in self.keywords:
                return x
            if self.parameters and self.rng.random() < 0.5:
                p = self.rng.choice(list(self.parameters))
                if positive and self.parameters[p] <= 0:
                    return x
                return ("param", p)
            self.parameters[p] = x
            return ("param", p)
        return x

    def vector(self):
        return [0.0] * 3 if self.rng.random() < 0.07 else [self.value(False) for _ in range(3)]

    def pose(self):
        r = self.rng
        p = {"t": self.vector(), "r": None, "unit": None}
        if r.random() < 0.75:
            p["r"] = self.vector()
            p["unit"] = r.choice(["d", "r", None]) if self.text else r.choice(["d", "r"])
        return p

    def geometry(self):
        k = self.rng.choice(["cylinder", "ellipsoid", "polyhedron"])
        n = {"cylinder": [2], "ellipsoid": [1, 3], "polyhedron": [1, 3]}[k]
        return (k, [self.value(True) for _ in range(self.rng.choice(n))])

    def link(self, name, path):
        """path: names of the kinematic graphs around the link."""
        r = self.rng
        link = {"name": name, "pose": self.pose() if r.random() < 0.6 else None, "mass": None, "shapes": [],
                "root": r.random() < 0.3}
        with_body = not self.text or r.random() < 0.9
        if with_body and (self.text or r.random() < 0.8):
            link["mass"] = abs(self.number(True))
        used = set()
        for _ in range(r.choice([0, 1, 1, 2, 3]) if with_body else 0):
            kind = r.choice(["visual", "visual", "collision"])
            own = r.random() < 0.6 or not self.shapes_of
            if own:
                geometry = self.geometry()
            else:
                tags, target = (self.referenced[-1] if self.referenced and r.random() < 0.3
                                else r.choice(self.shapes_of))
                self.referenced.append((tags, target))
                geometry = self.reference(tags, path, name)
                if geometry is None:
                    geometry, own = self.geometry(), True
            # at most one element without name of each kind
            unnamed = self.text and kind not in used and r.random() < (0.7 if kind == "collision" else 0.3)
            if unnamed:
                used.add(kind)
                shape_name = None
                path_name = "None" if kind == "visual" else "/".join([self.entity, *path, name, "coll"])
            else:
                again = [x for x in self.shape_names if x not in used]
                if again and r.random() < 0.3:
                    shape_name = r.choice(again)                     # as in another link
                    used.add(shape_name)
                else:
                    shape_name = self.name(used, r.choice(["viz", "coll", name]))
                    self.shape_names.append(shape_name)
                path_name = shape_name
                if not self.text and link["shapes"] and r.random() < 0.15:
                    path_name = r.choice(link["shapes"])["node"]     # geometries of the same name in several shapes
            shape = {"kind": kind, "name": shape_name, "node": path_name, "geometry": geometry,
                     "material": (r.choice(MATERIALS) if not self.text or r.random() < 0.7 else None)
                     if kind == "visual" else None}
            link["shapes"].append(shape)
            if own and shape_name is not None:
                self.shapes_of.append(([*path, name, shape_name], shape))
        return link

    def reference(self, tags, path, link):
        """A reference to the shape at the tags (from the outermost kinematic graph on), as it can be written within
        the link: relative to the link, or to a graph around it."""
        here = [*path, link]
        common = 0
        while common < len(here) and common < len(tags) - 1 and here[common] == tags[common]:
            common += 1
        # a reference of k tags starts at the (k-1)-th container outwards of the link
        options = []
        for start in range(0, common + 1):
            rest = tags[start:]
            if len(here) - (len(rest) - 1) == start:
                options.append(rest)
        if not self.text and not options:
            options = [tags]
        if not options:
            return None
        return ("ref", self.rng.choice(options), list(tags))

    def joint(self, graph, source, targets, used):
        r = self.rng
        ends = [{"ref": source, "dir": "<-", "type": r.choice(list(JOINT_TYPES)),
                 "pose": self.pose() if r.random() < 0.15 else None,
                 "axis": None}]
        for t in targets:
            ends.append({"ref": t, "dir": "->", "type": r.choice(list(JOINT_TYPES)),
                         "pose": self.pose() if r.random() < 0.6 else None,
                         "axis": self.vector() if r.random() < 0.6 else None})
        if r.random() < 0.2:
            r.shuffle(ends)
        return {"name": self.name(used, r.choice(["joint", "con", "edge"])), "ends": ends}

    def graph(self, path, used, level):
        """used: names taken in the graph; path includes the name of the graph."""
        r = self.rng
        items = []
        inner = []
        for _ in range(r.choice([0, 0, 1, 2]) if level < self.nesting else 0):
            n = self.name(used, r.choice(["wheel", "arm", "sub"]))
            inner.append(n)
        links = [self.name(used, r.choice(["link", "base", "tire", "l"])) for _ in range(
            r.randrange(1 if level or r.random() < 0.9 else 0, self.size + 1 if not level else max(2, self.size - level)))]
        definitions = [("graph", n) for n in inner] + [("link", n) for n in links]
        r.shuffle(definitions)
        nested_names = set()
        for kind, n in definitions:
            if kind == "link":
                items.append(("link", self.link(n, path)))
            else:
                sub_used = set(used) if r.random() < 0.4 else set()
                g = self.graph([*path, n], sub_used, level + 1)
                nested_names |= sub_used
                items.append(("graph", g))
        joints = []
        order = links[:]
        r.shuffle(order)
        shape = r.choice(["tree", "chain", "loop", "forest"]) if level == 0 else r.choice(["tree", "chain"])
        pairs = []
        for i in range(1, len(order)):
            if shape == "forest" and r.random() < 0.4:
                continue
            j = i - 1 if shape in ("chain", "loop") else r.randrange(i)
            pairs.append((order[j], order[i]))
        if shape == "loop" and len(order) > 2:
            pairs.append((order[-1], order[0]))
        if level == 0 and order and r.random() < 0.3:
            pairs.append(("world", r.choice(order)))
        merged = {}
        for a, b in pairs:
            merged.setdefault(a, []).append(b)
        for a, bs in merged.items():
            if len(bs) > 1 and r.random() < 0.5:
                joints.append(self.joint(None, a, bs, used))
            else:
                joints += [self.joint(None, a, [b], used) for b in bs]
        # instances of the nested graphs; the links of a nested graph must not be called as another end of the edge
        for g in [x for k, x in items if k == "graph"]:
            if not [x for k, x in g["items"] if k == "link"]:
                continue
            for _ in range(r.choice([0, 1, 1, 2, 3]) if links else 0):
                targets = [g["name"]]
                taken = {x["name"] for k, x in g["items"] if k == "link"}
                source = r.choice(links)
                more = [x for x in links if x not in taken and x != source]
                if level == 0 and more and r.random() < 0.2:
                    targets.insert(r.randrange(2), r.choice(more))
                joints.append(self.joint(None, source, targets, used))
        r.shuffle(joints)
        if level == 0 and joints and r.random() < 0.1:
            joints.append({"name": self.name(used, "open"), "ends": [
                {"ref": r.choice(links or ["world"]), "dir": "<-", "type": "fix", "pose": None, "axis": None}]})
        items += [("joint", j) for j in joints]
        return {"name": path[-1], "items": items}

    def ambient(self, used, level=0, path=(), name=None):
        r = self.rng
        items = []
        inner = set()
        name = name or self.name(used, "ambience")
        path = [*path, name]
        for _ in range(r.randrange(0, 5)):
            kind = r.choice(["sensor", "actuator", "sensor", "actuator", "ambient"] + ["graph"] * 2 * self.placed)
            n = self.name(inner, r.choice(["imu_a", "motor", "cam", "gps"]))
            if kind == "ambient":
                if level < 2:
                    items.append(("ambient", self.ambient(inner, level + 1, path, n)))
            elif kind == "graph":
                items.append(("graph", self.graph([*path, n], set(), 1)))
            else:
                items.append((kind, {"name": n, "parameters": [
                    (r.choice(["double", "int", "string"]), f"p{j}") for j in range(r.randrange(0, 3))],
                    "type": r.choice(["imu", "encoder", "force", "gnss", "visual", "laserarray"])}))
        return {"name": name, "items": items}

    def description(self):
        r = self.rng
        used = set()
        entity = self.entity = self.name(set(), r.choice(["bot", "robot", "system"]))
        graphs, shared, own = [], set(), set()
        for _ in range(r.choice([1, 1, 1, 2])):
            n = self.name(used, r.choice(["basic_structure", "kin", "body"]))
            own.add(n)
            graphs.append(self.graph([n], shared, 0))
        ambients = [self.ambient(used) for _ in range(r.choice([0, 0, 1, 2]))] if self.text else []
        return {"entity": entity, "parameters": dict(self.parameters), "graphs": graphs, "ambients": ambients}


# ---------------------------------------------------------------------------------------------------------------
# Text
# ---------------------------------------------------------------------------------------------------------------

def to_text(d, rng):
    def sp():
        return rng.choice([" ", " ", "\n", "\t", " // note\n", " /* x { } */ "]) if rng.random() < 0.1 else " "

    def num(x):
        return f"{{{x[1]}}}" if isinstance(x, tuple) else fixed(x)

    def vec(v):
        return "[" + rng.choice([" ", ", ", ","]).join(num(x) for x in v) + "]"

    def pose(p):
        s = "[" + vec(p["t"])
        if p["r"] is not None:
            s += rng.choice(["", ", ", " "]) + (p["unit"] or "") + vec(p["r"])
        return s + "]"

    def shape(s):
        k = s["geometry"][0]
        if k == "ref":
            g = "{" + "/".join(s["geometry"][1]) + "}"
        else:
            g = k + sp() + ("g" + sp() if rng.random() < 0.1 else "") + vec(s["geometry"][1])
        return s["kind"] + (sp() + s["name"] if s["name"] else "") + sp() + (
            f"(material {s['material']})" if s["material"] else "") + "{" + g + "}"

    def link(x):
        s = ("root " if x["root"] else "") + "link" + sp() + x["name"]
        if x["pose"] is not None:
            s += " @" + sp() + pose(x["pose"])
        if x["mass"] is not None:
            matrix = " inertia" + sp() + vec([1.0, 0.0, 0.0, 2.0, 0.0, 3.0]) if rng.random() < 0.1 else ""
            s += " { inertia { mass" + sp() + fixed(x["mass"]) + matrix + " }" + sp() + sp().join(
                shape(y) for y in x["shapes"]) + "}"
        return s

    def joint(j):
        s = f"joint {j['name']}:"
        for e in j["ends"]:
            s += sp() + e["type"] + " " + e["dir"] + " {" + e["ref"] + "}"
            if e["pose"] is not None:
                s += " " + pose(e["pose"])
            if e["axis"] is not None:
                s += " | " + vec(e["axis"])
        return s

    def graph(g):
        out = ["kinematic " + g["name"] + sp() + "{"]
        for k, x in g["items"]:
            out.append({"link": link, "graph": graph, "joint": joint}[k](x))
        return "\n".join(out) + "\n}"

    def ambient(a):
        out = ["ambient " + a["name"] + " {"]
        for k, x in a["items"]:
            if k in ("ambient", "graph"):
                out.append({"ambient": ambient, "graph": graph}[k](x))
            else:
                out.append(f"{k} {x['name']} " + (x["type"] if k == "sensor" else "") + "{" + " ".join(
                    f"{t} {n} = " + {"double": "1.5", "int": "12", "string": '"RGB8"'}[t]
                    for t, n in x["parameters"]) + "}")
        return "\n".join(out) + "\n}"

    out = ["entity " + d["entity"] + sp() + "{"]
    if d["parameters"]:
        out.append("parameters {" + sp().join(f"{k} = " + (str(int(v)) if v == int(v) and rng.random() < 0.5 else fixed(v))
                                                for k, v in d["parameters"].items()) + "}")
    rest = [graph(g) for g in d["graphs"]]
    def plain(a):
        return all(k != "graph" and (k != "ambient" or plain(x)) for k, x in a["items"])
    late = [ambient(a) for a in d["ambients"] if not plain(a)]       # these can mention what was before
    for a in d["ambients"]:
        if plain(a):
            rest.insert(rng.randrange(len(rest) + 1), ambient(a))
    rest += late
    return "\n".join(out + rest + ["}"])


def fixed(x):
    """The number without exponent, as precise as it is."""
    s = format(Decimal(repr(float(x))), "f")
    return s if "." in s else s + ".0"


# ---------------------------------------------------------------------------------------------------------------
# Graph by factories
# ---------------------------------------------------------------------------------------------------------------

class Builder:
    def __init__(self, clock, rng):
        self.rng = rng
        self.f = HypergraphFactory("fac", clock)
        self.c = CognitiveEntitySemanticFactory("sem", clock)
        self.world = self.f.generate_node("world", None)

    def pose(self, p, parent):
        if p is None:
            return
        self.c.generate_semantic_element("rigidtransformation", parent.id_name + "_t", parent, {
            "translation": list(p["t"]), "rotation": list(p["r"] or [0.0, 0.0, 0.0]),
            "rotation_type": {"d": "deg"}.get(p["unit"], "rad")})

    def shape(self, s, link_node, node):
        n = self.f.generate_node(s["name"], link_node)
        geom = self.f.generate_node("geom_" + s["node"], n)
        if s["geometry"][0] != "ref":
            self.c.generate_semantic_element(SEMANTIC[s["geometry"][0]], geom.id_name, geom, {"name": geom.id_name},
                                             list(s["geometry"][1]))
        else:
            e = self.f.create_hyperedge(node, f"ref_{geom.uuid.hex()}")
            target = self.at(s["geometry"][2])
            for end in ("target", "own") if self.rng.random() < 0.5 else ("own", "target"):
                if end == "target":
                    e.unary_connect(target, None, OUT)
                else:
                    e.unary_connect(geom, None, IN)
        if s["material"] is not None:
            self.c.generate_semantic_element("material", "m_" + s["name"], n, {
                "name": "m", "material_name": s["material"]})

    def at(self, tags):
        n = self.root
        for t in tags:
            n = [x for x in n.get_subelements(lambda x: isinstance(x, HypergraphNode)) if x.id_name == t][0]
        return n

    def link(self, x, node):
        n = self.f.generate_node(x["name"], node)
        sem = self.c.generate_semantic_element("kinematiclink", x["name"], n, {"name": x["name"]})
        self.pose(x["pose"], sem)
        if x["mass"] is not None:
            self.c.generate_semantic_element("inertiaelement", "inertia_" + x["name"], n, {"mass": x["mass"]})
        for s in x["shapes"]:
            self.shape(s, n, node)

    def joint(self, j, node):
        ends = []
        for e in j["ends"]:
            sem = self.c.generate_semantic_element("kinematicjoint", j["name"] + "." + e["ref"], node,
                                                   {"joint_type": e["type"]})
            if e["axis"] is not None:
                sem.add_named_attribute("axis", list(e["axis"]))
            self.pose(e["pose"], sem)
            end = self.world if e["ref"] == "world" else [
                x for x in node.get_subelements(lambda x: isinstance(x, HypergraphNode)) if x.id_name == e["ref"]][0]
            ends.append((end, {"<-": IN, "->": OUT, "--": BI}[e["dir"]], None, sem))
        return self.f.connect_tuple_nodes(node, j["name"], ends)

    def graph(self, g, node):
        n = self.f.generate_node(g["name"], node)
        self.c.generate_semantic_element("kinematicgraph", g["name"], n, {"name": g["name"]})
        for k, x in g["items"]:
            {"link": self.link, "graph": self.graph, "joint": self.joint}[k](x, n)

    def build(self, d):
        # robots can be part of something larger
        around = self.f.generate_node("fleet", None) if self.rng.random() < 0.15 else None
        self.root = self.f.generate_node(d["entity"], around)
        self.c.generate_semantic_element("cognitiveentity", d["entity"], self.root, {"name": d["entity"]})
        for g in d["graphs"]:
            self.graph(g, self.root)
        return self.root


# ---------------------------------------------------------------------------------------------------------------
# The graph which follows from a description (as built from text)
# ---------------------------------------------------------------------------------------------------------------

def substituted(d):
    """The description with the values of parameters in their place."""
    def sub(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "param":
            return d["parameters"][x[1]]
        if isinstance(x, dict):
            return {k: sub(v) for k, v in x.items()}
        if isinstance(x, list):
            return [sub(v) for v in x]
        if isinstance(x, tuple):
            return tuple(sub(v) for v in x)
        return x
    return {**sub({k: v for k, v in d.items() if k != "parameters"}), "parameters": d["parameters"]}


def links(g):
    return [x for k, x in g["items"] if k == "link"]


def joints(g):
    return [x for k, x in g["items"] if k == "joint"]


def graphs(g):
    return {x["name"]: x for k, x in g["items"] if k == "graph"}


# ---------------------------------------------------------------------------------------------------------------
# The model which follows from a description
# ---------------------------------------------------------------------------------------------------------------

def pose_numbers(p):
    if p is None:
        return [0.0] * 6
    r = p["r"] or [0.0] * 3
    if p["unit"] == "d":
        r = [math.radians(x) for x in r]
    return [float(x) for x in p["t"]] + [float(x) for x in r]


def shape_geometry(d, s):
    """Geometry elements of the shape: its own, or those of the referenced shape."""
    if s["geometry"][0] != "ref":
        return [s["geometry"]]
    g = None
    tags = s["geometry"][2]
    items = [("graph", x) for x in d["graphs"]]
    for t in tags[:-1]:
        item = [x for k, x in items if k in ("graph", "link") and x["name"] == t][0]
        items = item.get("items", [])
        g = item
    target = [x for x in g["shapes"] if x["name"] == tags[-1]][0]
    return [target["geometry"]] if target["geometry"][0] != "ref" else []


def inertia(m, s):
    if s is None:
        return None
    k, v = s
    if k == "cylinder":
        r, l = v
        return [m * (3 * r * r + l * l) / 12] * 2 + [m * r * r / 2, 0, 0, 0]
    if k == "ellipsoid":
        a, b, c = v if len(v) == 3 else (v[0],) * 3
        return [m * (b * b + c * c) / 5, m * (a * a + c * c) / 5, m * (a * a + b * b) / 5, 0, 0, 0]
    return None


def model(d):
    """-> {"name", "links": {name: ...}, "joints": {name: ...}} with lists for elements of the same name."""
    out = {"name": d["entity"], "links": {}, "joints": {}}
    for g in d["graphs"]:
        model_graph(d, g, [], out, None)
    return out


def dotted(prefix, *names):
    return ".".join([*prefix, *names])


def model_graph(d, g, prefix, out, attached):
    nested = graphs(g)
    incoming = {}            # link -> names of joints of which it is the child, parent is not the world
    ends_in = set()
    for j in joints(g):
        sources = [e["ref"] for e in j["ends"] if e["dir"] == "<-"]
        for e in j["ends"]:
            if e["dir"] == "<-":
                ends_in.add(e["ref"])
            for s in sources:
                if e["dir"] == "->" and e["ref"] not in nested:
                    if s != "world":
                        incoming.setdefault(e["ref"], []).append(dotted(prefix, j["name"], e["ref"]))
    for x in links(g):
        frames = incoming.get(x["name"], [])
        if not frames:
            # a canonical link lies at the joint which attaches its graph
            frames = [None]
            if attached is not None:
                frames = [dotted(prefix, "connect", x["name"])] + ([None] if x["name"] not in ends_in else [])
        own = next((s["geometry"] for s in x["shapes"] if s["geometry"][0] != "ref"), None)
        out["links"].setdefault(dotted(prefix, x["name"]), []).append({
            "frames": frames, "pose": pose_numbers(x["pose"]), "mass": x["mass"],
            "inertia": inertia(x["mass"], own) if x["mass"] is not None else None,
            "shapes": sorted((s["kind"], dotted(prefix, "geom_" + s["node"]),
                              box3([(k, [float(y) for y in v]) for k, v in shape_geometry(d, s)]),
                              ("Gazebo/" + (s["material"] or "white").capitalize()) if s["kind"] == "visual" else None)
                             for s in x["shapes"])})
    for j in joints(g):
        for s in [e for e in j["ends"] if e["dir"] == "<-"]:
            for e in [e for e in j["ends"] if e["dir"] == "->"]:
                target = nested.get(e["ref"])
                if target is None:
                    name, child = dotted(prefix, j["name"], e["ref"]), dotted(prefix, e["ref"])
                else:
                    c = canonical(target)
                    name, child = dotted(prefix, j["name"], "connect", c), dotted(prefix, j["name"], c)
                out["joints"].setdefault(name, []).append({
                    "parent": dotted(prefix, s["ref"]), "child": child, "type": JOINT_TYPES[e["type"]],
                    "axis": [float(x) for x in e["axis"]] if e["axis"] is not None else [0.0, 0.0, 1.0],
                    "pose": pose_numbers(e["pose"]) if e["pose"] is not None else None})
                if target is not None:
                    model_graph(d, target, [*prefix, j["name"]], out, name)


def canonical(g):
    """The root of the tree of links."""
    children = {e["ref"] for j in joints(g) for e in j["ends"] if e["dir"] == "->"}
    roots = [x["name"] for x in links(g) if x["name"] not in children]
    assert len(roots) == 1
    return roots[0]


# ---------------------------------------------------------------------------------------------------------------
# Reading a generated model
# ---------------------------------------------------------------------------------------------------------------

def floats(text):
    return [float(x) for x in text.split()]


def read_shape(el):
    out = []
    for g in el.findall("geometry"):
        for s in g:
            if s.tag == "cylinder":
                out.append(("cylinder", floats(s.findtext("radius")) + floats(s.findtext("length"))))
            elif s.tag == "sphere":
                out.append(("ellipsoid", floats(s.findtext("radius"))))
            elif s.tag == "ellipsoid":
                out.append(("ellipsoid", floats(s.findtext("radii"))))
            elif s.tag == "box":
                out.append(("polyhedron", floats(s.findtext("size"))))
            else:
                out.append((s.tag, []))
        if len(g) != 1:
            out.append(("geometry elements", [len(g)]))
    return out


def box3(geometry):
    return [(k, v * 3 if k == "polyhedron" and len(v) == 1 else v) for k, v in geometry]


def read_model(root):
    models = root.findall("model")
    out = {"models": [m.get("name") for m in models], "links": {}, "joints": {}, "other": []}
    for m in models:
        for el in m:
            if el.tag == "link":
                poses = el.findall("pose")
                inertials = el.findall("inertial")
                out["links"].setdefault(el.get("name"), []).append({
                    "poses": [(floats(p.text), p.get("relative_to")) for p in poses],
                    "inertials": [([float(x.text) for x in i.findall("mass")],
                                   [{y.tag: float(y.text) for y in x} for x in i.findall("inertia")])
                                  for i in inertials],
                    "shapes": sorted((s.tag, s.get("name"), read_shape(s),
                                      s.findtext("material/script/name"), len(s.findall("material")))
                                     for s in el if s.tag in ("visual", "collision")),
                    "tags": sorted({s.tag for s in el})})
            elif el.tag == "joint":
                out["joints"].setdefault(el.get("name"), []).append({
                    "parents": [x.text for x in el.findall("parent")],
                    "children": [x.text for x in el.findall("child")],
                    "type": el.get("type"),
                    "axes": [[floats(x.text) for x in a.findall("xyz")] for a in el.findall("axis")],
                    "poses": [(floats(p.text), p.get("relative_to")) for p in el.findall("pose")]})
            else:
                out["other"].append(el.tag)
    return out


def close(a, b, tol=1e-9):
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1.0, abs(x), abs(y)) for x, y in zip(a, b))


def compare_structure(ctx, got, want):
    ctx.eq(got["models"], [want["name"]], "models generated")
    ctx.eq(got["other"], [], "elements which are neither links nor joints")
    for kind in ("links", "joints"):
        ctx.eq({k: len(v) for k, v in got[kind].items()}, {k: len(v) for k, v in want[kind].items()},
               f"number of {kind} by name")
    names = list(got["links"]) + list(got["joints"])
    ctx.ok(len(set(names)) == len(names), "a link and a joint have the same name", names)
    ctx.ok(all(len(v) == 1 for v in [*got["links"].values(), *got["joints"].values()]), "names are not unique", names)
    frames = set(names) | {"world"}
    for n, [l] in got["links"].items():
        [w] = want["links"][n]
        ctx.eq(len(l["poses"]), 1, f"number of poses of link {n!r}")
        for _, r in l["poses"]:
            ctx.ok(r is None or r in frames, f"link {n!r} is relative to {r!r} which is not in the model")
            ctx.ok(r in w["frames"], f"link {n!r} is relative to {r!r}, expected {w['frames']}")
            ctx.count("relative_frames", r is not None)
    for n, [j] in got["joints"].items():
        [w] = want["joints"][n]
        ctx.eq(j["parents"], [w["parent"]], f"parent of joint {n!r}")
        ctx.eq(j["children"], [w["child"]], f"child of joint {n!r}")
        for x in j["parents"] + j["children"]:
            ctx.ok(x in got["links"] or x == "world", f"joint {n!r} mentions {x!r} which is not in the model")
        ctx.eq(j["type"], w["type"], f"type of joint {n!r}")
        ctx.ok(len(j["axes"]) == 1 and len(j["axes"][0]) == 1 and close(j["axes"][0][0], w["axis"]),
               f"axis of joint {n!r}: {j['axes']}, expected {w['axis']}")
        if w["pose"] is None:
            ctx.eq(j["poses"], [], f"poses of joint {n!r}")
        else:
            ctx.ok(len(j["poses"]) == 1 and close(j["poses"][0][0], w["pose"]),
                   f"pose of joint {n!r}: {j['poses']}, expected {w['pose']}")
            ctx.eq(j["poses"][0][1], w["parent"], f"frame of the pose of joint {n!r}")
    ctx.count("links", len(got["links"]))
    ctx.count("joints", len(got["joints"]))


def compare_numbers(ctx, got, want):
    for n, [w] in want["links"].items():
        for l in got["links"].get(n, []):
            for p, _ in l["poses"]:
                ctx.ok(close(p, w["pose"]), f"pose of link {n!r}: {p}, expected {w['pose']}")
                ctx.count("poses")
            if w["mass"] is None:
                ctx.eq(l["inertials"], [], f"inertia of link {n!r} without mass")
            else:
                ctx.eq(len(l["inertials"]), 1, f"inertial elements of link {n!r}")
                [(masses, tensors)] = l["inertials"]
                ctx.ok(close(masses, [w["mass"]]), f"mass of link {n!r}: {masses}, expected {w['mass']}")
                ctx.eq(len(tensors), 1, f"inertia tensors of link {n!r}")
                t = tensors[0]
                ctx.eq(sorted(t), ["ixx", "ixy", "ixz", "iyy", "iyz", "izz"], f"entries of the inertia of {n!r}")
                if w["inertia"] is not None:
                    v = [t["ixx"], t["iyy"], t["izz"], t["ixy"], t["ixz"], t["iyz"]]
                    ctx.ok(all(abs(x - y) <= 1e-9 * max(abs(x), abs(y)) for x, y in zip(v, w["inertia"])),
                           f"inertia of link {n!r}: {v}, expected {w['inertia']}")
                    ctx.count("inertias")
            shapes = w["shapes"]
            ctx.eq([(s[0], s[1]) for s in l["shapes"]], [(s[0], s[1]) for s in shapes],
                   f"visual and collision elements of link {n!r}")
            for s, t in zip(l["shapes"], shapes):
                ctx.eq(s[2], t[2], f"geometry of {s[0]} {s[1]!r} of link {n!r}")
                ctx.eq(s[3], t[3], f"material of {s[0]} {s[1]!r} of link {n!r}")
                ctx.eq(s[4], 1 if t[3] is not None else 0, f"number of materials of {s[0]} {s[1]!r}")
                ctx.count("geometries")
