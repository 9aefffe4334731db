import copy

from rv.core import scenario
from rv.lib import *
from rei.format.semantics import CognitiveEntity as CE
from rei.format.semantics.cognitive_entity_semantic_factory import InvalidSemanticType

RULE = ("Random histories of reading, writing and replacing entries of several values and attributes of several semantic "
        "values (all kinds, created directly and by factories), some created or updated from one another's lists, are "
        "compared with lists and dictionaries after each operation; lists given and handed out are modified in between; "
        "non-trivial if an entry changed.")
ASSUMPTIONS = ["attributes are held by reference, only the dictionary is the element's own"]
ANCHORS = ["hypergraph/value_node.py", "format/semantics/CognitiveEntity.py",
           "format/semantics/cognitive_entity_semantic_factory.py"]
REQUIRED = ["reads", "writes", "slices", "replacements", "aliases_modified", "out_of_range", "absent_attributes", "attributes_set",
            "attributes_removed", "semantic_kinds", "dimension_changed", "named_entities", "interleaved_iterations",
            "many_attributes"]

DATA = [0, 1.5, -2, "s", None, True, (1, 2), 10 ** 30, 1, 1.0, 0.0, False]


def data(rng):
    return [rng.choice(DATA) for _ in range(rng.choice([0, 1, 2, 3, 6]))]


def judge_value(ctx, v, m):
    ctx.eq(v.dim, len(m), "dimension of a value")
    ctx.eq(v.get_values(), m, "values")
    # 1, 1.0 and True are equal
    ctx.eq([type(x) for x in v.get_values()], [type(x) for x in m], "types of the entries")
    ctx.eq(list(v.val), m, "values as seen by norms")
    ctx.eq(list(v), m, "iteration over a value")
    ctx.eq(list(iter(v)), m, "second iteration over a value")
    for i in range(-len(m), len(m)):
        ctx.eq(v[i], m[i], "entry of a value", i)
        ctx.eq(v.get_value(i), m[i], "entry of a value by name", i)
        ctx.count("reads")
    for i in (len(m), -len(m) - 1, 100):
        ctx.rejected(lambda: v[i], f"an entry out of range {i} of {len(m)}", IndexError)
        ctx.rejected(lambda: v.get_value(i), f"an entry out of range {i} of {len(m)}", IndexError)
        ctx.count("out_of_range")


def make_value(rng, f, root, vals, k):
    match rng.randrange(4):
        case 0:
            return ValueNode(new_uuid(rng), f"v{k}", "q", vals)
        case 1:
            return f.create_value(root, f"v{k}", vals)
        case 2:
            return f.create_value(None, f"v{k}", vals)
        case 3:
            v = ValueNode(new_uuid(rng), f"v{k}", "q")
            v.update_values(vals)
            return v


@scenario("C21", quick=2400, thorough=8000)
def values(ctx, rng, i):
    f = HypergraphFactory("f", TickClock())
    root = f.generate_node("root")
    vs, ms, given = [], [], []
    if rng.random() < 0.3:
        vs.append(ValueNode(new_uuid(rng), "empty", "q"))
        ms.append([])
    changed = False
    for k in range(rng.choice([10, 30])):
        x = rng.random()
        if not vs or x < 0.15:
            src = data(rng) if not vs or rng.random() < 0.6 else rng.choice([rng.choice(vs).val, rng.choice(vs).get_values()])
            ctx.log("create", src)
            m = list(src)
            vs.append(make_value(rng, f, root, src, k))
            ms.append(m)
            given.append(src) if type(src) is list and not any(src is v.val for v in vs[:-1]) else None
        else:
            j = rng.randrange(len(vs))
            v, m = vs[j], ms[j]
            if x < 0.25:
                # slices, which can become longer or shorter
                a, b = (rng.choice([None, *range(-len(m) - 1, len(m) + 2)]) for _ in range(2))
                step = rng.choice([None, None, None, 1, 2, -1])
                s = slice(a, b, step)
                d = data(rng) if step in (None, 1) else [rng.choice(DATA) for _ in m[s]]
                ctx.log("write slice", j, s, d)
                ctx.eq(v[s], m[s], "slice of a value")
                ctx.count("dimension_changed", len(d) != len(m[s]))
                [lambda: v.update_value(s, d), lambda: v.__setitem__(s, d)][rng.randrange(2)]()
                changed = changed or m[s] != d
                m[s] = d
                given.append(d)
                ctx.count("slices")
            elif x < 0.45:
                n = rng.randrange(-len(m) - 1, len(m) + 1) if m else 0
                d = rng.choice(DATA)
                ctx.log("write", j, n, d)
                by = [lambda: v.update_value(n, d), lambda: v.__setitem__(n, d)][rng.randrange(2)]
                if -len(m) <= n < len(m):
                    by()
                    changed = changed or m[n] is not d
                    m[n] = d
                    ctx.count("writes")
                else:
                    ctx.rejected(by, f"writing an entry out of range {n} of {len(m)}", IndexError)
                    ctx.count("out_of_range")
            elif x < 0.75:
                y = rng.random()
                if y < 0.5:
                    src = data(rng)
                    given.append(src)
                elif y < 0.7:
                    src = rng.choice(vs).val
                elif y < 0.8:
                    src = iter(data(rng))
                    src = tuple(src)
                else:
                    src = tuple(data(rng))
                ctx.log("replace", j, src)
                new = list(src)
                ctx.count("dimension_changed", len(new) != len(m))
                v.update_values(src)
                ms[j] = new
                changed = True
                ctx.count("replacements")
            else:
                # what was given or handed out is modified
                ctx.log("modify a list given or handed out")
                l = rng.choice(given) if given and rng.random() < 0.5 else v.get_values()
                match rng.randrange(3):
                    case 0:
                        l.append("alien")
                    case 1:
                        l.clear()
                    case 2:
                        if l:
                            l[0] = "alien"
                ctx.count("aliases_modified")
        for v, m in zip(vs, ms):
            judge_value(ctx, v, m)
        if rng.random() < 0.4:
            # several iterations at the same time, some of them left unfinished
            its = []
            for _ in range(rng.randrange(2, 5)):
                j = rng.randrange(len(vs))
                its.append((iter(vs[j]), iter(ms[j]), len(ms[j]) + 1))
            ctx.log("interleaved iterations")
            for _ in range(rng.randrange(1, 20)):
                a, b, _n = rng.choice(its)
                ctx.eq(next(a, "end"), next(b, "end"), "next entry of one of several iterations")
            ctx.count("interleaved_iterations")
    ctx.state(ms)
    ctx.case(ctx.oplog, changed)


KINDS = {"cognitive_entity": CE.CognitiveEntity, "kinematic_graph": CE.KinematicGraphDefinition,
         "kinematic_link": CE.KinematicLink, "kinematic_joint": CE.KinematicJoint,
         "cylinder_geometry": CE.CylinderGeometry, "polyhedron_geometry": CE.PolyhedronGeometry,
         "ellipsoid_geometry": CE.EllipsoidGeometry, "material": CE.VisualMaterial,
         "rigid_transformation": CE.RigidTransformation, "inertia_element": CE.InertiaElement}


@scenario("C21", quick=1800, thorough=6000)
def semantic_values(ctx, rng, i):
    f = CognitiveEntitySemanticFactory("s", TickClock())
    root = HypergraphNode("root", b"root", "root", DummyClock(), None)
    NAMES = ["name", "type", "values", "x", "ä", "", "parent", "id_name", 0, None]
    MORE = [f"attribute{k}" for k in range(60)]
    els, ms, given = [], [], []
    changed = False
    for k in range(rng.choice([10, 30])):
        x = rng.random()
        if not els or x < 0.15:
            attr = {rng.choice(NAMES): rng.choice(DATA) for _ in range(rng.randrange(1, 4))}
            if rng.random() < 0.2:
                attr.update((rng.choice(NAMES + MORE), rng.choice(DATA)) for _ in range(rng.choice([10, 40, 120])))
                ctx.count("many_attributes")
            if given and rng.random() < 0.3:
                attr = rng.choice(given) or attr
            m = dict(attr)
            y = rng.random()
            if y < 0.3:
                ctx.log("new semantic value", attr)
                e = SemanticValueNode(new_uuid(rng), f"e{k}", "q", None, attr)
            else:
                kind = rng.choice(sorted(KINDS))
                spelled = rng.choice([kind, kind.upper(), kind.replace("_", ""), " " + kind + " ", kind.title()])
                vals = rng.choice([None, None, [1, 2], []])
                ctx.log("new", spelled, attr, vals)
                e = f.generate_semantic_element(spelled, f"e{k}", root, attr, vals) if rng.random() < 0.5 or vals is not None \
                    else f.generate_semantic_element(spelled, f"e{k}", root, attr)
                ctx.ok(type(e) is KINDS[kind], "kind of a semantic element", type(e), kind)
                ctx.ok(e.parent is root and any(c is e for c in children(root)), "container of a semantic element")
                ctx.eq(e.id_name, f"e{k}", "name of a semantic element")
                if vals is not None:
                    m["values"] = vals
                ctx.count("semantic_kinds")
            els.append(e)
            ms.append(m)
            given.append(attr)
        else:
            j = rng.randrange(len(els))
            e, m = els[j], ms[j]
            n, d = rng.choice(NAMES), rng.choice(DATA)
            if x < 0.5:
                ctx.log("set", j, repr(n), d)
                e.add_named_attribute(n, d)
                m[n] = d
                changed = True
                ctx.count("attributes_set")
            elif x < 0.75:
                ctx.log("remove", j, repr(n))
                e.remove_named_attribute(n)
                m.pop(n, None)
                ctx.count("attributes_removed")
            elif x < 0.85 and isinstance(e, CE.CognitiveEntity):
                ctx.log("setup", j)
                e.setup("name%d" % k)
                m["name"] = "name%d" % k
                ctx.count("named_entities")
            else:
                ctx.log("modify a dictionary given")
                a = rng.choice(given)
                rng.choice([lambda: a.clear(), lambda: a.update({"x": "alien", "new": 1})])()
                ctx.count("aliases_modified")
        for e, m in zip(els, ms):
            for n in NAMES + MORE[::7] + ["nothing", "new", b"x", 1.5]:
                got = e[n]
                ctx.ok(got is m.get(n) or got == m.get(n), f"attribute {n!r}: observed {got!r}, expected {m.get(n)!r}")
                ctx.count("absent_attributes", n not in m)
    ctx.state(ms)
    ctx.case(ctx.oplog, changed)


@scenario("C21", quick=120, thorough=360)
def rejected_kinds(ctx, rng, i):
    f = CognitiveEntitySemanticFactory("s", TickClock())
    root = HypergraphNode("root", b"root", "root", DummyClock(), None)
    kept = f.generate_semantic_element("material", "m", root, {"name": "m"})
    for _ in range(5):
        kind = rng.choice(["", "link", "unknown", "cognitive_entity2", "kinematic"])
        ctx.log("unknown kind", repr(kind))
        ctx.rejected(lambda: f.generate_semantic_element(kind, "x", root, {"name": "x"}), "an unknown kind", InvalidSemanticType)
        ctx.rejected(lambda: f.generate_semantic_element("material", "x", root, {}), "a semantic element without attributes")
        ctx.same(children(root), [kept], "elements after a rejected one")
    ctx.case(ctx.oplog)
