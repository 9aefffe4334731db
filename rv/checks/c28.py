import contextlib
import io

from rv.core import scenario, run
from rv.history import World
from rv.lib import *
from rei.foundations.hierarchical_traversal_strategies import print_graph_hierarchy
from rv.checks.c10 import expected_levels, some_connections, tree

RULE = ("Hierarchies left behind by random histories, random trees with connections and large ones are printed from random "
        "starts, repeatedly and between changes; the text is taken apart line by line and compared with the elements "
        "observed; non-trivial if two or more lines were printed.")
ASSUMPTIONS = ["the hierarchy does not change during the printing"]
ANCHORS = ["foundations/hierarchical_traversal_strategies.py"]
REQUIRED = ["nodes", "edges", "relations", "roots", "detached_edges", "weighted", "unprinted_elements", "printed_again",
            "empty_texts"]
ARROWS = {IN: "<-", OUT: "->", BI: "--"}


def name_of(el):
    return "/".join(names_path(el))


def printed(start):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        run(print_graph_hierarchy(start))
    return out.getvalue()


def parts(e):
    """What the line of the element shows, in its order."""
    if isinstance(e, HypergraphRelation):
        return ["relation", name_of(e), ARROWS[e.direction], e.endpoint.id_name, str(e.weight)]
    kind = ["node", name_of(e), e.id_name] if isinstance(e, HypergraphNode) else [
        "edge", name_of(e), e.id_name, str(e.cnt_subelements)]
    return kind + ([e.parent.id_name] if e.parent is not None else [])


def take(text, at, p):
    """The end of the line at the place which shows the parts one after the other; None if there is no such line."""
    if not text.startswith(p[0], at):
        return None
    pos = at + len(p[0])
    for x in p[1:]:
        found = text.find(x, pos, pos + len(x) + 12)
        if found < 0 or "\n" in text[pos:found]:
            return None
        pos = found + len(x)
    end = text.find("\n", pos)
    return None if end < 0 else end + 1


def judge(ctx, start, text):
    all_elements = [e for l in expected_levels(start, true, None, False) for e in l]
    els = [e for e in all_elements if isinstance(e, (HypergraphNode, HypergraphEdge, HypergraphRelation))]
    ctx.count("unprinted_elements", len(all_elements) - len(els))
    at = 0
    for k, e in enumerate(els):
        p = parts(e)
        end = take(text, at, p)
        ctx.ok(end is not None, f"printed line {k} of {len(els)}: expected one with {p}, observed {text[at:at + 200]!r}")
        # nothing else is in the line (a line cannot be taken for two)
        ctx.ok(end - at < sum(map(len, p)) + 40, f"printed line {k} is too long for {p}", text[at:end])
        if not isinstance(e, HypergraphRelation) and e.parent is None:
            ctx.ok("<-" not in text[at:end].replace(p[1], "").replace(p[2], ""), "a root is printed with a container",
                   text[at:end])
            ctx.count("roots")
            ctx.count("detached_edges", isinstance(e, HypergraphEdge))
        ctx.count({"n": "nodes", "e": "edges", "r": "relations"}[p[0][0]])
        ctx.count("weighted", isinstance(e, HypergraphRelation) and e.weight is not None)
        at = end
    ctx.eq(text[at:], "", "text printed after the lines of all elements")
    ctx.count("empty_texts", not els)
    return len(els)


@scenario("C28", quick=700, thorough=5000)
def histories(ctx, rng, i):
    w = World(ctx, rng, clock=rng.choice([TickClock, TickClock, FrozenClock])(), limit=rng.choice([8, 25, 60]))
    n = 0
    for _ in range(rng.choice([1, 3])):
        if not w.history(rng.choice([5, 15, 40]), 0):
            return
        els = [m.obj for m in w.els]
        for _ in range(4):
            s = rng.choice(els)
            ctx.log("print", name_of(s))
            text = printed(s)
            n = max(n, judge(ctx, s, text))
            if rng.random() < 0.5:
                ctx.eq(printed(s), text, "text printed again")
                ctx.count("printed_again")
    ctx.state(n)
    ctx.case(ctx.oplog, n > 1)


@scenario("C28", quick=300, thorough=2000)
def trees(ctx, rng, i):
    els = tree(rng, rng.choice(["bushy", "mixed", "wide", "single"]), rng.choice([3, 20, 60]), TickClock())
    if i % 2:
        els = tree(rng, "bushy", 20, TickClock(), share=0)
        some_connections(rng, els)
    for s in [els[0], rng.choice(els), rng.choice(els)]:
        ctx.log("print", name_of(s), "of", len(els))
        n = judge(ctx, s, printed(s))
    ctx.state(n)
    ctx.case(ctx.oplog, n > 1)


@scenario("C28", quick=120, thorough=600)
def names(ctx, rng, i):
    """Long, empty and unusual names, weights, many elements."""
    f = HypergraphFactory("f", TickClock())
    some = ["", " ", "ä", "名", "a: b", "x <- y", "->", "%s", "{}", "{0}", "\\n", "\t", "two\nlines", "n" * 3000, "--", "edge", "node"]
    root = f.generate_node(rng.choice(some))
    nodes = [root]
    for k in range(rng.choice([2, 12, 300])):
        nodes.append(f.generate_node(rng.choice(some), rng.choice(nodes)))
    nodes = [n for n in nodes if n.parent is not None or n is root]
    for k in range(rng.choice([1, 5])):
        e = f.create_hyperedge(rng.choice(nodes), rng.choice(some) + str(k))
        for n in rng.sample(nodes, min(len(nodes), rng.choice([0, 1, 4, 40]))):
            e.unary_connect(n, rng.choice([None, ValueNode(new_uuid(rng), "w", "q", [1.5])]), rng.choice(DIRS))
        if rng.random() < 0.3:
            list(e.parent.remove_element(uuid=e.uuid))
            judge(ctx, e, printed(e))
    ctx.log("names", len(nodes))
    n = judge(ctx, root, printed(root))
    ctx.state(n)
    ctx.case(ctx.oplog + [i], n > 1)


@scenario("C28", quick=6, thorough=30)
def large(ctx, rng, i):
    clock = DummyClock()
    n = [1200, 20000, 1500][i % 3]
    els = [HypergraphNode(f"n{k % 10}", new_uuid(rng), "q", clock, None) for k in range(n)]
    if n == 20000:
        for e in els[1:]:
            els[0].add_element(e)
    else:
        for a, b in zip(els, els[1:]):
            a.add_element(b)
    ctx.log("large", n)
    judge(ctx, els[0], printed(els[0]))
    ctx.maximum("lines", n)
    ctx.case(n)
