"""Oracles over the observed graph (no private state): used by the checks of the containment hierarchy."""
from rv.core import Violation
from rv.lib import *


def everything(world):
    """All elements known to the workload and all they contain."""
    seen, out, stack = set(), [], [m.obj for m in world.els]
    while stack:
        e = stack.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        out.append(e)
        if len(seen) > 200000:
            raise Violation("the hierarchy never ends")
        stack.extend(children(e))
    return out


def forest(ctx, els):
    """C01: both directions of containment agree, no cycles, counts."""
    owner = {}
    for p in els:
        subs = children(p)
        ctx.eq(len({id(s) for s in subs}), len(subs), "an element is listed twice by its container", p)
        for s in subs:
            ctx.ok(s.parent is p, "a listed element names another parent", s, "container", p, "parent", s.parent)
            ctx.ok(id(s) not in owner, "an element is listed by two containers", s, p)
            owner[id(s)] = p
        if isinstance(p, ConceptualItem):
            ctx.eq(p.cnt_subelements, len(subs), "reported number of elements", p)
    for e in els:
        if id(e) not in owner:
            ctx.ok(e.parent is None, "an element listed nowhere names a parent", e, e.parent)
        else:
            ctx.ok(e.parent is owner[id(e)], "parent is not the container", e)
    done = set()
    for e in els:
        path, x = set(), e
        while x is not None and id(x) not in done:
            if id(x) in path:
                raise Violation("an element is its own ancestor: " + repr(x.id_name))
            path.add(id(x))
            x = x.parent
        done |= path
        ctx.checks += 1
    ctx.maximum("elements", len(els))


def contents(ctx, world):
    """C01: what is contained is what was inserted and not removed."""
    for m in world.els:
        ctx.eq({id(c) for c in children(m.obj)}, {id(c.obj) for c in m.children}, "contents of a container", m.label)


def names(ctx, els):
    """C02: qualified name and depth from the observed parents."""
    memo = {}
    for e in els:
        chain, x = [], e
        while x is not None and id(x) not in memo:
            chain.append(x)
            x = x.parent
            if len(chain) > 200000:
                raise Violation("the chain of parents never ends")
        base = memo[id(x)] if x is not None else None
        for y in reversed(chain):
            base = (y.id_name, 0) if base is None else (base[0] + "/" + y.id_name, base[1] + 1)
            memo[id(y)] = base
        want = memo[id(e)]
        ctx.eq(e.qualified_name, want[0], "qualified name")
        ctx.eq(e.depth, want[1], "depth", e.qualified_name)
        ctx.maximum("depth", want[1])


def stamp(e):
    return e.timestamp if isinstance(e, ConceptualItem) else None


def snapshot(els):
    """Every public observable of every element."""
    snap = {}
    for e in els:
        subs = children(e)
        d = [id(e.parent), [id(s) for s in subs], e.id_name, e.uuid, e.qualified_name, e.depth, e.cid, stamp(e),
             e.progenitor_qualified_name]
        if isinstance(e, ConceptualItem):
            d.append(e.cnt_subelements)
            # look-up by name, of all names around
            d.append({s.id_name: [id(x) for x in e.get_element_by_id_name(s.id_name)]
                      for s in subs if "/" not in s.id_name})
        if isinstance(e, HypergraphElement):
            d.append([(id(p), id(p.endpoint)) for p in e.sub_ports])
        if isinstance(e, HypergraphEdge):
            d.append([(id(r), id(r.endpoint), r.direction) for r in e.sub_relations])
            d.append([id(r) for r in e.get_incoming_relations()])
            d.append([id(r) for r in e.get_outgoing_relations()])
            d.append([id(r) for r in e.induced_subset])
        if isinstance(e, HypergraphRelation):
            d.append((id(e.endpoint), e.direction, list(e.relation_incidence_value), id(e.weight),
                      id(e.semantic_value_node), e.endpoint.is_connected(e)
                      if hasattr(e.endpoint, "is_connected") else None))
        if isinstance(e, HypergraphNode):
            d.append([[id(x) for x in v] for v in (e.sub_nodes, e.sub_edges, e.sub_values)])
        if isinstance(e, ValueNode):
            d.append((repr(e.get_values()), e.dim))
        snap[id(e)] = d
    return snap


def same_snapshot(ctx, before, after, what):
    ctx.checks += 1
    if before == after:
        return
    for k in before:
        if after.get(k) != before[k]:
            diff = [(b, a) for b, a in zip(before[k], after.get(k, [])) if b != a]
            raise Violation(f"{what}: element {before[k][2]!r} changed: {diff[:3]!r}")
    raise Violation(f"{what}: {len(after) - len(before)} elements appeared")


def connections(ctx, els):
    """C08: a relation is in an edge exactly when its endpoint has exactly one port leading to it."""
    for e in els:
        if isinstance(e, HypergraphRelation):
            n = sum(1 for p in e.endpoint.sub_ports if p.endpoint is e)
            if isinstance(e.parent, HypergraphEdge):
                ctx.eq(n, 1, "ports of an endpoint leading to a relation of an edge", e, e.endpoint)
                ctx.ok(any(r is e for r in e.parent.sub_relations), "a relation is missing in its edge", e)
            else:
                ctx.eq(n, 0, "ports of an endpoint leading to a relation which is in no edge", e, e.endpoint)
            ctx.count("relations_observed")
            incidence(ctx, e)
        if isinstance(e, HypergraphElement):
            ends = []
            for p in e.sub_ports:
                ctx.ok(p.parent is e, "a port names another parent", p)
                r = p.endpoint
                ctx.ok(r.endpoint is e, "a port leads to a relation to another endpoint", p, r.endpoint)
                ctx.ok(isinstance(r.parent, HypergraphEdge), "a port leads to a relation in no edge", p)
                ends.append(id(r))
                ctx.count("ports_observed")
            ctx.eq(len(set(ends)), len(ends), "two ports lead to the same relation", e)
        if isinstance(e, HypergraphEdge):
            rels = list(e.sub_relations)
            ctx.same(e.induced_subset, [r.endpoint for r in rels], "members of an edge")
            ctx.same(e.get_incoming_relations(), [r for r in rels if r.direction in (IN, BI)],
                     "incoming relations of an edge")
            ctx.same(e.get_outgoing_relations(), [r for r in rels if r.direction in (OUT, BI)],
                     "outgoing relations of an edge")


INCIDENCE = {IN: [1.0, 0.0], OUT: [0.0, 1.0], BI: [1.0, 1.0]}


def incidence(ctx, r):
    ctx.eq([float(x) for x in r.relation_incidence_value], INCIDENCE[r.direction], "incidence values", r.direction)
