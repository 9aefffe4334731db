"""The code under test, clocks, names and small helpers shared by the checks."""
import asyncio
import hashlib

from rei.foundations.clock import MetaClock, DummyClock, LocalClock
from rei.foundations.common_errors import (ErrorDuplicateElement, ErrorRecursiveHierarchy, ErrorInvalidQuery,
                                           ErrorClockNotSet)
from rei.foundations.conceptual_item import ConceptualItem, HierarchicalElement
from rei.factories.foundation_factory import HypergraphFactory
from rei.factories.abstract_factory import ErrorInsufficientValues
from rei.hypergraph.base_elements import (HypergraphNode, HypergraphEdge, HypergraphRelation, HypergraphPort,
                                          HypergraphElement)
from rei.hypergraph.common_definitions import EnumRelationDirection
from rei.hypergraph.value_node import ValueNode, SemanticValueNode
from rei.format.semantics.cognitive_entity_semantic_factory import CognitiveEntitySemanticFactory

IN, OUT, BI = EnumRelationDirection.INWARDS, EnumRelationDirection.OUTWARDS, EnumRelationDirection.BIDIRECTIONAL
DIRS = [IN, OUT, BI]


class TickClock(MetaClock):
    """Every reading is a new, later instant."""

    def __init__(self, start=1000):
        self.now = start

    def get_time_ns(self):
        self.now += 1
        return self.now

    def get_time_sec(self):
        return self.get_time_ns() / 1e9


class FrozenClock(MetaClock):
    def __init__(self, now=7):
        self.now = now

    def get_time_ns(self):
        return self.now

    def get_time_sec(self):
        return self.now / 1e9


class JumpClock(MetaClock):
    """A clock set back and forth; keeps what it handed out."""

    def __init__(self, rng):
        self.rng = rng
        self.readings = []

    def get_time_ns(self):
        self.readings.append(self.rng.randrange(1 << 40) * 1000 + len(self.readings) % 1000)
        return self.readings[-1]

    def get_time_sec(self):
        return self.get_time_ns() / 1e9


PLAIN = ["a", "b", "c", "node", "edge", "n0", "n1", "x", "link", "base"]
ODD = ["", " ", "a.b", "a b", "ä", "名前", "0", "-", "port", "rel", "a.port.b", "None", "n\n1", "\U0001f600", "A", "e12",
       "world", "x" * 80, "'", "<&>"]


# everything but the separator
CHARS = "abzABZ0159_-.:;,+*~#@!?$%^&|=<>()[]{}\"'`\\ \t\n\r\0äßéÉИ名\u0301\u200b\u2028\U0001f600"


def random_name(rng):
    return "".join(rng.choice(CHARS) for _ in range(rng.choice([1, 1, 2, 3, 5, 12])))


def pick_name(rng, odd=0.2):
    if rng.random() >= odd:
        return rng.choice(PLAIN)
    return rng.choice(ODD) if rng.random() < 0.5 else random_name(rng)


def confusable(rng, base=None):
    """Different names which are easily taken for each other."""
    import unicodedata
    s = base if base is not None else rng.choice(["Ab", "name", "x", "Größe", "éclair", "n" * 70, "a.b", "link_1", "0"])
    out = {s, s.upper(), s.lower(), s.swapcase(), s + " ", " " + s, s + "\t", s + "\n", s + "\0", s + ".", "." + s, s * 2,
           s[::-1], s[:-1], s[1:], s + "_", "_" + s, s + "0", s + "1", s + "01", s.replace("_", "-"), s.replace("_", ""),
           s + "\u200b", s + "\u0301", s + "é", s + "e\u0301", s + "ſ", s + "s", s + "Ａ", s + "A", s + "-", s + "+", s + ":",
           s + ",", s + "\\", s + "%2F", s + "|", s + "#", s + "?", s.casefold(), unicodedata.normalize("NFD", s),
           unicodedata.normalize("NFC", s), s + "x" * 300, s + "x" * 299 + "y", "x" * 300 + s, "y" + "x" * 299 + s}
    out.discard("")
    return sorted(out)


def new_uuid(rng):
    return rng.randbytes(14)


def true(x):
    return True


def children(el):
    return list(el.get_subelements(true))


def drain_searches(run):
    """Search objects keep leftovers of earlier successful searches (known finding): take them out."""
    from rei.foundations.query.search_elements import QuerySearchSubElement
    q = QuerySearchSubElement()
    q.query_def = "\0no such element\0"
    lone = HypergraphNode("lone", b"lone", "lone", DummyClock(), None)
    run(q.execute(lone))


def names_path(el):
    """Names from the root down to the element, by the observed parents."""
    names = []
    seen = 0
    while el is not None:
        names.append(el.id_name)
        el = el.parent
        seen += 1
        if seen > 100000:
            return None
    return names[::-1]


class Kept:
    """Results handed out earlier: nothing done later changes them."""

    def __init__(self, rng, share=0.5):
        self.rng, self.share, self.entries = rng, share, []

    def add(self, what, value):
        if self.rng.random() < self.share:
            self.entries.append((what, value, frozen(value)))
        return value

    def check(self, ctx):
        for what, value, before in self.entries:
            ctx.ok(same_frozen(frozen(value), before), f"{what}, handed out earlier, was changed by what was done later")
        ctx.count("earlier_results", len(self.entries))


def frozen(x):
    """A copy of lists, tuples, dictionaries and arrays; the contained elements themselves."""
    import numpy as np
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.copy())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, len(x), [frozen(y) for y in x])
    if isinstance(x, dict):
        return ("dict", len(x), [(k, frozen(v)) for k, v in x.items()])
    return ("element", 0, x)


def same_frozen(a, b):
    import numpy as np
    if a[:2] != b[:2]:
        return False
    if a[0] == "array":
        return np.array_equal(a[2], b[2], equal_nan=True)
    if a[0] == "element":
        return a[2] is b[2] or (type(a[2]) is type(b[2]) and isinstance(a[2], (int, float, str, bytes, bool)) and a[2] == b[2])
    if a[0] == "dict":
        return all(j == k and same_frozen(x, y) for (j, x), (k, y) in zip(a[2], b[2]))
    return all(same_frozen(x, y) for x, y in zip(a[2], b[2]))
