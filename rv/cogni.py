"""A stand-in for the parser which ANTLR generates from the grammars of the repository: interprets the grammars and
provides the modules the visitor of the repository imports (rei.format.cognilang.*), with contexts like ANTLR's."""
import os
import re
import sys
import types

from rv.core import REPO

GRAMMARS = os.path.join(REPO, "framework/cognitive/speclanguage/src/main/antlr4")
PYTHON_NAMES = {"type", "ref", "list", "str", "int", "float", "id", "input", "object", "in", "is", "or", "and", "not"}


class SyntaxProblem(Exception):
    pass


# --- grammar files -------------------------------------------------------------------------------------------------
META = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<lit>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<arrow>->)"""
                  r"""|(?P<id>[A-Za-z_]\w*)|(?P<op>\+\?|\*\?|\?\?|\+=|[:;|()?*+=.~])""", re.S)


def meta_tokens(text):
    # quotes within a character set, sets within quotes: the scanner goes from left to right
    out, i = [], 0
    while i < len(text):
        m = META.match(text, i)
        if m is None:
            raise SyntaxProblem(f"grammar: {text[i:i + 30]!r}")
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
    return out


class MetaParser:
    def __init__(self, text):
        self.t = meta_tokens(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def take(self, text=None):
        kind, value = self.peek()
        if text is not None and value != text:
            raise SyntaxProblem(f"grammar: expected {text!r}, found {value!r}")
        self.i += 1
        return value

    def file(self):
        imports, rules = [], []
        self.take("grammar")
        self.take()
        self.take(";")
        while self.peek()[0] is not None:
            if self.peek()[1] == "import":
                self.take()
                while self.peek()[1] != ";":
                    v = self.take()
                    if v != ",":
                        imports.append(v)
                self.take(";")
                continue
            fragment = self.peek()[1] == "fragment"
            if fragment:
                self.take()
            name = self.take()
            self.take(":")
            body = self.alternatives()
            command = "fragment" if fragment else None
            if self.peek()[0] == "arrow":
                self.take()
                command = self.take()
            self.take(";")
            rules.append((name, body, command))
        return imports, rules

    def alternatives(self):
        alts = [self.sequence()]
        while self.peek()[1] == "|":
            self.take()
            alts.append(self.sequence())
        return ("alt", alts)

    def sequence(self):
        out = []
        while self.peek()[1] not in ("|", ")", ";", None) and self.peek()[0] != "arrow":
            out.append(self.element())
        return ("seq", out)

    def element(self):
        label = None
        if self.peek()[0] == "id" and self.peek(1)[1] == "=":
            label = self.take()
            self.take()
        kind, value = self.peek()
        if value == "(":
            self.take()
            x = self.alternatives()
            self.take(")")
        elif kind == "lit":
            x = ("lit", unescape(self.take()[1:-1]))
        elif kind == "set":
            x = ("set", self.take())
        elif value == ".":
            self.take()
            x = ("any",)
        elif kind == "id":
            x = ("ref", self.take())
        else:
            raise SyntaxProblem(f"grammar: unexpected {value!r}")
        if label is not None:
            x = ("label", label, x)
        if self.peek()[1] in ("?", "*", "+", "+?", "*?", "??"):
            x = ("rep", self.take(), x)
        return x


def unescape(s):
    return s.replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r").replace("\\'", "'").replace("\\\\", "\\")


def load(name="CogniLang"):
    """All rules of a grammar with its imports; earlier definitions win."""
    parser, lexer, seen = {}, {}, set()

    def read(n):
        if n in seen:
            return
        seen.add(n)
        with open(os.path.join(GRAMMARS, n + ".g4"), encoding="utf-8") as f:
            text = f.read().replace(", ", " , ")
        imports, rules = MetaParser(re.sub(r"(?m)^(import[^;]*);", lambda m: m.group().replace(",", " "), text)).file()
        for rule, body, command in rules:
            if rule[0].isupper():
                lexer.setdefault(rule, (body, command))
            else:
                parser.setdefault(rule, body)
        for i in imports:
            read(i)
    read(name)
    return parser, lexer


# --- lexer ---------------------------------------------------------------------------------------------------------
def regex(node, lexer, inside=()):
    k = node[0]
    if k == "alt":
        return "(?:" + "|".join(regex(x, lexer, inside) for x in node[1]) + ")"
    if k == "seq":
        return "".join(regex(x, lexer, inside) for x in node[1])
    if k == "lit":
        return "(?:" + re.escape(node[1]) + ")"
    if k == "set":
        return node[1]
    if k == "any":
        return r"(?s:.)"
    if k == "label":
        return regex(node[2], lexer, inside)
    if k == "rep":
        if node[2][0] == "ref" and node[2][1] in inside:
            return "\0"                # the rule itself, repeated at its end
        return "(?:" + regex(node[2], lexer, inside) + ")" + node[1]
    if k == "ref":
        r = regex(lexer[node[1]][0], lexer, (*inside, node[1]))
        return recursive(r)
    raise SyntaxProblem(str(node))


def recursive(r):
    return "(?:" + r.replace("\0", "") + ")+" if "\0" in r else r


class Symbol:
    def __init__(self, kind, text, literal):
        self.kind, self.text, self.literal = kind, text, literal


class Lexer:
    def __init__(self, parser, lexer):
        literals = set()

        def collect(n):
            if n[0] == "lit":
                literals.add(n[1])
            for x in n[1:]:
                if isinstance(x, tuple):
                    collect(x)
                elif isinstance(x, list):
                    for y in x:
                        collect(y)
        for body in parser.values():
            collect(body)
        self.literals = literals
        self.alias = {}
        self.rules = []
        for name, (body, command) in lexer.items():
            if command == "fragment":
                continue
            alts = body[1]
            if len(alts) == 1 and len(alts[0][1]) == 1 and alts[0][1][0][0] == "lit":
                self.alias.setdefault(alts[0][1][0][1], name)
            r = recursive(regex(body, lexer, (name,)))
            self.rules.append((name, re.compile(r), command))

    def tokens(self, text):
        i, out = 0, []
        while i < len(text):
            best = None
            for lit in self.literals:
                if text.startswith(lit, i) and (best is None or len(lit) > len(best[1])):
                    best = (self.alias.get(lit), lit, None, True)
            for name, r, command in self.rules:
                m = r.match(text, i)
                if m and m.end() > i and (best is None or m.end() - i > len(best[1])):
                    best = (name, m.group(), command, m.group() in self.alias)
            if best is None:
                raise SyntaxProblem(f"token recognition error at {text[i:i + 20]!r}")
            i += len(best[1])
            if best[2] != "skip":
                out.append(Symbol(best[0], best[1], best[3]))
        return out


# --- contexts ------------------------------------------------------------------------------------------------------
class Terminal:
    def __init__(self, symbol, parent):
        self.symbol, self.parentCtx = symbol, parent

    def getText(self):
        return self.symbol.text

    def getSymbol(self):
        return self.symbol

    def __str__(self):
        return self.symbol.text

    def accept(self, visitor):
        return visitor.visitTerminal(self)


class Context:
    rule = None

    def __init__(self, parent):
        self.parentCtx = parent
        self.children = []

    def getChildren(self):
        yield from self.children

    def getChildCount(self):
        return len(self.children)

    def getChild(self, i):
        return self.children[i]

    def getText(self):
        return "".join(c.getText() for c in self.children)

    def accept(self, visitor):
        f = getattr(visitor, "visit" + self.rule[0].upper() + self.rule[1:], None)
        return f(self) if f is not None else visitor.visitChildren(self)


class Visitor:
    def visit(self, tree):
        return tree.accept(self)

    def defaultResult(self):
        return None

    def aggregateResult(self, aggregate, nextResult):
        return nextResult

    def shouldVisitNextChild(self, node, currentResult):
        return True

    def visitChildren(self, node):
        result = self.defaultResult()
        for c in list(node.children):
            if not self.shouldVisitNextChild(node, result):
                return result
            result = self.aggregateResult(result, c.accept(self))
        return result

    def visitTerminal(self, node):
        return self.defaultResult()

    def visitErrorNode(self, node):
        return self.defaultResult()


def frequencies(node):
    """How often a rule or token can occur: 1, or 2 for several times."""
    k = node[0]
    if k == "alt":
        out = {}
        for a in node[1]:
            for n, c in frequencies(a).items():
                out[n] = max(out.get(n, 0), c)
        return out
    if k == "seq":
        out = {}
        for x in node[1]:
            for n, c in frequencies(x).items():
                out[n] = min(2, out.get(n, 0) + c)
        return out
    if k == "label":
        return frequencies(node[2])
    if k == "rep":
        f = frequencies(node[2])
        return f if node[1] in ("?", "??") else {n: 2 for n in f}
    if k == "ref":
        return {node[1]: 1}
    return {}


def labels(node):
    if node[0] == "label":
        yield node[1]
        yield from labels(node[2])
    elif node[0] in ("alt", "seq"):
        for x in node[1]:
            yield from labels(x)
    elif node[0] == "rep":
        yield from labels(node[2])


def python_name(n):
    return n + "_" if n in PYTHON_NAMES else n


def accessor(name, several):
    if name[0].isupper():
        def select(self):
            return [c for c in self.children if isinstance(c, Terminal) and c.symbol.kind == name]
    else:
        def select(self):
            return [c for c in self.children if isinstance(c, Context) and c.rule == name]
    if several:
        def get(self, i=None):
            found = select(self)
            return found if i is None else (found[i] if i < len(found) else None)
    else:
        def get(self):
            found = select(self)
            return found[0] if found else None
    return get


class Language:
    def __init__(self):
        self.rules, lex = load()
        self.lexer = Lexer(self.rules, lex)
        self.contexts = {}
        for rule, body in self.rules.items():
            members = {"rule": rule}
            for n, c in frequencies(body).items():
                members[python_name(n)] = accessor(n, c > 1)
            for n in labels(body):
                members[python_name(n)] = None
            self.contexts[rule] = type(rule[0].upper() + rule[1:] + "Context", (Context,), members)

    # ordered choice with greedy repetition
    def parse(self, text, rule="rootnode"):
        self.t = self.lexer.tokens(text)
        self.furthest = 0
        ctx, i = self.rule(rule, 0, None)
        if ctx is None or i != len(self.t):
            raise SyntaxProblem("syntax error at " + " ".join(x.text for x in self.t[self.furthest:self.furthest + 8]))
        return ctx

    def rule(self, name, i, parent):
        ctx = self.contexts[name](parent)
        r = self.match(self.rules[name], i, ctx)
        return (ctx, r) if r is not None else (None, None)

    def match(self, node, i, ctx):
        """Matches a part of a rule; adds to the children; returns the next position or None (children restored)."""
        k = node[0]
        if k == "seq":
            n, keep = len(ctx.children), dict(ctx.__dict__)
            for x in node[1]:
                i = self.match(x, i, ctx)
                if i is None:
                    del ctx.children[n:]
                    children = ctx.children
                    ctx.__dict__.clear()
                    ctx.__dict__.update(keep)
                    ctx.children = children
                    return None
            return i
        if k == "alt":
            for x in node[1]:
                r = self.match(x, i, ctx)
                if r is not None:
                    return r
            return None
        if k == "label":
            n = len(ctx.children)
            r = self.match(node[2], i, ctx)
            if r is not None and len(ctx.children) > n:
                c = ctx.children[-1]
                setattr(ctx, python_name(node[1]), c.symbol if isinstance(c, Terminal) else c)
            return r
        if k == "rep":
            count = 0
            while True:
                r = self.match(node[2], i, ctx)
                if r is None:
                    break
                count += 1
                if r == i:
                    break
                i = r
                if node[1][0] == "?":
                    break
            return i if count or node[1][0] != "+" else None
        self.furthest = max(self.furthest, i)
        if k == "lit":
            ok = i < len(self.t) and self.t[i].text == node[1] and self.t[i].literal
        elif node[1][0].isupper():
            ok = i < len(self.t) and self.t[i].kind == node[1]
        else:
            sub, r = self.rule(node[1], i, ctx)
            if sub is None:
                return None
            ctx.children.append(sub)
            return r
        if not ok:
            return None
        ctx.children.append(Terminal(self.t[i], ctx))
        return i + 1


def install():
    """Makes the modules the visitor imports; returns the language."""
    language = Language()
    visitor = types.ModuleType("rei.format.cognilang.CogniLangVisitor")
    members = {}
    for rule in language.rules:
        members["visit" + rule[0].upper() + rule[1:]] = lambda self, ctx: self.visitChildren(ctx)
    visitor.CogniLangVisitor = type("CogniLangVisitor", (Visitor,), members)
    parser = types.ModuleType("rei.format.cognilang.CogniLangParser")
    parser.CogniLangParser = type("CogniLangParser", (), {c.__name__: c for c in language.contexts.values()})
    lexer = types.ModuleType("rei.format.cognilang.CogniLangLexer")
    lexer.CogniLangLexer = type("CogniLangLexer", (), {})
    package = types.ModuleType("rei.format.cognilang")
    package.__path__ = []
    sys.modules["rei.format.cognilang"] = package

    # as far as programs of the repository use the generated classes
    class Lexer:
        def __init__(self, stream):
            self.text = stream.text

    class Parser(parser.CogniLangParser):
        def __init__(self, stream):
            self.text = stream.text

        def rootnode(self):
            return language.parse(self.text)

    class FileStream:
        def __init__(self, path, encoding="ascii", errors="strict"):
            with open(path, encoding=encoding, errors=errors) as f:
                self.text = f.read()

    class Stream:
        def __init__(self, text):
            self.text = getattr(text, "text", text)
    lexer.CogniLangLexer, parser.CogniLangParser = Lexer, Parser
    Parser.__name__ = "CogniLangParser"
    antlr4 = types.ModuleType("antlr4")
    antlr4.FileStream, antlr4.CommonTokenStream, antlr4.InputStream = FileStream, Stream, Stream
    sys.modules["antlr4"] = antlr4
    for m in (visitor, parser, lexer):
        sys.modules[m.__name__] = m
        setattr(package, m.__name__.rsplit(".", 1)[1], m)
    return language
