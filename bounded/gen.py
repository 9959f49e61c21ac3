"""generators of model values"""
import itertools
from moz.l10n.model import (
    CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef,
)

V = VariableRef

NASTY = [
    "", " ", "a", "b", ".", "\\", "\\.", "a.b", "\n", "\t", "\r", "é", "\u2028", "\x85", "\U0001f600", "\0", "\x01", "\x7f", "{", "}", "|", "$", "#", "!", "=", ":", "\"",
    "'", "<", ">", "&", "*", "@", "?", "%", "%s", "%1$s", "\\n", "\\u0041", "--", "-->", "]]>", ";", "[", "]", "~", "_", "\u00a0", "\ufeff", "\u0301", "0", "-1", "1.5", "\x0b", "\x0c",
]
PLAIN = ["a", "b", "foo", "Bar", " ", "x y", "é", "\U0001f600", "1", "."]


def string(r, atoms=NASTY, maxlen=5, minlen=0):
    n = r.choice([0, 1, 1, 2, 2, 3, maxlen]) if minlen == 0 else r.randint(minlen, maxlen)
    return "".join(r.choice(atoms) for _ in range(n))


def nonempty(r, atoms=NASTY, maxlen=4):
    while True:
        s = string(r, atoms, maxlen, 1)
        if s:
            return s


NAMES = ["a", "b", "c", "foo", "Bar-1", "_x", "é", "a.b", "z9"]


def name(r):
    return r.choice(NAMES)


def ident(r):
    return name(r) if r.random() < 0.8 else name(r) + ":" + name(r)


class G:
    """generator of messages; valid=True: mf2-valid names everywhere"""

    def __init__(self, r, valid=False, atoms=NASTY):
        self.r, self.valid, self.atoms = r, valid, atoms

    def name(self):
        return name(self.r) if self.valid or self.r.random() < 0.7 else string(self.r, self.atoms)

    def ident(self):
        return ident(self.r) if self.valid or self.r.random() < 0.7 else nonempty(self.r, self.atoms)

    def lit(self):
        r = self.r
        return r.choice(["", "0", "x", "1", "a b", "one", "-0.5"]) if r.random() < 0.4 else string(r, self.atoms)

    def ref(self):
        return V(self.name())

    def value(self):
        return self.lit() if self.r.random() < 0.6 else self.ref()

    def size(self, hi=3):
        return self.r.choice([0, 0, 0, 1, 1, 2, hi])

    def options(self):
        return {self.ident(): self.value() for _ in range(self.size())}

    def attributes(self):
        return {self.ident(): (self.lit() if self.r.random() < 0.6 else True) for _ in range(self.size())}

    def expression(self, need_fn=False, need_arg=False):
        r = self.r
        arg = r.choice([None, "lit", "ref", "ref"])
        if need_arg and arg is None:
            arg = "ref"
        arg = None if arg is None else self.lit() if arg == "lit" else self.ref()
        fn = None
        if arg is None or need_fn or r.random() < 0.5:
            fn = self.ident()
        return Expression(arg, fn, self.options() if fn is not None else {}, self.attributes())

    def markup(self):
        return Markup(self.r.choice(["open", "standalone", "close"]), self.ident() if self.valid else self.name(), self.options(), self.attributes())

    def part(self):
        x = self.r.random()
        if x < 0.45:
            return string(self.r, self.atoms)
        return self.expression() if x < 0.8 else self.markup()

    def pattern(self):
        return [self.part() for _ in range(self.size(4) + self.r.choice([0, 1]))]

    def declarations(self):
        out = {}
        for _ in range(self.size()):
            n = self.name()
            if self.r.random() < 0.4:
                e = self.expression()
                e.arg = V(n)
                out[n] = e
            else:
                out[n] = self.expression()
        return out

    def key(self, star=None):
        if star or (star is None and self.r.random() < 0.3):
            return CatchallKey(self.r.choice([None, None, "other", "x", nonempty(self.r, self.atoms)]))
        return self.r.choice(["one", "two", "0", "", "x"]) if self.r.random() < 0.7 else string(self.r, self.atoms)

    def pmsg(self):
        return PatternMessage(self.pattern(), self.declarations() if self.r.random() < 0.4 else {})

    def smsg(self):
        r = self.r
        n = r.choice([1, 1, 2, 3])
        decl = self.declarations()
        sels = []
        for _ in range(n):
            nm = self.name()
            if nm not in decl or decl[nm].function is None:
                decl[nm] = self.expression(need_fn=True)
                if r.random() < 0.7:
                    decl[nm].arg = V(nm)
            sels.append(V(nm))
        variants = {}
        for _ in range(r.choice([0, 1, 2, 3])):
            k = tuple(self.key() for _ in range(n))
            variants[k] = self.pattern()
        ck = tuple(self.key(True) for _ in range(n))
        if ck not in variants:
            variants[ck] = self.pattern()
        return SelectMessage(decl, tuple(sels), variants)

    def message(self):
        return self.pmsg() if self.r.random() < 0.6 else self.smsg()

    def metas(self):
        r = self.r
        return [Metadata(r.choice(["k", "l", "ref", nonempty(r, self.atoms)]), string(r, self.atoms)) for _ in range(self.size())]

    def id(self, n=None):
        r = self.r
        return tuple(nonempty(r, self.atoms if r.random() < 0.5 else PLAIN) for _ in range(n or r.choice([1, 1, 2, 3])))

    def entry(self):
        r = self.r
        props = {self.name() if r.random() < 0.8 else nonempty(r): self.message() for _ in range(self.size(2))}
        return Entry(self.id(), self.message(), props, string(r, self.atoms) if r.random() < 0.5 else "", self.metas())


# ---- small values, enumerated completely
S_EXPR = [Expression(a, f, o, t)
          for a in (None, "", "x", V("v"))
          for f in (None, "f")
          for o in ({}, {"o": ""}, {"p": V("w"), "o": "y"})
          for t in ({}, {"t": True}, {"t": "", "s": "z"})
          if (a is not None or f is not None) and (f is not None or not o)]
S_MARKUP = [Markup(k, "m", o, t) for k in ("open", "standalone", "close") for o in ({}, {"o": ""}, {"p": V("w"), "o": "y"}) for t in ({}, {"t": True}, {"t": "", "s": "z"})]
S_PARTS = ["", "x", " y"] + S_EXPR + S_MARKUP
S_KEYS = ["", "one", CatchallKey(None), CatchallKey("one"), CatchallKey("other")]


def small_messages():
    for p in S_PARTS:
        yield PatternMessage([p])
    yield PatternMessage([])
    few = ["", "x", S_EXPR[0], Expression(V("v")), Expression("", None, {}, {"t": True}), S_MARKUP[0]]
    for n in (2, 3):
        for ps in itertools.product(few, repeat=n):
            yield PatternMessage(list(ps))
    for e in S_EXPR:
        yield PatternMessage(["x"], {"d": e})
        yield PatternMessage([Expression(V("d"))], {"d": e, "c": Expression(V("c"), "f")})
        yield SelectMessage({"d": e}, (V("d"),), {(CatchallKey(None),): ["x"]})
    yield PatternMessage([], {"d": Expression("1")})
    for k in S_KEYS:
        for k2 in S_KEYS:
            try:
                vs = {(k,): ["x"], (k2,): [], (CatchallKey("z"),): [Expression(V("n"))]}
            except Exception:
                continue
            yield SelectMessage({"n": Expression(V("n"), "number")}, (V("n"),), vs)
            yield SelectMessage({"n": Expression(V("n"), "number"), "m": Expression(V("q"), "string")}, (V("n"), V("m")),
                                {(k, k2): ["x"], (CatchallKey(None), CatchallKey(None)): [""]})
