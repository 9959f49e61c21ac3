"""The MessageFormat 2 grammar, read directly from its ABNF (number / name unquoted literals, any number of bidi marks around names)"""
import re
from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef as V

BIDI = "\u061c\u200e\u200f\u2066\u2067\u2068\u2069"
WS = "\t\n\r \u3000"
_S = ("a-zA-Z_\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u02ff\u0370-\u037d\u037f-\u061b\u061d-\u1fff\u200c-\u200d\u2070-\u218f"
      "\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffc\U00010000-\U000effff")
NAME = f"[{_S}][{_S}0-9\\-.\u00b7\u0300-\u036f\u203f-\u2040]*"
RX = {
    "name": re.compile(f"[{BIDI}]*({NAME})[{BIDI}]*"),
    "plain": re.compile(f"(-?(?:0|[1-9]\\d*)(?:\\.\\d+)?(?:[eE][-+]?\\d+)?|{NAME})"),
    "o": re.compile(f"([{WS}{BIDI}]*)"),
    "s": re.compile(f"([{BIDI}]*[{WS}][{WS}{BIDI}]*)"),
    "quoted": re.compile(r"\|((?:[^\\|\0]|\\[\\{|}])*)\|"),
    "text": re.compile(r"((?:[^\\{}\0]|\\[\\{|}])+)"),
}


class Refuse(Exception):
    pass


class Ref:
    def __init__(self, src):
        self.src = src

    def rx(self, kind, i):
        m = RX[kind].match(self.src, i)
        return (m[1], m.end()) if m else None

    def need(self, kind, i):
        m = self.rx(kind, i)
        if m is None:
            raise Refuse(kind, i)
        return m

    def o(self, i):
        return self.rx("o", i)[1]

    def s(self, i):
        m = self.rx("s", i)
        return m and m[1]

    def tok(self, t, i):
        if not self.src.startswith(t, i):
            raise Refuse(t, i)
        return i + len(t)

    def at(self, t, i):
        return self.src.startswith(t, i)

    def variable(self, i):
        n, i = self.need("name", self.tok("$", i))
        return V(n), i

    def identifier(self, i):
        a, i = self.need("name", i)
        if self.at(":", i):
            b, i = self.need("name", i + 1)
            return f"{a}:{b}", i
        return a, i

    def literal(self, i):
        if self.at("|", i):
            v, i = self.need("quoted", i)
            return re.sub(r"\\(.)", r"\1", v, flags=re.S), i
        return self.need("plain", i)

    def options(self, i):
        out = {}
        while True:
            j = self.s(i)
            if j is None or self.at("@", j) or self.at("/", j) or self.at("}", j) or j >= len(self.src):
                return out, i
            n, j = self.identifier(j)
            if n in out:
                raise Refuse("option twice")
            j = self.o(self.tok("=", self.o(j)))
            out[n], i = self.variable(j) if self.at("$", j) else self.literal(j)

    def attributes(self, i):
        out = {}
        while True:
            j = self.s(i)
            if j is None or not self.at("@", j):
                return out, i
            n, i = self.identifier(j + 1)
            if n in out:
                raise Refuse("attribute twice")
            j = self.o(i)
            if self.at("=", j):
                out[n], i = self.literal(self.o(j + 1))
            else:
                out[n] = True

    def placeholder(self, i):
        i = self.o(self.tok("{", i))
        if self.at("#", i) or self.at("/", i):
            kind = "open" if self.at("#", i) else "close"
            n, i = self.identifier(i + 1)
            opts, i = self.options(i)
            attrs, i = self.attributes(i)
            i = self.o(i)
            if kind == "open" and self.at("/", i):
                kind = "standalone"
                i += 1
            return Markup(kind, n, opts, attrs), self.tok("}", i)
        arg, fn, opts = None, None, {}
        j = i
        if not self.at(":", i):
            arg, i = self.variable(i) if self.at("$", i) else self.literal(i)
            j = self.s(i)
            # whitespace may have been taken along with a name's bidi marks
            if j is None and self.at(":", self.o(i)):
                if self.o(i) == i:
                    raise Refuse("space needed")
                j = self.o(i)
        if j is not None and self.at(":", j):
            fn, i = self.identifier(j + 1)
            opts, i = self.options(i)
        attrs, i = self.attributes(i)
        return Expression(arg, fn, opts, attrs), self.tok("}", self.o(i))

    def pattern(self, i):
        out = []
        while i < len(self.src) and not self.at("}", i):
            if self.at("{", i):
                p, i = self.placeholder(i)
            else:
                p, i = self.need("text", i)
                p = re.sub(r"\\(.)", r"\1", p, flags=re.S)
            out.append(p)
        return out, i

    def quoted(self, i):
        p, i = self.pattern(self.tok("{{", i))
        return p, self.tok("}}", i)

    def message(self):
        i = self.o(0)
        if not self.at(".", i) and not self.at("{{", i):
            p, i = self.pattern(0)
            if i != len(self.src):
                raise Refuse("end")
            return PatternMessage(p)
        decl = {}
        used = set()
        while True:
            if self.at(".input", i):
                e, i = self.placeholder(self.o(i + 6))
                if not isinstance(e, Expression) or not isinstance(e.arg, V):
                    raise Refuse("input")
                n = e.arg.name
            elif self.at(".local", i):
                j = self.s(i + 6)
                if j is None:
                    raise Refuse("space")
                v, i = self.variable(j)
                n = v.name
                e, i = self.placeholder(self.o(self.tok("=", self.o(i))))
                if not isinstance(e, Expression):
                    raise Refuse("markup in local")
                if isinstance(e.arg, V):
                    used.add(e.arg.name)
            else:
                break
            used |= {x.name for x in e.options.values() if isinstance(x, V)}
            if n in used:
                raise Refuse("implicitly or explicitly declared before")
            used.add(n)
            decl[n] = e
            i = self.o(i)
        if not self.at(".match", i):
            p, i = self.quoted(i)
            if self.o(i) != len(self.src):
                raise Refuse("end")
            return PatternMessage(p, decl)
        i += 6
        sels = []
        while True:
            j = self.s(i)
            if j is None:
                raise Refuse("space")
            if not self.at("$", j):
                i = j
                break
            v, i = self.variable(j)
            sels.append(v)
        if not sels:
            raise Refuse("selector")
        for v in sels:
            n = v.name
            while True:
                e = decl.get(n)
                if e is None:
                    raise Refuse("selector annotation")
                if e.function is not None:
                    break
                if not isinstance(e.arg, V) or e.arg.name == n:
                    raise Refuse("selector annotation")
                n = e.arg.name
        vs = {}
        while i < len(self.src):
            ks = []
            while not self.at("{", i):
                if i >= len(self.src):
                    raise Refuse("end")
                if self.at("*", i):
                    k, i = CatchallKey(), i + 1
                else:
                    k, i = self.literal(i)
                ks.append(k)
                j = self.s(i)
                if j is None:
                    break
                i = j
            if len(ks) != len(sels):
                raise Refuse("number of keys")
            p, i = self.quoted(i)
            i = self.o(i)
            if tuple(ks) in vs:
                raise Refuse("keys twice")
            vs[tuple(ks)] = p
        if (CatchallKey(),) * len(sels) not in vs:
            raise Refuse("fallback")
        return SelectMessage(decl, tuple(sels), vs)


def ref_parse(src):
    """-> Message or None"""
    try:
        return Ref(src).message()
    except Refuse:
        return None
