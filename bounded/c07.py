"""C07: normalize()"""
import itertools
from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef as V
from .common import cut, diff, exc, same, snap
from .gen import G

CONTRACTS = ["normalize"]
BUDGET = 12
LEVEL = "other"
RULE = "all patterns of up to 5 parts over two texts, the empty text, an expression and a markup; all declaration graphs over 3 names (argument and option references) with every set of used names; then random messages; non-trivial: has at least two parts or a declaration"
EXPLANATION = '_normalize_pattern meets its contract (the pattern becomes the fold that joins adjacent texts and drops empty ones; the set of used names gets every reference) for patterns of any length, by a fold rule for its loop; variable_refs is proved without a bound; _normalize_declarations is a bounded symbolic check of graphs of up to 2 declarations; the methods themselves are evaluated on every enumerated and random message'


def refs(x):
    out = set()
    if isinstance(x, Expression) and isinstance(x.arg, V):
        out.add(x.arg.name)
    if isinstance(x, (Expression, Markup)):
        out |= {v.name for v in x.options.values() if isinstance(v, V)}
    return out


def norm(pattern):
    out = []
    for text, group in itertools.groupby(pattern, lambda p: isinstance(p, str)):
        if text:
            s = "".join(group)
            # a placeholder-free stretch may be empty
            if s:
                out.append(s)
        else:
            out += group
    return out


def expected(m):
    m = snap(m)
    ps = [m.pattern] if isinstance(m, PatternMessage) else list(m.variants.values())
    used = set() if isinstance(m, PatternMessage) else {s.name for s in m.selectors}
    for p in ps:
        for x in p:
            used |= refs(x)
    while True:
        more = {r for n in used if n in m.declarations for r in refs(m.declarations[n])} - used
        if not more:
            break
        used |= more
    m.declarations = {n: e for n, e in m.declarations.items() if n in used}
    if isinstance(m, PatternMessage):
        m.pattern = norm(m.pattern)
    else:
        m.variants = {k: norm(p) for k, p in m.variants.items()}
    return m


PARTS = ["", "a", "b ", Expression(V("v"), "f", {"o": V("w")}), Expression("x", None, {}, {"a": True}), Markup("open", "m", {"q": V("u")})]


def cases(r, tier, shard, shards):
    def small():
        for n in range(0, 6):
            for ps in itertools.product(PARTS if n < 5 else PARTS[:4], repeat=n):
                yield ("pattern", PatternMessage(list(ps)))
        names = ["a", "b", "c"]
        exprs = [lambda x=a, y=b: Expression(x, "f", {"o": y} if y is not None else {}) for a in ("lit", V("a"), V("b"), V("c")) for b in (None, V("a"), V("b"), V("c"))]
        for es in itertools.product(exprs, repeat=3):
            for use in ((), ("a",), ("b",), ("c",)):
                d = {n: e() for n, e in zip(names, es)}
                yield ("graph", PatternMessage([Expression(V(u)) for u in use], d))
        for es in itertools.product(exprs[::3], repeat=3):
            d = {n: e() for n, e in zip(names, es)}
            for u in names:
                yield ("select", SelectMessage(dict(d), (V(u),), {("x",): ["", "a", "", "b"], (CatchallKey("q"),): [Expression("1", "f", {"z": V("b")}), ""]}))
            yield ("select", SelectMessage(dict(d), (V("a"), V("z")), {("x", "y"): ["a"], (CatchallKey(), CatchallKey()): [Markup("close", "f", {"z": V("c")}), "", "", "x", ""]}))

    yield from cut(small(), shard, shards)
    while True:
        m = G(r).message()
        if r.random() < 0.5:
            for _ in range(r.randint(0, 3)):
                n = r.choice("abcdefg")
                m.declarations[n] = Expression(V(r.choice("abcdefg")), "f", {"o": V(r.choice("abcdefg"))} if r.random() < 0.4 else {})
            ps = [m.pattern] if isinstance(m, PatternMessage) else list(m.variants.values())
            for p in ps:
                if r.random() < 0.5:
                    p.insert(r.randint(0, len(p)), Expression(V(r.choice("abcdefg"))))
        yield ("random", m)


def nontrivial(case):
    m = case[1]
    return not isinstance(m, PatternMessage) or len(m.pattern) > 1 or bool(m.declarations)


def from_witness(name, w):
    for v in w.values():
        if isinstance(v, (PatternMessage, SelectMessage)):
            return ("witness", v)


def check(case):
    m = snap(case[1])
    want = expected(m)
    parts = [x for p in ([m.pattern] if isinstance(m, PatternMessage) else m.variants.values()) for x in p if not isinstance(x, str)]
    try:
        got = m.normalize()
        if got is not m:
            return "normalize() does not return the message it changed"
        if not same(m, want):
            return f"normalize() of {case[1]!r}: {diff(m, want)}"
        m.normalize()
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(m, want):
        return f"a second normalize() changes {diff(m, want)}"
