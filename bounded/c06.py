"""C06: mf2_validate_message"""
import itertools, re
from moz.l10n.formats.mf2.validate import MF2ValidationError, mf2_validate_message
from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef as V
from .common import cut, diff, exc, same, snap
from .gen import G

CONTRACTS = ["mf2_validate"]
BUDGET = 15
LEVEL = "other"
RULE = "all one-character names over every range border of the MF2 name grammar, placed in each name position; all declaration graphs over 3 names with 2 selectors; all variant key lists up to 3 keys; then random messages, valid and with up to 3 faults; non-trivial: has a part, declaration or variant"
EXPLANATION = 'The name predicates, the checks of expressions, markup, options, attributes and patterns are proved to raise MF2ValidationError exactly if the data model rule is broken, for all inputs. Selector chains and declaration order are bounded: compared with an independent reading of the rules on all declaration graphs over 3 names.'

# ---- MessageFormat 2 names, from the ABNF of the specification as this library states it (without bidi marks around names)
_START = [(0x61, 0x7A), (0x41, 0x5A), (0x5F, 0x5F), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x61B), (0x61D, 0x1FFF), (0x200C, 0x200D),
          (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFC), (0x10000, 0xEFFFF)]
_MORE = [(0x30, 0x39), (0x2D, 0x2E), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)]


def start(c):
    return any(a <= ord(c) <= b for a, b in _START)


def is_name(s):
    return isinstance(s, str) and s != "" and start(s[0]) and all(start(c) or any(a <= ord(c) <= b for a, b in _MORE) for c in s)


def is_ident(s):
    return isinstance(s, str) and (is_name(s) or s.count(":") == 1 and all(is_name(x) for x in s.split(":")))


class Bad(Exception):
    pass


def need(c):
    if not c:
        raise Bad()


def v_options(o):
    need(isinstance(o, dict))
    for k, v in o.items():
        need(is_ident(k) and (isinstance(v, str) or isinstance(v, V) and is_name(v.name)))


def v_attrs(o):
    need(isinstance(o, dict))
    for k, v in o.items():
        need(is_ident(k) and (v is True or isinstance(v, str)))


def v_expr(e):
    need(e.arg is None or isinstance(e.arg, str) or isinstance(e.arg, V) and is_name(e.arg.name))
    if e.function is None:
        need(e.arg is not None and not e.options)
    else:
        need(is_ident(e.function))
        v_options(e.options)
    v_attrs(e.attributes)


def v_pattern(p):
    need(isinstance(p, list))
    for x in p:
        if isinstance(x, Expression):
            v_expr(x)
        elif isinstance(x, Markup):
            need(x.kind in ("open", "standalone", "close") and is_ident(x.name))
            v_options(x.options)
            v_attrs(x.attributes)
        else:
            need(isinstance(x, str))


def deps(n, e):
    out = {v.name for v in e.options.values() if isinstance(v, V)}
    if isinstance(e.arg, V) and e.arg.name != n:
        out.add(e.arg.name)
    return out


def v_message(m):
    for n, e in m.declarations.items():
        need(is_name(n) and isinstance(e, Expression))
        v_expr(e)
    graph = {n: deps(n, e) for n, e in m.declarations.items()}
    for n in graph:
        seen, todo = set(), list(graph[n])
        while todo:
            x = todo.pop()
            need(x != n)
            if x in graph and x not in seen:
                seen.add(x)
                todo += graph[x]
    if isinstance(m, PatternMessage):
        v_pattern(m.pattern)
        return
    need(isinstance(m.selectors, tuple) and m.selectors)
    for s in m.selectors:
        need(isinstance(s, V) and is_name(s.name))
        n = s.name
        while True:
            e = m.declarations.get(n)
            need(e is not None)
            if e.function is not None:
                break
            need(isinstance(e.arg, V) and e.arg.name != n)
            n = e.arg.name
    need(isinstance(m.variants, dict))
    catchall = False
    for ks, p in m.variants.items():
        need(isinstance(ks, tuple) and len(ks) == len(m.selectors) and all(isinstance(k, (str, CatchallKey)) for k in ks))
        v_pattern(p)
        catchall = catchall or all(isinstance(k, CatchallKey) for k in ks)
    need(catchall)


def valid(m):
    try:
        v_message(m)
        return True
    except Bad:
        return False


def ordered(m):
    seen = set()
    for n, e in m.declarations.items():
        if deps(n, e) & (set(m.declarations) - seen):
            return False
        seen.add(n)
    return True


CHARS = sorted({chr(x) for a, b in _START + _MORE for x in (a - 1, a, (a + b) // 2, b, b + 1) if not 0xD800 <= x < 0xE000} | set(" \t\n:|{}$.-+0\u0378\U000f0000\U0010ffff"))


def place(n):
    """the string in each position of a name"""
    yield ("decl", PatternMessage(["x"], {n: Expression("1", "f")}))
    yield ("var", PatternMessage([Expression(V(n))]))
    yield ("fn", PatternMessage([Expression(None, n)]))
    yield ("opt", PatternMessage([Expression("", "f", {n: "x"})]))
    yield ("optval", PatternMessage([Expression("", "f", {"o": V(n)})]))
    yield ("attr", PatternMessage([Expression("", None, {}, {n: True})]))
    yield ("markup", PatternMessage([Markup("open", n)]))
    yield ("mopt", PatternMessage([Markup("close", "m", {n: V("x")})]))
    yield ("moptval", PatternMessage([Markup("close", "m", {"x": V(n)})]))
    yield ("mattr", PatternMessage([Markup("standalone", "m", {}, {n: ""})]))
    yield ("sel", SelectMessage({n: Expression(V(n), "f")}, (V(n),), {(CatchallKey(),): []}))
    yield ("declarg", SelectMessage({"a": Expression(V(n), "f")}, (V("a"),), {(CatchallKey(n),): [], (n,): []}))


def fault(r, m):
    ps = [m.pattern] if isinstance(m, PatternMessage) else list(m.variants.values())
    exprs = [x for p in ps for x in p if isinstance(x, Expression)] + list(m.declarations.values())
    marks = [x for p in ps for x in p if isinstance(x, Markup)]
    bad = r.choice(["", " ", "1a", "a b", "-", "a:", ":a", "a:b:c", "é", "a\n", None, 3])
    k = r.randrange(15)
    if exprs:
        x = r.choice(exprs)
        if k == 0:
            x.function = bad
        elif k == 1:
            x.function = None
        elif k == 2:
            x.arg = None
        elif k == 3:
            x.arg = r.choice([V(bad), 3, V("b")])
        elif k == 4:
            x.options[bad] = "x"
        elif k == 5:
            x.options["o"] = r.choice([V(bad), 3, True, V("a")])
        elif k == 6:
            x.attributes[r.choice([bad, "t"])] = r.choice([True, False, "x", None])
    if marks and k == 7:
        setattr(r.choice(marks), r.choice(["kind", "name"]), bad)
    if k == 8:
        r.choice(ps).append(bad)
    if k == 9:
        m.declarations[r.choice("abc") if r.random() < 0.7 else bad] = Expression(V(r.choice("abc")), r.choice([None, "f"]))
    if isinstance(m, SelectMessage) and any(isinstance(x, tuple) for x in m.variants):
        if k == 10:
            n = r.choice([x for x in m.variants if isinstance(x, tuple)])
            p = m.variants.pop(n)
            m.variants[r.choice([n[1:], n + (CatchallKey(),), n[:-1] + ("zz",)])] = p
        elif k == 11:
            m.selectors = r.choice([(), m.selectors[1:], tuple(m.selectors) + (V("a"),), list(m.selectors)])
            m.selectors = m.selectors if isinstance(m.selectors, (tuple, list)) else ()
        elif k == 12 and m.declarations:
            m.declarations.pop(r.choice(list(m.declarations)))
        elif k == 14:
            n = r.choice([x for x in m.variants if isinstance(x, tuple)])
            p = m.variants.pop(n)
            x = "".join(str(c) for c in n)
            m.variants[r.choice([x[: len(n)], "x" * len(n), frozenset(n), None, CatchallKey()])] = p
        elif k == 13:
            m.selectors = tuple(V(r.choice("abc")) for _ in m.selectors)
    return m


def cases(r, tier, shard, shards):
    def small():
        for c in CHARS:
            for n in (c, "a" + c, "a" + c + "b", c + "a", "a:" + c, "a:b" + c, c + ":a"):
                yield from place(n)
        for n in ("", "a:b", "a:b:c", "a::b", "a\n", "a.b", ":a", "a:"):
            yield from place(n)
        names = ["a", "b", "c"]
        kinds = [lambda x=x, f=f, o=o: Expression(x, f, {"o": o} if o is not None and f is not None else {})
                 for x in (None, "l", V("a"), V("b"), V("c")) for f in (None, "f") for o in (None, V("a"), V("b"), V("c")) if not (x is None and f is None) and not (f is None and o is not None)]
        for es in itertools.product(kinds, repeat=2):
            d = {n: e() for n, e in zip("ba", es)}
            yield ("graph2", PatternMessage([], d))
            for sels in (("a",), ("b",), ("a", "b"), ("c",)):
                yield ("graph2", SelectMessage({n: e() for n, e in zip("ab", es)}, tuple(map(V, sels)), {(CatchallKey(),) * len(sels): ["x"]}))
        few = kinds if tier != "quick" else kinds[::2]
        for es in itertools.product(few, repeat=3):
            yield ("graph3", SelectMessage({n: e() for n, e in zip("bca", es)}, (V("a"),), {(CatchallKey("z"),): ["x"]}))
        keys = ["x", "", CatchallKey(), CatchallKey("y")]
        decl = {"a": Expression("1", "f"), "b": Expression(V("b"), "f")}
        lists = [k for n in range(0, 4) for k in itertools.product(keys, repeat=n)]
        for n in (1, 2):
            for k in lists:
                yield ("keys", SelectMessage(snap(decl), (V("a"), V("b"))[:n], {k: ["x"]}))
            for k in ["x", "xy", "", "*", None, 1, CatchallKey(), frozenset(["x"]), ("x", 1), (None,), (1,), (("x",),), (1.5,)]:
                for c in ([], [(CatchallKey(),) * n]):
                    yield ("keys", SelectMessage(snap(decl), (V("a"), V("b"))[:n], {y: ["x"] for y in [k] + c}))
            for k in itertools.product(lists[:21], repeat=2):
                yield ("keys", SelectMessage(snap(decl), (V("a"), V("b"))[:n], {x: ["x"] for x in k}))

    yield from cut(small(), shard, shards)
    while True:
        m = G(r, valid=True).message()
        if r.random() < 0.4:
            ns = list("abcdef")
            r.shuffle(ns)
            for n in ns[: r.randint(1, 6)]:
                m.declarations[n] = Expression(r.choice([V(r.choice("abcdef")), V(n), "x"]), "f", {"o": V(r.choice("abcdef"))} if r.random() < 0.3 else {})
        yield ("valid", snap(m))
        for _ in range(r.randint(1, 3)):
            m = fault(r, m)
        yield ("fault", m)


def nontrivial(case):
    return True


def from_witness(name, w):
    for v in w.values():
        if isinstance(v, (PatternMessage, SelectMessage)):
            return ("witness", v)
        if isinstance(v, (Expression, Markup)):
            return ("witness", PatternMessage([v]))
        if isinstance(v, list):
            return ("witness", PatternMessage(v))


def check(case):
    m = snap(case[1])
    m0 = snap(m)
    ok = valid(m0)
    try:
        mf2_validate_message(m)
    except MF2ValidationError as e:
        return f"refused ({e}) though it satisfies every rule: {m0!r}" if ok else None
    except Exception as e:
        return f"raised {exc(e)} for {m0!r}"
    if not ok:
        return f"accepted though it breaks a rule: {m0!r}"
    if not ordered(m):
        return f"declarations are not in dependency order: {m.declarations!r}"
    if set(m.declarations) != set(m0.declarations):
        return f"declarations were added or lost: {m.declarations!r}"
    m.declarations = {n: m.declarations[n] for n in m0.declarations}
    if not same(m, m0):
        return f"validation changed the message: {diff(m, m0)}"
