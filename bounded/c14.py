"""C14: Fluent"""
import itertools, re
from fluent.syntax import FluentParser, ast as ftl
from moz.l10n.formats import Format
from moz.l10n.formats.fluent.parse import fluent_parse, fluent_parse_entry, fluent_parse_message
from moz.l10n.formats.fluent.serialize import fluent_serialize, fluent_serialize_entry, fluent_serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import serialize_resource
from .common import cut, diff, exc, same, snap
from .gen import NASTY, string

CONTRACTS = ["fluent"]
BUDGET = 25
LEVEL = "other"
RULE = "all text values of up to 4 of 9 characters and tokens in messages, attributes and variants; all select messages of up to 2 selectors over all subsets of 3 keys each; random resources in the Fluent model with strings of 60 characters and tokens; random FTL texts with nested and repeated selectors; each with what has to be refused; non-trivial: every resource which Fluent can express"
EXPLANATION = "for all inputs: the variant keys read and written and the name of the default variant meet their contracts; in addition resources are written and read back with the real functions and compared up to the quoting of text and the names of selectors; the text of every combination of selector values is computed from the model and, independently, from the syntax tree of the fluent.syntax parser, and compared"

V = VariableRef
TEXT = ["a", " ", "\n", "[", ".", "*", "{", "}", '"', "\\", "-", "=", "#", "é", "\t", "$x", "\n  ", "\n.", "[a]", "}}", "\u00a0", "\\u0041"]
BADKEYS = ["1a", "1.", "-", "1 2", "a b", "", "é", "_a", "1e5", "+1", "a.b", ".5", "１", "a]", "--1", "a\n"]
KEYS = ["one", "two", "zero", "0", "1", "1.5", "a", "B-1"]
ID = re.compile("[a-zA-Z][a-zA-Z0-9_-]*")


# ------------------------------------------------------------------ cases
def cases(r, tier, shard, shards):
    def small():
        toks = ["a", " ", "\n", "[", ".", "{", "*", "\r", "\u2028"]
        for n in range(0, 5):
            for x in itertools.product(toks, repeat=n):
                if n < 4 or tier == "thorough" or hash(x) % 3 == 0:
                    s = "".join(x)
                    p = [s] if s else []
                    sel = SelectMessage({"n": Expression(V("n"), "number")}, (V("n"),), {("one",): p, (CatchallKey("other"),): ["x", Expression(V("y"))] + p})
                    yield ("res", Resource(Format.fluent, [Section((), [Entry(("k",), PatternMessage(p), {"t": PatternMessage(p)}), Entry(("l",), sel), Entry(("-m",), PatternMessage(p + [Expression(V("x"))] + p))])]), False)
        special = [chr(n) for n in [*range(0, 0x30), *range(0x3a, 0x41), *range(0x5b, 0x61), *range(0x7b, 0xa2), 0xad, 0x1680, 0x180e, *range(0x2000, 0x2010), *range(0x2028, 0x2030), 0x205f, 0x2060, 0x3000, 0xfeff, 0xfffd, 0x1f600]]
        for c in special:
            for s in (c, c + c, f"a{c}b", f"a\n{c}b", f"a{c}\nb", f"{c}a", f"a{c}", f"a\n {c} \n b"):
                yield ("res", Resource(Format.fluent, [Section((), [Entry(("k",), PatternMessage([s])), Entry(("l",), PatternMessage([Expression(V("x")), s, Expression(V("x"))])), Entry(("m",), PatternMessage([Expression(s), "x"]), {"t": s.strip() or "x"})])]), False)
        ks = ["one", "two", CatchallKey("other")]
        for n in (1, 2):
            full = list(itertools.product(ks, repeat=n))
            for m in range(1, 1 << len(full)):
                pick = [k for i, k in enumerate(full) if m >> i & 1]
                try:
                    msg = select(n, {k: ["".join(map(str, k))] for k in pick})
                except Exception:
                    continue
                yield ("sel", msg)
                yield ("sel", select(n, {k: ["".join(map(str, k))] for k in reversed(pick)}))

    yield from cut(small(), shard, shards)
    while True:
        k = r.random()
        if k < 0.03:
            yield ("bad", r.randrange(9) if r.random() < 0.5 else 9 + r.randrange(len(BADKEYS)))
        elif k < 0.5:
            yield ("res", resource(r), r.random() < 0.15)
        elif k < 0.65:
            yield ("msg", pattern_msg(r) if r.random() < 0.8 else select_msg(r))
        elif k < 0.7:
            yield ("sel", loose_select(r))
        else:
            t = ftl_text(r)
            while t.count(" ->") > 7:
                t = ftl_text(r)
            yield ("ftl", t)


def select(n, variants):
    names = ["n", "m"][:n]
    return SelectMessage({x: Expression(V(x), "number") for x in names}, tuple(map(V, names)), variants)


def name(r):
    return r.choice(["a", "b", "foo", "Bar-1", "x_y", "n"])


def lit(r):
    return r.choice(["", "1", "-2.50", "x", "nan", "1e5", "a b", "inf", " 1", "１"]) if r.random() < 0.6 else string(r, NASTY)


def options(r):
    return {r.choice(["min", "a-b", "type", "x", "X", "Min"]): lit(r) for _ in range(r.choice([0, 0, 1, 2]))}


def func(r, arg=None):
    f = r.choice(["NUMBER", "DATETIME", "FOO", "FOO-1", "STRING", "MESSAGE"])
    a = arg if arg is not None else r.choice([V(name(r)), lit(r)] + ([None] if f.startswith("FOO") else []))
    return Expression(a, f.lower(), options(r), {"fluent-fn": f})


def expr(r):
    k = r.random()
    if k < 0.4:
        return Expression(V(name(r)))
    if k < 0.55:
        return Expression(lit(r), r.choice([None, "string"]))
    if k < 0.62:
        return Expression(r.choice(["1", "-2.50", "0"]), "number")
    if k < 0.7:
        return Expression(r.choice(["msg", "msg.attr", "m-1.x_y"]), "message")
    if k < 0.8:
        return Expression(r.choice(["-term", "-t-1"]), "message", options(r))
    if k < 0.85:
        return Expression(V(name(r)), r.choice(["number", "datetime"]), {"x": lit(r)})
    return func(r)


def text(r):
    while True:
        s = string(r, TEXT if r.random() < 0.7 else NASTY, 6)
        if s:
            return s


def pattern(r):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        if r.random() < 0.6 and not (out and isinstance(out[-1], str)):
            out.append(text(r))
        else:
            out.append(expr(r))
    return out


def pattern_msg(r):
    return PatternMessage(pattern(r))


def select_msg(r):
    n = r.choice([1, 1, 2, 3])
    decl, sels, keysets = {}, [], []
    for i in range(n):
        x = f"{name(r)}{i}"
        k = r.random()
        if k < 0.4:
            decl[x] = Expression(V(x), "number")
            ks = r.sample(["one", "two", "zero", "0", "1"], r.randrange(4))
            d = r.choice([None, "other", "many"])
        else:
            if k < 0.7:
                decl[x] = Expression(V(x), "string")
            elif k < 0.8:
                decl[x] = Expression(f"s{i}", "string")
            else:
                decl[x] = func(r, V(x))
                decl[x].options[f"opt{i}"] = "1"
            ks = r.sample(["a", "b", "B-1", "one"], r.randrange(3)) + ["c"]
            d = r.choice([None, "other", "d", "one1"])
        keysets.append(ks + [CatchallKey(d)])
        sels.append(V(x))
    prod = list(itertools.product(*keysets))
    variants = {k: pattern(r) for k in prod}
    return SelectMessage(decl, tuple(sels), variants)


def loose_select(r):
    n = r.choice([1, 2, 3])
    names = ["n", "m", "o"][:n]
    ks = ["one", "two", "0", CatchallKey("other")]
    out = {}
    for _ in range(r.choice([1, 2, 4, 6])):
        out[tuple(r.choice(ks) for _ in range(n))] = pattern(r)
    out[tuple(CatchallKey("other") for _ in range(n))] = pattern(r)
    items = list(out.items())
    if r.random() < 0.7:
        items.sort(key=lambda kv: [ks.index(k) for k in kv[0]])
    return SelectMessage({x: Expression(V(x), "number") for x in names}, tuple(map(V, names)), dict(items))


def message(r):
    return pattern_msg(r) if r.random() < 0.7 else select_msg(r)


def com(r):
    return "" if r.random() < 0.5 else r.choice(["c", "two words", "a\nb", "a\n\nb", "a\n  b", "# a", "  a", "k = v", "é"]) if r.random() < 0.8 else re.sub("\r", "", string(r, NASTY))


def resource(r):
    secs = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        es = []
        for _ in range(r.choice([0, 1, 2, 4])):
            if r.random() < 0.2:
                es.append(Comment(com(r)))
                continue
            v = message(r)
            if r.random() < 0.1:
                v = text(r).strip()
            props = {r.choice(["title", "label", "accesskey", "a.b"[:1], "Z"]): message(r) for _ in range(r.choice([0, 0, 1, 2]))}
            es.append(Entry((r.choice(["k", "l", "-t", "-T-1", "m_2", "é"[:0] + "x"]),), v, props, com(r)))
        secs.append(Section((), es, com(r)))
    meta = [Metadata("info", com(r).rstrip() or "i")] if r.random() < 0.2 else []
    return Resource(r.choice([None, Format.fluent]), secs, com(r), meta)


# ------------------------------------------------------------------ FTL texts
def ftl_inline(r):
    k = r.random()
    if k < 0.45:
        return "$" + r.choice(["a", "b", "n", "n_1", "sel_1"])
    if k < 0.6:
        return r.choice(['"x"', '""', '"1"', '"{"', '"\\u00E9"', '"\\""', "1", "-2.50", '" "'])
    if k < 0.7:
        return r.choice(["msg", "msg.attr", "-term", '-term(a: "1")', "-term(b: 2)"])
    if k < 0.95:
        return r.choice(["NUMBER($n, min: 2)", "NUMBER($a)", 'DATETIME($d, x: "y")', "FOO()", 'FOO("x")', "FOO_B($a)", "FOO({ $a })", "STRING($s)", 'MESSAGE("msg")', "NUMBER(5)"])
    return "{ $a }"


def ftl_selector(r):
    return r.choice(["$n", "$n", "$a", "$b", "$n_1", "NUMBER($n, min: 2)", "NUMBER($n)", '-term.attr', '"s"', "1", "FOO($a)", "sel_1"[:0] + "$sel_1"])


def ftl_pattern(r, depth=0, indent=4):
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        if k < 0.45:
            out.append(r.choice(["a", "b c", "x", "é", '"', "a.b", "\n" + " " * indent + "y", "\n\n" + " " * (indent + 2) + "z", " - "]))
        elif k < 0.7 or depth > 2:
            out.append("{ " + ftl_inline(r) + " }")
        else:
            s = ftl_select(r, depth, indent)
            out.append("{ " + s + " }" if r.random() < 0.95 else "{ { " + s + " } }")
    return "".join(out)


def ftl_select(r, depth, indent):
    keys = r.sample(["one", "two", "0", "1", "other", "a", "b"] if r.random() < 0.3 else ["one", "two", "0", "other", "many"], r.choice([1, 2, 2, 3]))
    d = r.randrange(len(keys))
    pad = "\n" + " " * (indent + 1)
    return ftl_selector(r) + " ->" + "".join(f"{pad}{'*' if i == d else ''}[{k}] {ftl_pattern(r, depth + 1, indent + 8)}" for i, k in enumerate(keys)) + "\n" + " " * indent


def ftl_text(r):
    out = []
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.random()
        if k < 0.1:
            out.append(r.choice(["# c\n\n", "## g\n\n", "##\n\n", "### r\n\n", "### p q\n### u\n\n", "### q  \n###\n### w\n\n", "###\n\n", "# a\n#\n# b\n\n"]))
        else:
            c = r.choice(["", "", "# c\n", "# c\n#  d\n"])
            i = r.choice(["k", "l", "-t"])
            v = " " + ftl_pattern(r)
            a = "".join(f"\n    .{x} = {ftl_pattern(r, 1, 8)}" for x in r.sample(["x", "y", "accesskey"], r.choice([0, 0, 1, 2])))
            out.append(f"{c}{i} ={v if i == '-t' or r.random() < 0.9 or not a else ''}{a}\n")
    return "".join(out)


# ------------------------------------------------------------------ normal forms
def norm_expr(e, decl, own=""):
    """the expression with its local variables replaced"""
    arg, opts, fn = e.arg, dict(e.options), e.function
    if isinstance(arg, V) and arg.name in decl and arg.name != own:
        inner = norm_expr(decl[arg.name], decl, arg.name)
        if fn in (None, "string", "number") and not e.attributes and not opts:
            return inner
        if inner[0] == "fn":
            raise ValueError("nested")
        arg = V(inner[1]) if inner[0] == "var" else inner[1]
    name_ = e.attributes.get("fluent-fn")
    if name_ is None and fn in ("number", "datetime") and (opts or fn == "datetime"):
        name_ = fn.upper()
    if name_ is None and fn == "message":
        return ("ref", arg, tuple(sorted(opts.items())))
    if name_ is not None:
        return ("fn", name_, ("var", arg.name) if isinstance(arg, V) else ("lit", arg), tuple(sorted(opts.items())))
    if isinstance(arg, V):
        return ("var", arg.name)
    if fn == "number":
        return ("num", arg)
    return ("lit", arg)


def add(out, x):
    if isinstance(x, tuple) and x[0] == "lit":
        x = x[1]
    if isinstance(x, str):
        if not x:
            return
        if out and isinstance(out[-1], str):
            out[-1] += x
            return
    out.append(x)


def norm_pattern(p, decl):
    out = []
    for x in p:
        add(out, x if isinstance(x, str) else norm_expr(x, decl))
    return out


def norm_selector(e, decl, own):
    e = norm_expr(e, decl, own)
    return e[2] if e[0] == "fn" and e[1] == "NUMBER" and e[2][0] == "var" and not e[3] else e


def norm_msg(m):
    if isinstance(m, str):
        return norm_pattern([m], {})
    if isinstance(m, PatternMessage):
        return norm_pattern(m.pattern, m.declarations)
    sels = [norm_selector(m.declarations[s.name], m.declarations, s.name) for s in m.selectors]
    return (sels, {tuple("*" if isinstance(k, CatchallKey) else (k,) for k in ks): norm_pattern(p, m.declarations) for ks, p in m.variants.items()})


def default_names(m):
    """names of default variants: the given ones, else other or the first free other1, ..."""
    if not isinstance(m, SelectMessage):
        return None
    taken = {k.value if isinstance(k, CatchallKey) else k for ks in m.variants for k in ks}
    n = next(x for x in ["other"] + [f"other{i}" for i in range(1, 99)] if x not in taken)
    return [{(k.value or n) for k in col if isinstance(k, CatchallKey)} for col in zip(*m.variants)]


def text_of(m, env):
    """the parts of the message for values of its selectors"""
    if not isinstance(m, SelectMessage):
        return norm_msg(m)
    sels, variants = norm_msg(m)
    left = list(variants.items())
    for i, s in enumerate(sels):
        v = env.get(s)
        exact = [(k, p) for k, p in left if k[i] == (v,)]
        left = exact or [(k, p) for k, p in left if k[i] == "*"]
    return left[0][1] if left else None


def ftl_expr(e):
    while isinstance(e, ftl.Placeable):
        e = e.expression
    if isinstance(e, ftl.StringLiteral):
        return ("lit", e.parse()["value"])
    if isinstance(e, ftl.NumberLiteral):
        return ("num", e.value)
    if isinstance(e, ftl.VariableReference):
        return ("var", e.id.name)
    nm = lambda: tuple(sorted((a.name.name, ftl_expr(a.value)[1]) for a in e.arguments.named)) if getattr(e, "arguments", None) else ()
    if isinstance(e, (ftl.MessageReference, ftl.TermReference)):
        return ("ref", ("-" if isinstance(e, ftl.TermReference) else "") + e.id.name + (f".{e.attribute.name}" if e.attribute else ""), nm())
    pos = [ftl_expr(a) for a in e.arguments.positional]
    a = pos[0] if pos else ("lit", None)
    return ("fn", e.id.name, ("lit", a[1]) if a[0] == "num" else a, nm())


def ftl_sel(e):
    e = ftl_expr(e)
    return e[2] if e[0] == "fn" and e[1] == "NUMBER" and e[2][0] == "var" and not e[3] else e


def ftl_resolve(p, env, out=None):
    out = [] if out is None else out
    for el in p.elements if p else []:
        if isinstance(el, ftl.TextElement):
            add(out, el.value)
            continue
        while isinstance(el, ftl.Placeable):
            el = el.expression
        if isinstance(el, ftl.SelectExpression):
            v = env.get(ftl_sel(el.selector))
            kn = lambda x: x.key.name if isinstance(x.key, ftl.Identifier) else x.key.value
            hit = next((x for x in el.variants if kn(x) == v), None) or next(x for x in el.variants if x.default)
            ftl_resolve(hit.value, env, out)
        else:
            add(out, ftl_expr(el))
    return out


def envs(p, m):
    """values for all selectors of the pattern and the message"""
    found = {}

    def walk(p):
        for el in p.elements:
            while isinstance(el, ftl.Placeable):
                el = el.expression
            if isinstance(el, ftl.SelectExpression):
                ks = found.setdefault(ftl_sel(el.selector), {})
                for v in el.variants:
                    ks[v.key.name if isinstance(v.key, ftl.Identifier) else v.key.value] = 1
                    walk(v.value)

    if p:
        walk(p)
    if isinstance(m, SelectMessage):
        sels, variants = norm_msg(m)
        for ks in variants:
            for s, k in zip(sels, ks):
                if k != "*":
                    found.setdefault(s, {})[k[0]] = 1
    names = list(found)
    for n, vals in enumerate(itertools.product(*[[*found[x], "?"] for x in names])):
        if n > 500:
            return
        yield dict(zip(names, vals))


def same_texts(p, m, where):
    for env in envs(p, m):
        a, b = ftl_resolve(p, env), text_of(m, env)
        if a != b:
            return f"{where}: with {env} the Fluent text gives {a} and the message {b}"
    return None


# ------------------------------------------------------------------ checks
def ctext(c):
    return c.rstrip() if c.strip() else ""


def norm_res(res, trim=False):
    info = ""
    comment = "" if trim else ctext(res.comment)
    if res.meta and not trim:
        info = res.meta[0].value
    secs = []
    for i, s in enumerate(res.sections):
        c = "" if trim else ctext(s.comment)
        if secs and not secs[-1][1] and not secs[-1][0]:
            secs[-1][0] = c
        elif i == 0 or c or not trim:
            secs.append([c, []])
        for e in s.entries:
            if isinstance(e, Comment):
                if e.comment and not trim:
                    secs[-1][1].append(("comment", e.comment))
            else:
                v = norm_msg(e.value)
                props = {k: norm_msg(m) for k, m in e.properties.items()}
                secs[-1][1].append((e.id, v, props, "" if trim else ctext(e.comment), [default_names(m) for m in [e.value, *[e.properties[k] for k in sorted(e.properties)]]]))
    if not secs:
        secs = [["", []]]
    if not info and not comment and not secs[0][0] and secs[0][1] and secs[0][1][0][0] == "comment":
        info = secs[0][1].pop(0)[1]
    if len(secs) > 1 and not secs[0][0] and not secs[0][1]:
        secs.pop(0)
    return [info, comment, secs]


def carries(res):
    cs = [res.comment] + [c for s in res.sections for c in [s.comment] + [e.comment for e in s.entries]] + [m.value for m in res.meta]
    if any("\r" in c for c in cs):
        return False
    # leading and trailing space of string values is as written
    return not any(isinstance(e.value, str) and e.value != e.value.strip() for s in res.sections for e in s.entries if isinstance(e, Entry))


def expressible(m):
    """do the variants form a tree, each of its nodes with one default"""
    def tree(rows):
        if rows and not rows[0]:
            return len(rows) == 1
        groups = [(k, [r[1:] for r in g]) for k, g in itertools.groupby(rows, key=lambda r: r[0])]
        return len({k for k, _ in groups}) == len(groups) and sum(k == "*" for k, _ in groups) == 1 and all(tree(g) for _, g in groups)
    return tree([tuple("*" if isinstance(k, CatchallKey) else "=" + k for k in ks) for ks in m.variants])


def ftl_of(t):
    out = []
    for e in FluentParser(with_spans=False).parse(t).body:
        if isinstance(e, ftl.Junk):
            return None
        if isinstance(e, (ftl.Message, ftl.Term)):
            out.append(e)
    return out


def check_res(res, trim):
    res0 = snap(res)
    try:
        t = "".join(fluent_serialize(res, trim_comments=trim))
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(res, res0):
        return "the resource was changed"
    if res.format is not None and "".join(serialize_resource(res, trim_comments=trim)) != t:
        return "serialize_resource writes something else"
    if not carries(res):
        return None
    ents = [e for s in res.sections for e in s.entries if isinstance(e, Entry)]
    nodes = ftl_of(t)
    if nodes is None:
        return f"{t!r} is not valid Fluent"
    if len(nodes) != len(ents):
        return f"{t!r} has {len(nodes)} messages instead of {len(ents)}"
    for n, e in zip(nodes, ents):
        if isinstance(n, ftl.Message) and n.attributes and isinstance(e.value, PatternMessage) and (n.value is None) != all(x == "" for x in e.value.pattern):
            return f"{e} is written with value {n.value} -- {t!r}"
        for w, p, m in [("value", n.value, e.value)] + [(a.id.name, a.value, e.properties.get(a.id.name, "?")) for a in n.attributes]:
            d = same_texts(p, m, w)
            if d:
                return f"{d} -- {t!r}"
    try:
        got = fluent_parse(t)
        if not same(fluent_parse(t.encode()), got) or not same(fluent_parse(t, with_linepos=False), got):
            return "bytes or no line positions parse differently"
    except Exception as e:
        return f"{t!r} does not parse: {exc(e)}"
    a, b = norm_res(got), norm_res(res, trim)
    if a != b:
        return f"{diff(a, b) or (a, b)} -- {t!r}"
    if got.format != Format.fluent:
        return "format"
    again = "".join(fluent_serialize(got))
    if trim and re.search("(?m)^#", t):
        return f"comments in {t!r}"
    if not trim and norm_res(fluent_parse(again)) != a:
        return f"{t!r} and then {again!r} parse differently"
    for e in ents:
        try:
            x = fluent_serialize_entry(snap(e))
            y = fluent_parse_entry(x)
        except Exception as err:
            return f"{e}: raised {exc(err)}"
        if (y.id, norm_msg(y.value), {k: norm_msg(v) for k, v in y.properties.items()}) != (e.id, norm_msg(e.value), {k: norm_msg(v) for k, v in e.properties.items()}):
            return f"{e} is written as {x!r} and read as {y}"
    return None


CATS = ("zero", "one", "two", "few", "many", "other")


def functions(m):
    """functions have the names of the Fluent ones in lower case; a variable is selected as a number if all keys are for numbers"""
    xs = [x for p in (m.variants.values() if isinstance(m, SelectMessage) else [m.pattern]) for x in p if isinstance(x, Expression)] + list(m.declarations.values())
    for x in xs:
        f = x.attributes.get("fluent-fn")
        if f is not None and x.function != f.lower():
            return f"{f} is the function {x.function}"
    for i, s in enumerate(getattr(m, "selectors", ())):
        x = m.declarations[s.name]
        if isinstance(x.arg, V) and not x.attributes:
            ks = {getattr(k[i], "value", k[i]) for k in m.variants}
            if x.function == "number" and not all(k in CATS or re.fullmatch(r"-?\d+(\.\d+)?", k) for k in ks):
                return f"{s.name} with keys {ks} is a number"
            if x.function == "string" and all(k in CATS or re.fullmatch(r"-?\d+(\.\d+)?", k) for k in ks):
                return f"{s.name} with keys {ks} is a string"
    return None


def check_ftl(t):
    nodes = ftl_of(t)
    if nodes is None:
        try:
            fluent_parse(t)
        except ValueError:
            return None
        except Exception as e:
            return f"raised {exc(e)}"
        return "invalid Fluent was parsed"
    try:
        r1 = fluent_parse(t)
    except Exception as e:
        return f"raised {exc(e)}"
    ents = [e for s in r1.sections for e in s.entries if isinstance(e, Entry)]
    if len(ents) != len(nodes):
        return f"{len(ents)} entries"
    body = FluentParser(with_spans=False).parse(t).body
    cs = {c: [x.content for x in body if type(x) is c and x.content] for c in (ftl.Comment, ftl.GroupComment, ftl.ResourceComment)}
    info = [m.value for m in r1.meta]
    alone = [e.comment for s in r1.sections for e in s.entries if isinstance(e, Comment)]
    if (info, info + alone) != ([x.content for x in body[:1] if type(x) is ftl.Comment and x.content], cs[ftl.Comment]):
        return f"standalone comments {info + alone} of {cs[ftl.Comment]}"
    if [s.comment for s in r1.sections if s.comment] != cs[ftl.GroupComment]:
        return f"comments {[s.comment for s in r1.sections]} of groups {cs[ftl.GroupComment]}"
    if re.sub(r"[ \n]*\n\n", "\n\n", r1.comment) != re.sub(r"[ \n]*\n\n", "\n\n", "\n\n".join(cs[ftl.ResourceComment])):
        return f"comment {r1.comment!r} of the resource"
    for e in ents:
        for m in (e.value, *e.properties.values()):
            d = functions(m)
            if d:
                return f"{d} -- {m}"
    for n, e in zip(nodes, ents):
        c = n.comment.content if n.comment else ""
        if e.id != (("-" if isinstance(n, ftl.Term) else "") + n.id.name,) or (e.comment != c) or set(e.properties) != {a.id.name for a in n.attributes}:
            return f"{e} for another message"
        for w, p, m in [("value", n.value, e.value)] + [(a.id.name, a.value, e.properties[a.id.name]) for a in n.attributes]:
            d = same_texts(p, m, w)
            if d:
                return d
    try:
        t2 = "".join(fluent_serialize(r1))
        r2 = fluent_parse(t2)
        t3 = "".join(fluent_serialize(r2))
    except Exception as e:
        return f"raised {exc(e)} after parsing {r1}"
    # redundant variants and equal selectors like NUMBER($n) and $n may be merged
    def outline(res):
        res = snap(res)
        for e in (e for s in res.sections for e in s.entries if isinstance(e, Entry)):
            if isinstance(e.value, SelectMessage):
                e.value = "select"
            e.properties = {k: "select" if isinstance(v, SelectMessage) else v for k, v in e.properties.items()}
        return norm_res(res)

    o = outline(r1)
    for t_, r_ in ((t2, r2), (t3, fluent_parse(t3))):
        x = outline(r_)
        if x != o:
            return f"{diff(x, o) or (x, o)} -- {t_!r}"
        es = [e for s in r_.sections for e in s.entries if isinstance(e, Entry)]
        for n, e in zip(nodes, es):
            for w, p, m in [("value", n.value, e.value)] + [(a.id.name, a.value, e.properties[a.id.name]) for a in n.attributes]:
                d = same_texts(p, m, w)
                if d:
                    return f"{d} -- {t_!r}"
    return None


def check_sel(m):
    ok = expressible(m)
    try:
        s = fluent_serialize_message(m)
    except ValueError as e:
        return f"refused with {exc(e)}" if ok else None
    except Exception as e:
        return f"raised {exc(e)}"
    nodes = ftl_of("k =\n    " + s.replace("\n", "\n    ") + "\n")
    if not nodes:
        return f"{s!r} is not valid Fluent"
    return same_texts(nodes[0].value, m, repr(s))


def check_msg(m):
    m0 = snap(m)
    try:
        s = fluent_serialize_message(m, escape_empty=True)
        got = fluent_parse_message(s)
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(m, m0):
        return "the message was changed"
    a, b = norm_msg(got), norm_msg(m)
    return None if a == b else f"{s!r}: {a} instead of {b}"


def check_bad(n):
    e = Entry(("k",), PatternMessage(["v"]))
    s = Section((), [e])
    res = Resource(None, [s])
    if n >= 9:
        e.value = SelectMessage({"n": Expression(V("n"), "number")}, (V("n"),), {(BADKEYS[n - 9],): ["x"], (CatchallKey("other"),): ["y"]})
        try:
            t = "".join(fluent_serialize(snap(res)))
        except ValueError:
            return None
        return f"a variant {BADKEYS[n - 9]!r} was written as {t!r}"
    what = ["long id", "entry metadata", "section metadata", "resource metadata", "section id", "markup", "option variable", "unknown function", "message argument"][n]
    if n == 0:
        e.id = ("a", "b")
    elif n == 1:
        e.meta = [Metadata("a", "b")]
    elif n == 2:
        s.meta = [Metadata("a", "b")]
    elif n == 3:
        res.meta = [Metadata("a", "b")]
    elif n == 4:
        s.id = ("s",)
    else:
        e.value = PatternMessage(["a", [Markup("open", "b"), Expression(V("a"), "number", {"x": V("y")}), Expression(V("a"), "foo"), Expression(V("a"), "message")][n - 5]])
    try:
        t = "".join(fluent_serialize(snap(res)))
    except ValueError:
        t = None
    except Exception as x:
        return f"{what}: raised {exc(x)}"
    if t is not None:
        return f"{what}: was written as {t!r}"
    if n in (1, 2, 3):
        t = "".join(fluent_serialize(snap(res), serialize_metadata=lambda m: f"@{m.key}: {m.value}"))
        got = fluent_parse(t)
        x = [got.sections[0].entries[0], got.sections[0], got][n - 1]
        if x.comment != "@a: b":
            return f"{what}: written as {t!r}"
        res2 = snap(res)
        res2.meta = [Metadata("info", "i"), Metadata("a", "b"), Metadata("c", "d"), Metadata("info", "j")]
        t = "".join(fluent_serialize(snap(res2), serialize_metadata=lambda m: None if m.key == "c" else f"@{m.key}: {m.value}"))
        got = fluent_parse(t)
        if got.comment != "@a: b\n@info: j" or got.meta != [Metadata("info", "i")]:
            return f"resource metadata: written as {t!r}"
        try:
            return f"resource metadata: written as {''.join(fluent_serialize(res2))!r} without serialize_metadata"
        except ValueError:
            pass
        t = "".join(fluent_serialize(snap(res), serialize_metadata=lambda m: None))
        if "#" in t:
            return f"{what}: written as {t!r}"
    return None


def nontrivial(case):
    return case[0] != "sel" or expressible(case[1])


def check(case):
    c = snap(case[1])
    if case[0] == "res":
        return check_res(c, case[2])
    return {"ftl": check_ftl, "sel": check_sel, "msg": check_msg, "bad": check_bad}[case[0]](c)
