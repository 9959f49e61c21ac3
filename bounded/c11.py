"""C11: plain JSON and webext"""
import itertools, json, re
from moz.l10n.formats import Format
from moz.l10n.formats.plain_json.parse import plain_json_parse
from moz.l10n.formats.plain_json.serialize import plain_json_serialize
from moz.l10n.formats.webext.parse import webext_parse, webext_parse_message
from moz.l10n.formats.webext.serialize import webext_serialize, webext_serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import serialize_resource
from .common import cut, diff, exc, same, snap
from .gen import NASTY, string

CONTRACTS = ["json_formats"]
BUDGET = 20
LEVEL = "other"
RULE = "plain JSON: all pairs and triples of 10 ids over 2 parts in 3 sections, random resources; webext: all texts of up to 4 of 9 tokens with dollar signs, random messages with indexed and named placeholders, random raw texts with placeholder dictionaries read independently, random resources; each with what must be refused; non-trivial: all"
ASSUMPTIONS = ['json.dumps is replaced by a function which records its argument']
EXPLANATION = "for all inputs: the parts read from a webext message (nothing lost, in order), the members written for it, and the JSON readers and writers under contract; in addition resources are written and read back with the real functions and compared entry by entry; what must be refused is decided independently from the ids and from a separate tokenizer of messages"

STR = list(NASTY)
SRC = ["$a@$", "$a_$", "$1a$", "$_1a$", "$__1a$", "$arg1$", "$_arg1$", "$1", "$A$", "$a$", "x", "$$", "$", "$2", "$0", "$B$", "@", "\n"]


def cases(r, tier, shard, shards):
    def small():
        ids = [(), ("a",), ("b",), ("a", "b"), ("b", "a"), ("a", "a"), ("",), ("a", ""), ("a.b",), ("a", "b", "c")]
        secs = [(), ("a",), ("a", "b")]
        for x, y in itertools.product(itertools.product(secs, ids), repeat=2):
            yield ("json", Resource(None, [Section(x[0], [Entry(x[1], "x")]), Section(y[0], [Entry(y[1], "y")])]), False)
        for x in itertools.product(ids, repeat=3):
            yield ("json", Resource(None, [Section((), [Entry(i, str(n)) for n, i in enumerate(x)])]), False)
        toks = ["$", "$$", "a", "1", "@", " ", "\\", Expression(VariableRef("arg1"), attributes={"source": "$1"}), Expression(VariableRef("a"), attributes={"source": "$a$"})]
        for n in range(0, 5 if tier == "thorough" else 4):
            for x in itertools.product(toks, repeat=n):
                yield ("msg", PatternMessage(list(x), {"a": Expression(VariableRef("arg2"), attributes={"source": "$2"})} if toks[-1] in x else {}))

        for n in range(0, 4):
            for x in itertools.product(SRC, repeat=n):
                yield ("src", "".join(x), n % 2 == 0)
        for x in itertools.product(SRC[:13], repeat=4 if tier == "thorough" else 0):
            yield ("src", "".join(x), True)

    yield from cut(small(), shard, shards)
    while True:
        k = r.random()
        if k < 0.08:
            yield ("src", "".join(r.choice(SRC) for _ in range(r.choice([4, 5, 6]))), r.random() < 0.8)
        elif k < 0.35:
            yield ("json", json_res(r), r.random() < 0.2)
        elif k < 0.7:
            yield ("msg", webext_msg(r))
        elif k < 0.97:
            yield ("webext", webext_res(r), r.random() < 0.2)
        else:
            yield ("bad", r.choice(["json", "webext"]), r.randrange(10))


def txt(r):
    return string(r, STR)


def json_res(r):
    secs = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        es = []
        for _ in range(r.choice([0, 1, 2, 4])):
            i = tuple(r.choice(["a", "b", "c", "d", "e", "", txt(r)]) for _ in range(r.choice([1, 1, 2, 3])))
            v = txt(r)
            es.append(Entry(i, r.choice([v, PatternMessage([v]), PatternMessage([v, "x"]), PatternMessage([])])))
        if r.random() < 0.05:
            es.append(Comment(""))
        secs.append(Section(tuple(r.choice(["a", "s", txt(r)]) for _ in range(r.choice([0, 0, 1, 2]))), es))
    return Resource(r.choice([None, Format.plain_json]), secs)


def webext_msg(r):
    parts, decl = [], {}
    names = {}
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        k = r.random()
        if k < 0.5:
            parts.append(r.choice(["$", "$$", "a", "a$", "1", " ", "x y", "@", "$1", "$a$", "_", txt(r)]))
        elif k < 0.7:
            n = r.choice("123456789")
            parts.append(Expression(VariableRef("arg" + n), attributes={"source": "$" + n}))
        else:
            src = r.choice(["a", "A", "foo", "Foo_1", "1x", "x@y", "9", "a-b", "ä"])
            n = names.setdefault(src.lower(), ("_" if src[0].isdigit() else "") + src.replace("@", "_"))
            parts.append(Expression(VariableRef(n), attributes={"source": f"${src}$"} if src != n or r.random() < 0.8 else {}))
            if n not in decl:
                c = r.choice(["$1", "$3", "text", "", "$12", "a$1", txt(r)])
                m = re.fullmatch(r"\$([1-9])", c)
                decl[n] = Expression(VariableRef("arg" + m[1]), attributes={"source": c}) if m else Expression(c)
                if r.random() < 0.3:
                    decl[n].attributes["example"] = txt(r)
    return PatternMessage(parts, decl)


def webext_res(r):
    secs = []
    for _ in range(r.choice([0, 1, 1, 2])):
        es = []
        for _ in range(r.choice([0, 1, 2, 4])):
            i = (r.choice(["a", "b", "c", "d", txt(r)]),)
            v = txt(r).replace("$", "")
            es.append(Entry(i, v if r.random() < 0.2 else webext_msg(r), comment=txt(r) if r.random() < 0.4 else ""))
        secs.append(Section((), es))
    return Resource(r.choice([None, Format.webext]), secs)


# ------------------------------------------------------------------ plain JSON
def check_json(res, trim):
    res0 = snap(res)
    paths = [(s.id + e.id, e) for s in res.sections for e in s.entries if isinstance(e, Entry)]
    ids = [p for p, _ in paths]
    bad = any(not e.id for _, e in paths) or any(i != j and ids[i][: len(ids[j])] == ids[j] for i in range(len(ids)) for j in range(len(ids)))
    empty_sections = any(not any(isinstance(e, Entry) for e in s.entries) for s in res.sections)
    try:
        t = "".join(plain_json_serialize(res, trim_comments=trim))
    except ValueError as e:
        return None if bad or empty_sections else f"refused with {exc(e)}"
    except Exception as e:
        return f"raised {exc(e)}"
    if bad:
        return f"conflicting ids {ids} were written as {t!r}"
    if not same(res, res0):
        return "the resource was changed"
    if res.format is not None and "".join(serialize_resource(res, trim_comments=trim)) != t:
        return "serialize_resource writes something else"
    try:
        json.loads(t)
        got = plain_json_parse(t)
    except Exception as e:
        return f"{t!r} does not parse: {exc(e)}"
    tree = {}
    for p, e in [y for s in res.sections for y in [(s.id + ("",), None)] + [(s.id + e.id, e) for e in s.entries if isinstance(e, Entry)]]:
        d = tree
        for x in p[:-1]:
            d = d.setdefault(x, {})
        if e is not None:
            d[p[-1]] = e.value if isinstance(e.value, str) else "".join(e.value.pattern)

    def walk(pre, d):
        for k, v in d.items():
            if isinstance(v, dict):
                yield from walk(pre + (k,), v)
            else:
                yield Entry(pre + (k,), PatternMessage([v]))

    want = Resource(Format.plain_json, [Section((), list(walk((), tree)))])
    d = diff(got, want)
    if d:
        return f"{t!r}: {d}"
    if not same(plain_json_parse(t.encode()), got):
        return "bytes parse differently"
    return None


# ------------------------------------------------------------------ webext
def tokens(s):
    """placeholders of a message string, from the left: names in $..$, $ and a digit, runs of dollar signs"""
    out, i, text = [], 0, ""
    word = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@"
    while i < len(s):
        if s[i] != "$":
            text += s[i]
            i += 1
            continue
        j = i + 1
        while j < len(s) and s[j] in word:
            j += 1
        if j > i + 1 and j < len(s) and s[j] == "$":
            out += [text, s[i : j + 1]]
            text, i = "", j + 1
        elif i + 1 < len(s) and s[i + 1] in "123456789":
            out += [text, s[i : i + 2]]
            text, i = "", i + 2
        elif i + 1 < len(s) and s[i + 1] == "$":
            j = i + 1
            while j < len(s) and s[j] == "$":
                j += 1
            text += "$" * (j - i - 1)
            i = j
        else:
            text += "$"
            i += 1
    return out + [text]


def joined(msg):
    """[text, placeholder, text, ...]"""
    out = [""]
    for p in msg.pattern:
        if isinstance(p, str):
            out[-1] += p
        else:
            out += [p, ""]
    return out


def src(p):
    """how a placeholder is written"""
    return p.attributes.get("source") or f"${p.arg.name}$"


def sourced(p):
    return p if isinstance(p, str) else Expression(p.arg, attributes={"source": src(p)})


def written(msg):
    """the message string it has to be written as, or None if there is none"""
    parts = joined(msg)
    s = "".join(re.sub(r"\$+", lambda m: m[0] + "$", p) if isinstance(p, str) else src(p) for p in parts)
    return s if tokens(s) == [p if isinstance(p, str) else src(p) for p in parts] else None


def check_msg(msg):
    msg0 = snap(msg)
    want = written(msg)
    try:
        s, ph = webext_serialize_message(msg)
    except ValueError as e:
        return None if want is None else f"refused with {exc(e)} although {want!r} holds it"
    except Exception as e:
        return f"raised {exc(e)}"
    if want is None:
        return f"was written as {s!r}, {ph}, which is another message"
    if not same(msg, msg0):
        return "the message was changed"
    if s != want:
        return f"written as {s!r} instead of {want!r}"
    ph0 = snap(ph)
    try:
        got = webext_parse_message(s, ph)
        got2 = webext_parse_message(s, ph)
    except Exception as e:
        return f"{s!r} with {ph} does not parse: {exc(e)}"
    if not same(ph, ph0):
        return f"parsing changed the placeholders to {ph}"
    if not same(got, got2):
        return "parsing again gives another message"
    exp = PatternMessage([sourced(p) for p in joined(msg) if p != ""])
    used = [p.arg.name for p in exp.pattern if not isinstance(p, str)]
    exp.declarations = {n: msg.declarations[n] for n in dict.fromkeys(used) if n in msg.declarations}
    d = diff(got, exp)
    if d:
        return f"{s!r} with {ph}: {d}"
    bare = webext_serialize_message(msg, trim_comments=True)[1]
    if bare != {k: {"content": v["content"]} for k, v in ph.items()}:
        return f"without comments the placeholders are {bare}"
    return None


def reading(msg):
    """texts, and for each placeholder what stands for it in the end"""
    out = [""]
    for p in msg.pattern:
        if isinstance(p, str):
            out[-1] += p
            continue
        if not (isinstance(p, Expression) and isinstance(p.arg, VariableRef) and p.function is None):
            return f"has the part {p}"
        d = msg.declarations.get(p.arg.name)
        if d is None:
            out += [("$" + p.arg.name[3:]) if re.fullmatch("arg[1-9]", p.arg.name) else f"undeclared {p.arg.name}", ""]
        elif isinstance(d.arg, VariableRef):
            out += [("content", "$" + d.arg.name[3:] if re.fullmatch("arg[1-9]", d.arg.name) else d.arg.name, d.attributes.get("example")), ""]
        else:
            out += [("content", d.arg, d.attributes.get("example")), ""]
    return out


def check_src(src, described):
    """a message with placeholders whose contents all differ, as it is written in a file"""
    names = sorted({t[1:-1].lower() for t in tokens(src)[1::2] if len(t) > 2})
    ph = {n.upper() if i % 3 == 1 else n: {"content": f"$%d" % (i + 3) if i % 2 else f"({n})", **({"example": n + "!"} if i % 3 == 2 else {})} for i, n in enumerate(names)}
    low = {k.lower(): v for k, v in ph.items()}
    want = tokens(src)
    for i in range(1, len(want), 2):
        if len(want[i]) > 2:
            d = low[want[i][1:-1].lower()]
            want[i] = ("content", d["content"], d.get("example"))
    data = {"key": {"message": src, **({"description": "d"} if described else {}), **({"placeholders": ph} if ph or described else {})}}
    try:
        res = webext_parse(json.dumps(data))
    except Exception as e:
        return f"{data} does not parse: {exc(e)}"
    if res.format is not Format.webext or [(s.id, s.comment, s.meta) for s in res.sections] != [((), "", [])] or len(res.sections[0].entries) != 1:
        return f"{data} parses as {res}"
    e = res.sections[0].entries[0]
    if (e.id, e.comment, e.meta, e.properties) != (("key",), "d" if described else "", [], {}):
        return f"{data} parses as {e}"
    if reading(e.value) != want:
        return f"{data} reads as {reading(e.value)} instead of {want}"
    if not same(webext_parse_message(src, ph), e.value):
        return "webext_parse_message gives something else"
    try:
        back = json.loads("".join(webext_serialize(res)))["key"]
    except ValueError:
        back = None
    if back is None:
        return f"{data} is refused after parsing" if "".join(tokens(src)) == src else None
    if (back.get("description", ""), list(back)[0]) != ("d" if described else "", "message") or tokens(back["message"]) != tokens(src) or {k.lower(): v for k, v in back.get("placeholders", {}).items()} != low:
        return f"{data} is written as {back}"
    for n in names:
        cut_ph = {k: v for k, v in ph.items() if k.lower() != n}
        try:
            m = webext_parse_message(src, cut_ph)
            return f"{src!r} with {cut_ph} parses as {m}"
        except ValueError:
            pass
    return None


def check_webext(res, trim):
    res0 = snap(res)
    ents = [e for s in res.sections for e in s.entries]
    bad = len({e.id for e in ents}) != len(ents) or any(not isinstance(e.value, str) and written(e.value) is None for e in ents)
    try:
        t = "".join(webext_serialize(res, trim_comments=trim))
    except ValueError as e:
        return None if bad else f"refused with {exc(e)}"
    except Exception as e:
        return f"raised {exc(e)}"
    if bad:
        return f"was written as {t!r}"
    if not same(res, res0):
        return "the resource was changed"
    if res.format is not None and "".join(serialize_resource(res, trim_comments=trim)) != t:
        return "serialize_resource writes something else"
    try:
        raw = json.loads(t)
        got = webext_parse(t)
    except Exception as e:
        return f"{t!r} does not parse: {exc(e)}"
    if list(raw) != [e.id[0] for e in ents]:
        return f"{t!r} has other entries"
    want = []
    for e in ents:
        v = PatternMessage([e.value] if e.value else []) if isinstance(e.value, str) else PatternMessage([sourced(p) for p in joined(e.value) if p != ""])
        if not isinstance(e.value, str):
            v.declarations = {p.arg.name: snap(e.value.declarations[p.arg.name]) for p in v.pattern if not isinstance(p, str) and p.arg.name in e.value.declarations}
            if trim:
                for x in v.declarations.values():
                    x.attributes.pop("example", None)
        want.append(Entry(e.id, v, comment="" if trim else e.comment))
    d = diff(got, Resource(Format.webext, [Section((), want)]))
    if d:
        return f"{t!r}: {d}"
    if trim and ("description" in str([list(v) for v in raw.values()])):
        return f"{t!r} has comments"
    if not same(webext_parse(t.encode()), got):
        return "bytes parse differently"
    c = re.sub("(?m)^( *\\})", r"// x \" y\n\1", t)  # line comments are allowed
    try:
        ok = same(webext_parse(c), got)
    except Exception as e:
        return f"{c!r} does not parse: {exc(e)}"
    return None if ok else f"{c!r} parses to something else"


SEL = SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {(CatchallKey(),): ["x"]})


def check_bad(fmt, n):
    e = Entry(("k",), PatternMessage(["v"]))
    s = Section((), [e])
    res = Resource(None, [s])
    what = ["resource comment", "resource meta", "section comment", "section meta", "entry meta", "standalone comment", "select", "markup", "placeholder", "example"][n]
    if n == 0:
        res.comment = "c"
    elif n == 1:
        res.meta = [Metadata("a", "")]
    elif n == 2:
        s.comment = "c"
    elif n == 3:
        s.meta = [Metadata("a", "b")]
    elif n == 4:
        e.meta = [Metadata("a", "b")]
    elif n == 5:
        s.entries.append(Comment("c"))
    elif n == 6:
        e.value = SEL
    elif n == 7:
        e.value = PatternMessage(["a", Markup("open", "b")])
    elif n == 9:
        e.value = PatternMessage([Expression(VariableRef("b"), attributes={"source": "$b$"})], {"b": Expression("x", attributes={"example": True})})
    else:
        e.value = PatternMessage(["a", Expression(VariableRef("b"), "number", attributes={"source": "$b$"})])
    for f in [plain_json_serialize] if fmt == "json" else [webext_serialize]:
        try:
            t = "".join(f(snap(res)))
        except ValueError:
            t = None
        except Exception as x:
            return f"{what}: raised {exc(x)}"
        if t is not None:
            return f"{what}: was written as {t!r}"
    if fmt == "json":
        for r in (Resource(None, [Section((), [Entry(("a",), "x", comment="c")])]), Resource(None, [Section((), [Entry(("a",), PatternMessage(["x", Expression("y")]))])])):
            try:
                return f"was written as {''.join(plain_json_serialize(r))!r}"
            except ValueError:
                pass
    else:
        for m in (SEL, "x"):
            try:
                return f"{m} was written as {webext_serialize_message(m)!r}"
            except ValueError:
                pass
        for r in (Resource(None, [Section(("s",), [Entry(("a",), "x")])]), Resource(None, [Section((), [Entry(("a", "b"), "x")])]), Resource(None, [Section((), [Entry(("a",), "x"), Entry(("a",), "x")])])):
            try:
                return f"was written as {''.join(webext_serialize(r))!r}"
            except ValueError:
                pass
    return None


def check(case):
    if case[0] == "json":
        return check_json(snap(case[1]), case[2])
    if case[0] == "msg":
        return check_msg(snap(case[1]))
    if case[0] == "src":
        return check_src(case[1], case[2])
    if case[0] == "webext":
        return check_webext(snap(case[1]), case[2])
    return check_bad(case[1], case[2])
