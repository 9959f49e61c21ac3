"""C10: .properties"""
import itertools, re
from moz.l10n.formats import Format
from moz.l10n.formats.properties.parse import properties_parse, properties_parse_message
from moz.l10n.formats.properties.serialize import properties_serialize, properties_serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import parse_resource, serialize_resource
from .common import cut, exc, same, snap
from .gen import NASTY, string

CONTRACTS = ["properties"]
BUDGET = 20
LEVEL = "other"
RULE = "all keys and values of up to 2 of 40 characters and escapes (thorough: 3), then random resources of up to 4 sections with random keys, values (strings and messages with source attributes) and comments, in UTF-8, Latin-1 and UTF-16, with and without comments; non-trivial: all"
EXPLANATION = "for all inputs: the lines written for an entry, the string written for a message, and the escaping of outer spaces meet their contracts; in addition resources are written and read back with the real functions and compared with the ids, values and comments they were made of; character by character escaping is enumerated"

CH = list(" \t\n\r\f\\#!:=ab\"'") + ["\0", "\x0b", "\x19", "\x1a", "\x1c", "\x1f", "\x7f", "\x85", "\xa0", "é", "\u2028", "\u3000", "\ufeff", "\U0001f600", "\\u", "\\n", "u0041", "\u0100"]


def cases(r, tier, shard, shards):
    def small():
        for n in range(1, 4 if tier == "thorough" else 3):
            for s in itertools.product(CH, repeat=n):
                yield ("key", "".join(s))
                yield ("value", "".join(s))
                yield ("comment", "".join(s))

    yield from cut(small(), shard, shards)
    while True:
        k = r.random()
        if r.random() < 0.3:
            yield ("text", *text_case(r))
        yield ("res", resource(r), r.choice(["utf-8", "utf-8", "iso-8859-1", "utf-16"]), r.random() < 0.3)
        if k < 0.05:
            yield ("bad", r.choice(["res", "section", "entry", "select", "source", "alone"]), resource(r))


def text(r):
    return "".join(r.choice(CH if r.random() < 0.7 else NASTY) for _ in range(r.choice([0, 1, 1, 2, 3, 6])))


def comment(r, latin=False):
    if r.random() < 0.6:
        return ""
    return r.choice([text(r), "a\nb", "# x", "a\n\n b", "\n a ", "!", " ", "a\r\nb\r"])


def message(r):
    k = r.random()
    if k < 0.4:
        return text(r)
    if k < 0.7:
        return PatternMessage([text(r)] if r.random() < 0.9 else [])
    return PatternMessage([text(r) if r.random() < 0.6 else Expression(VariableRef("a"), attributes={"source": r.choice(["%s", "%1$S", "\\x", " ", text(r)])}) for _ in range(r.choice([1, 2, 3]))])


def resource(r):
    secs = []
    for _ in range(r.choice([1, 1, 1, 2, 3, 4])):
        es = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            if r.random() < 0.15:
                es.append(Comment(comment(r)))
            else:
                es.append(Entry(tuple(text(r) for _ in range(r.choice([1, 1, 1, 2]))), message(r), comment=comment(r)))
        secs.append(Section(() if r.random() < 0.7 else tuple(text(r) for _ in range(r.choice([1, 2]))), es, comment(r)))
    return Resource(r.choice([Format.properties, None]), secs, comment(r))


LONG = {"\t": "t", "\n": "n", "\f": "f", "\r": "r"}


def written(r, s, key, nl):
    """one way to write a string; (text, number of additional lines)"""
    out, more = "", 0
    for i, c in enumerate(s):
        if not key and i and r.random() < 0.06:
            out += "\\" + nl() + r.choice(["", " ", "\t  \f"])
            more += 1
            start = True
        else:
            start = i == 0
        k = r.random()
        if c in LONG and k < 0.7:
            out += "\\" + LONG[c]
        elif c in "\n\r" or (not c.isalnum() or c > "~") and k < 0.3 or k < 0.05:
            for n in [ord(c)] if c <= "\uffff" else [0xD800 + (ord(c) - 0x10000 >> 10), 0xDC00 + (ord(c) - 0x10000 & 0x3FF)]:
                h = f"{n:04{r.choice('xX')}}"
                if c <= "\uffff" and r.random() < 0.3 and not (i + 1 < len(s) and s[i + 1] in "0123456789abcdefABCDEF"):
                    h = h.lstrip("0") or "0"
                    if len(h) < 4:
                        out += "\\u" + h
                        if i + 1 < len(s):
                            # whatever comes next is not a hexadecimal digit, once it is written
                            out += ""
                        continue
                out += "\\u" + h
        elif c == "\\" or start and c in " \t\f" or key and c in " \t\f=:" or start and (key and c in "#!" or c in "=:") or k < 0.15 and c not in "tnfru\n\r":
            out += "\\" + c
        else:
            out += c
    return out, more


def text_case(r):
    """a text, its entries (id, value, comment, lines) and standalone comments, and the comment of the resource"""
    nls = r.choice([["\n"], ["\n", "\r\n"], ["\r"]])
    nl = lambda: r.choice(nls)
    chars = ["a", "b", "é", " ", "  ", "\t", "\\", "=", ":", "#", "!", "\n", "\r", "\f", '"', "u", "n", "t", "\u2028", "\x85", "\U0001f600", "\x00", "\ud83d", "0", "x"]
    out, items, top, line, com, first = "", [], "", 1, None, True

    def alone():
        nonlocal com, top
        if com and (items or top):
            items.append((None, None, com[0], (com[1], com[1], com[1], com[2])))
        elif com:
            top = com[0]
        com = None

    for _ in range(r.choice([1, 2, 3, 5, 8])):
        k = r.random()
        if k < 0.2:
            out += r.choice(["", " ", "\t \f"]) + nl()
            line += 1
            alone()
        elif k < 0.5:
            c = r.choice(["c", "two words", "  x", "#", "! y", "k = v", "é\\", "\\"]) if com is None or r.random() < 0.8 else ""
            out += r.choice(["", "", " ", "\t"]) + r.choice("##!") + (" " if c[:1] == " " else r.choice(["", " "])) + c + nl()
            com = [c, line, 0] if com is None else [com[0] + "\n" + c, com[1], 0]
            line += 1
            com[2] = line
        else:
            i = "".join(r.choice(chars) for _ in range(r.choice([1, 1, 2, 3])))
            v = "".join(r.choice(chars) for _ in range(r.choice([0, 1, 2, 3, 6])))
            v = re.sub("[\ud800-\udfff](?![\ud800-\udfff])|[\ud800-\udfff]", "s", v)
            i = i.replace("\ud83d", "s")
            (a, _), (b, more) = written(r, i, True, nl), written(r, v, False, nl)
            out += r.choice(["", "", " ", "\t\f"]) + a + r.choice(["=", " = ", ":", " :", " ", "\t", "=  "] + ([""] if not v else [])) + b + nl()
            items.append((i, v, com[0] if com else "", (com[1] if com else line, line, line, line + 1 + more)))
            line += 1 + more
            com = None
    alone()
    if r.random() < 0.3:
        out = re.sub("(\r\n|\r|\n)\\Z", "", out)
    return out, items, top


def check_text(t, items, top):
    try:
        got = properties_parse(t)
    except Exception as e:
        return f"{t!r} raised {exc(e)}"
    have = [(e.id[0], plain(e.value), e.comment) if isinstance(e, Entry) else (None, None, e.comment) for s in got.sections for e in s.entries]
    want = [x[:3] for x in items]
    if have != want or got.comment != top:
        return f"{t!r} was read as {have} and {got.comment!r} instead of {want} and {top!r}"
    return None


def lines(c):
    """a comment up to trailing white space and surrounding blank lines"""
    ls = [x.rstrip() for x in re.split("\r\n|\r|\n", c)]
    while ls and not ls[0]:
        ls.pop(0)
    while ls and not ls[-1]:
        ls.pop()
    return "\n".join(ls)


def plain(v):
    return v if isinstance(v, str) else "".join(p if isinstance(p, str) else p.attributes["source"] for p in v.pattern)


def latin(res):
    try:
        for c in [res.comment] + [s.comment for s in res.sections] + [e.comment for s in res.sections for e in s.entries]:
            c.encode("iso-8859-1")
    except UnicodeEncodeError:
        return False
    return True


def roundtrip(res, enc, trim):
    res0 = snap(res)
    try:
        out = list(properties_serialize(res, encoding=enc, trim_comments=trim))
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(res, res0):
        return "the resource was changed"
    t = "".join(out)
    if enc == "utf-8" and res.format is not None and "".join(serialize_resource(res, trim_comments=trim)) != t:
        return "serialize_resource writes something else"
    if enc == "iso-8859-1" and any(ord(c) > 0x7E for c in "".join(x for x in out if not x.startswith("#"))):
        return f"Latin-1 output has characters other than ASCII: {t!r}"
    try:
        got = properties_parse(t.encode(enc), encoding=enc)
    except Exception as e:
        return f"{t!r} does not parse: {exc(e)}"
    if enc == "utf-8" and (not same(properties_parse(t), got) or not same(parse_resource("x.properties", t), got)):
        return "str and bytes parse differently"
    if got.format != Format.properties or got.meta or any(s.id or s.meta or s.comment for s in got.sections):
        return f"{t!r} parses to a resource with {got.format}, {got.meta}, {got.sections}"
    want = [(".".join(s.id + e.id), plain(e.value), "" if trim else lines(e.comment)) for s in res.sections for e in s.entries if isinstance(e, Entry)]
    have = []
    for s in got.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                if len(e.id) != 1 or e.meta or e.properties or not isinstance(e.value, PatternMessage) or e.value.declarations or not all(isinstance(p, str) for p in e.value.pattern):
                    return f"{t!r} parses to {e!r}"
                have.append((e.id[0], "".join(e.value.pattern), lines(e.comment)))
    if have != want:
        return f"{t!r} parses to {have} instead of {want}"
    alone = [] if trim else [c for c in [lines(res.comment)] + [lines(c) for s in res.sections for c in [s.comment] + [e.comment for e in s.entries if isinstance(e, Comment)]] if c]
    got_alone = [c for c in [lines(got.comment)] + [lines(e.comment) for s in got.sections for e in s.entries if isinstance(e, Comment)] if c]
    if alone != got_alone:
        return f"{t!r} parses to the standalone comments {got_alone} instead of {alone}"
    if not trim:
        order = [x for s in res.sections for x in ([("c", lines(s.comment))] if lines(s.comment) else []) + [("e", ".".join(s.id + e.id)) if isinstance(e, Entry) else ("c", lines(e.comment)) for e in s.entries if isinstance(e, Entry) or lines(e.comment)]]
        order = ([("c", lines(res.comment))] if lines(res.comment) else []) + order
        gorder = ([("c", lines(got.comment))] if lines(got.comment) else []) + [("e", e.id[0]) if isinstance(e, Entry) else ("c", lines(e.comment)) for s in got.sections for e in s.entries]
        if order != gorder:
            return f"{t!r} parses to the order {gorder} instead of {order}"
    again = "".join(properties_serialize(got, encoding=enc, trim_comments=trim))
    if not same(strip_pos(properties_parse(again.encode(enc), encoding=enc)), strip_pos(got)):
        return f"{t!r} is not stable: {again!r}"
    return None


def strip_pos(x):
    return [lines(x.comment), [[(e.id, e.value, lines(e.comment)) if isinstance(e, Entry) else lines(e.comment) for e in s.entries] for s in x.sections]]


def check(case):
    k = case[0]
    if k == "res":
        if case[2] == "iso-8859-1" and not latin(case[1]):
            return None
        return roundtrip(snap(case[1]), case[2], case[3])
    if k == "bad":
        return refused(case[1], snap(case[2]))
    if k == "text":
        return check_text(*case[1:])
    s = case[1]
    for enc in ("utf-8", "iso-8859-1"):
        if k == "key":
            for e in ([Entry((s,), "v")], [Entry(("k",), "v"), Entry((s, "x"), PatternMessage(["w"])), Entry((s,), "")]):
                r = roundtrip(Resource(Format.properties, [Section((), e)]), enc, False) or roundtrip(Resource(Format.properties, [Section((s,), e)]), enc, False)
                if r:
                    return r
        elif k == "value":
            for v in (s, PatternMessage([s]), PatternMessage([Expression(None, "f", attributes={"source": s}), s])):
                r = roundtrip(Resource(Format.properties, [Section((), [Entry(("k",), v), Entry(("l",), "v")])]), enc, False)
                if r:
                    return r
                if enc == "utf-8" and not isinstance(v, str):
                    t = properties_serialize_message(v)
                    got = properties_parse_message(t)
                    if plain(got) != plain(v):
                        return f"the message {t!r} parses to {got} instead of {v}"
                    a = properties_serialize_message(v, ensure_ascii=True)
                    if not a.isascii() or plain(properties_parse_message(a)) != plain(v):
                        return f"the ASCII message {a!r} does not parse to {v}"
        elif enc == "utf-8" or latin(Resource(None, [], s)):
            es = [Entry(("k",), "v", comment=s), Comment(s), Entry(("l",), "w")]
            for trim in (False, True):
                r = roundtrip(Resource(Format.properties, [Section((), es, s)], s), enc, trim)
                if r:
                    return r
    return None


def refused(how, res):
    e = Entry(("k",), "v")
    s = Section((), [e])
    res.sections.append(s)
    if how == "res":
        res.meta.append(Metadata("a", "b"))
    elif how == "section":
        s.meta.append(Metadata("a", ""))
    elif how == "entry":
        e.meta.append(Metadata("", ""))
    elif how == "select":
        e.value = SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {(CatchallKey(),): ["x"]})
    elif how == "source":
        e.value = PatternMessage(["a", Expression(VariableRef("x"), attributes={"source": True})])
    else:
        e.value = PatternMessage(["a", Expression(VariableRef("x"))])
    try:
        t = "".join(properties_serialize(res))
    except ValueError:
        return None
    except Exception as x:
        return f"{how}: raised {exc(x)}"
    return f"{how}: was written as {t!r}"
