"""C15: Android strings"""
import itertools, re
from lxml import etree
from moz.l10n.formats import Format
from moz.l10n.formats.android.parse import android_parse, android_parse_message
from moz.l10n.formats.android.serialize import android_serialize, android_serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import serialize_resource
from .common import cut, diff, exc, same, snap
from .gen import NASTY, string

CONTRACTS = ["android"]
BUDGET = 25
LEVEL = "other"
RULE = "all strings of up to 4 of 14 characters as values, as parts between placeholders, in markup, plurals and arrays; random resources in the Android model with strings of 60 characters and tokens, entities, markup, arrays and comments; random Android XML texts; each with what has to be refused; non-trivial: every resource which Android can express"
EXPLANATION = "for all inputs: attributes, comments, names of entities and of placeholders meet their contracts (helpers, which are not decisive by themselves); in addition resources are written and read back with the real functions and compared up to the recognition of placeholders in text; the XML is read by lxml independently of the functions under test, and strings are unescaped from it by an independent reading of the Android rules"

V = VariableRef
XL = "urn:oasis:names:tc:xliff:document:1.2"
SMALL = ["a", " ", "\n", "\t", "'", '"', "\\", "@", "?", "%", "<", ">", "&", "\u00a0"]
TEXT = SMALL + ["n", "u", "0041", "\x00", "\x1a", "\x1f", "\x7f", "\u2028", "\u200b", "é", "\U0001f600", "%s", "%1$d", "<b>", "</b>", "<br/>", "<p>", "]]>", "--", "{", "}", "\r", "@string/a", "?attr", "$", "1", "\\u0041", "&amp;", "%<s", "<b>]]></b>"]


# ------------------------------------------------------------------ cases
def cases(r, tier, shard, shards):
    def small():
        for x in MALFORMED:
            yield ("malformed", x)
        for n in range(0, 5):
            for x in itertools.product(SMALL, repeat=n):
                if n < 4 or tier == "thorough" or hash(x) % 8 == 0:
                    s = "".join(x)
                    p = [s] if s else []
                    b = [Markup("open", "b"), *p, Markup("close", "b")]
                    ph = Expression(V("arg1"), "string", attributes={"source": "%1$s"})
                    sel = SelectMessage({"quantity": Expression(V("quantity"), "number")}, (V("quantity"),), {("one",): p, (CatchallKey("other"),): p + b + p})
                    if n < 4:
                        yield ("res", Resource(Format.android, [Section((), [Entry(("k",), PatternMessage(p)), Entry(("l",), PatternMessage(p + [ph] + p)), Entry(("s",), s), Entry(("a", "0"), PatternMessage(b)), Entry(("a", "1"), PatternMessage(b + p)), Entry(("q",), sel)], comment=s)], s), False)
                    else:
                        yield ("msg", PatternMessage(p))

        parts = ["a", " ", " a", "a ", "  ", "\n", "@", "\\", Expression(V("x"), "entity"), Expression("<b>", "html"), Expression("<br>", "html"), Expression(V("arg1"), "string", attributes={"source": "%1$s"}),
                 Expression(" ", None, {}, {"translate": "no"}), Expression(V("arg1"), "xliff:g", {"id": "i"}, {"translate": "no", "source": "{x}"}), Markup("standalone", "br"), [Markup("open", "b"), " ", Markup("close", "b")]]
        for n in (2, 3):
            for ps in itertools.product(parts, repeat=n):
                yield ("msg", PatternMessage([y for x in ps for y in (x if isinstance(x, list) else [x])]))

    yield from cut(small(), shard, shards)
    while True:
        k = r.random()
        if k < 0.03:
            yield ("bad", r.randrange(17))
        elif k < 0.6:
            yield ("res", resource(r), r.random() < 0.15)
        elif k < 0.63:
            yield ("html", "".join(r.choice(["a", "b c", "<br>", "<br/>", "<hr/>", "<p>", "<li>", "</ul>", "<b>", "</b>", "<h1>", "<div class='x'>", "<brx>", "<pre>"]) + r.choice(["", " ", " "]) for _ in range(r.randrange(6))))
        elif k < 0.75:
            yield ("msg", PatternMessage(pattern(r)))
        else:
            yield ("xml", xml_text(r))


MALFORMED = ["<b>", "</b>", "a <b>x</i>", "<b", "a & b", "&", "a < b", "&ent", "<b a=b/>", "<b a='x' a='y'/>", "&#0;", "<!ENTITY x 'y'>", "&a; <b>", "&a;&b; &", "\x00", "<x:y/>"]


def text(r):
    while True:
        s = string(r, TEXT if r.random() < 0.7 else NASTY, 6)
        if s and not re.search("[\ud800-\udfff\ufffe\uffff]", s):
            return s


def name(r):
    return r.choice(["a", "b", "foo_bar", "É", "x.y-1", "_"])


def attrs(r):
    return {r.choice(["id", "href", "example", "x", "{urn:t}y", "checked"]): xml_string(r) for _ in range(r.choice([0, 0, 1, 2]))}


def xml_string(r):
    return re.sub("[^\t\n\r\x20-\x7e\xa0-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]", "", string(r, NASTY))


def expr(r):
    k = r.random()
    if k < 0.3:
        s = r.choice(["%s", "%1$s", "%2$d", "%.2f", "%tY", "%b"])
        return Expression(V("arg"), "string", attributes={"source": s})
    if k < 0.4:
        return r.choice([Expression("%", attributes={"source": "%%"}), Expression("\n", attributes={"source": "%n"})])
    if k < 0.6:
        return Expression(r.choice(["<b>", "</b>", '<a href="x y">', "<a href='x'>", "<br/>", "<p>", "<a  b='\\'>", "<i\n>"]), "html")
    if k < 0.8:
        return Expression(V(r.choice(["ent", "x", "É"])), "entity")
    # xliff:g
    o = attrs(r)
    k = r.random()
    if k < 0.3:
        return Expression(V(r.choice(["ent", "x"])), "entity", o, {"translate": "no"})
    if k < 0.5:
        s = text(r)
        o.pop("id", None)
        return Expression(s, "xliff:g" if o else None, o, {"translate": "no"})
    s = r.choice(["%1$s", "%s", "{x}"]) if r.random() < 0.7 else None
    if s is None:
        s = xml_string(r) or "z"
        o["id"] = r.choice(["i", "arg1"])
    return Expression(V("arg1"), "xliff:g" if o else None, o, {"translate": "no", "source": s})


def pattern(r, depth=0):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5] if depth == 0 else [0, 1, 2])):
        k = r.random()
        if k < 0.5:
            if not (out and isinstance(out[-1], str)) or r.random() < 0.4:
                out.append(text(r))
        elif k < 0.85 or depth > 2:
            out.append(expr(r))
        elif k < 0.9:
            o = attrs(r)
            o.pop("xmlns", None)
            out += [Markup("open", "xliff:g", o, {"translate": "no"}), Markup("open", "b"), *pattern(r, depth + 1), Markup("close", "b"), *pattern(r, depth + 1), Markup("close", "xliff:g", {}, {"translate": "no"})]
        elif k < 0.95:
            out.append(Markup("standalone", r.choice(["br", "img"]), attrs(r)))
        else:
            n = r.choice(["b", "i", "a", "script", "br", "ul"])
            out += [Markup("open", n, attrs(r)), *pattern(r, depth + 1), Markup("close", n)]
    return out


def com(r):
    if r.random() < 0.5:
        return ""
    return r.choice(["c", "two words", "a\nb", "a\n\nb", "a\n  b", "--", "a--->", "- x\n - y", "<!-- x -->", "]]>", "&amp; &x;", "é", "-", "a\u2028b"]) if r.random() < 0.8 else xml_string(r)


def resource(r):
    secs = []
    if True:
        es = []
        for n in r.sample(["ent", "x", "É"], 3) + ["y"] * r.randrange(2):
            p = []
            for _ in range(r.randrange(3)):
                p.append(r.choice(["a", "b & c", '"', "%", "'", "é", "\n", "<b>x</b>", "\r", "&amp;", "5>3", "]]x"]) if r.random() < 0.7 or n != "y" else Expression(V("x"), "entity"))
            p = [x for i, x in enumerate(p) if not (i and isinstance(x, str) and isinstance(p[i - 1], str))]
            es.append(Entry((n,), PatternMessage(p)))
        secs.append(Section(("!ENTITY",), es))
    for _ in range(r.choice([0, 1, 1, 2])):
        es = []
        for _ in range(r.choice([0, 1, 2, 4])):
            k = r.random()
            meta = [Metadata(x, xml_string(r)) for x in r.sample(["translatable", "x", "{urn:t}y", "checked"], r.choice([0, 0, 1, 2]))]
            if k < 0.2:
                es.append(Comment(com(r)))
            elif k < 0.35:
                n = name(r)
                if any(isinstance(e, Entry) and e.id[0] == n for s in secs for e in s.entries) or any(isinstance(e, Entry) and e.id[0] == n for e in es):
                    continue
                for i in range(r.choice([1, 2, 3])):
                    es.append(Entry((n, str(i)), PatternMessage(pattern(r)), comment=com(r), meta=meta[:]))
            elif k < 0.55:
                ks = r.sample(["zero", "one", "two", "few", "many"], r.randrange(3)) + [CatchallKey("other")]
                if r.random() < 0.2:
                    ks[-1] = CatchallKey(r.choice([None, "zero", "x"]))
                elif r.random() < 0.1 and len(ks) > 1:
                    ks = ["other", *ks[1:-1], CatchallKey(ks[0])]
                sel = SelectMessage({"quantity": Expression(V("quantity"), "number")}, (V("quantity"),), {(x,): pattern(r) for x in ks})
                es.append(Entry((name(r),), sel, comment=com(r), meta=meta))
            elif k < 0.6:
                es.append(Entry((name(r),), PatternMessage([Expression(r.choice(["@string/x", "?attr/y", "@a:b/c", "?z"]), "reference")]), comment=com(r), meta=meta))
            elif k < 0.7:
                es.append(Entry((name(r),), text(r), comment=com(r), meta=meta))
            else:
                es.append(Entry((name(r),), PatternMessage(pattern(r)), comment=com(r), meta=meta))
        secs.append(Section((), es, com(r)))
    if r.random() < 0.5 and "entity" not in repr(secs[1:]):
        secs = secs[1:]
    meta = []
    if r.random() < 0.3:
        meta = [Metadata("xmlns:t", "urn:t"), Metadata("{urn:t}q", xml_string(r))]
    return Resource(r.choice([None, Format.android]), secs, com(r), meta)


def xml_text(r):
    def body(d=0):
        out = ""
        for _ in range(r.choice([0, 1, 2, 4])):
            k = r.random()
            if k < 0.5 or d > 2:
                out += r.choice(["a", " ", "  ", "\n  ", "\\n", "\\u0041", "\\'", '\\"', '"', "'", "\\\\", "%s", "%1$s", "%&lt;s", "%", "%d", "%.2f", "%1$,d", "%x", "%e", "%c", "%b", "%a", "%g", "%G", "%E", "%A", "%B", "%C", "%S", "%o", "%X", "%h", "%H", "%3$S", "%%", "&amp;", "&lt;b>", "&lt;/b>", "&lt;br/> ", " &lt;p>", "\\@", "@", "?", "é", "&#160;", "\\t", "\\u00", "\\", "&ent;", "&#13;", "&gt;", "<![CDATA[<a href=\"x\">]]>", "<![CDATA[ & ]]>", "&lt;a href=\\\"x\\\">", 'a "b  c" d', '"  x "', 'x  "y"', 'a \n b', "don\\'t  go", "\\u0020 \\n x", "\\u00E9", "\\u00e9\\u00Ab", '"a  ', '  b"', '"a  &ent;  b"', '"x  %1$s \n y"'])
            elif k < 0.7:
                out += f"<b>{body(d + 1)}</b>"
            elif k < 0.8:
                out += r.choice(["<br/>", "<a href='a b'/>"])
            else:
                out += f"<xliff:g{r.choice(['', ' id=' + chr(34) + 'x' + chr(34), ' example=' + chr(34) + '&lt;' + chr(34)])}>{r.choice(['%s', '%1$s', 'a b', '&ent;', '{x}']) if r.random() < 0.7 else body(d + 1)}</xliff:g>"
        return out

    out = '<?xml version="1.0" encoding="utf-8"?>\n' + r.choice(["", "<!-- c -->\n", "<!-- c\n   - d -->\n"]) + '<!DOCTYPE resources [ <!ENTITY ent "E &amp; F"> ]>\n' + f'<resources xmlns:xliff="{XL}">\n'
    for i in range(r.choice([0, 1, 2, 3])):
        out += r.choice(["", "", "  <!-- c -->\n", "  <!--\n    a\n  -->\n  <!-- b -->\n", "  <!-- c -->\n\n", "  <!--\n    a\n      b\n  -->\n"])
        k = r.random()
        if k < 0.6:
            out += f'  <string name="k{i}">{body()}</string>\n'
        elif k < 0.8:
            out += f'  <plurals name="k{i}">\n    <item quantity="one">{body()}</item>\n    <!-- x -->\n    <item quantity="other">{body()}</item>\n  </plurals>\n'
        else:
            out += f'  <string-array name="k{i}">\n    <item>{body()}</item>\n    <!-- x -->\n    <item>{body()}</item>\n  </string-array>\n'
    out += r.choice(["", "  <!-- end -->\n"]) + "</resources>\n"
    if r.random() < 0.25:  # nothing between the elements
        head, rest = out.split("<resources", 1)
        out = head + "<resources" + re.sub(r"(?<=>)\n *(?=<(?!xliff|b>|br|a |!\[)|$)", "", rest)
    return out


# ------------------------------------------------------------------ normal forms
BLOCK = re.compile(r"[ \n](?=<(?:div|h[123456r]|p|d[dt]|li|/?[dou]l)\b)|(?<=<[bh]r>)[ \n]|(?<=<[bh]r/>)[ \n]")


def put(out, x):
    if isinstance(x, str):
        if x and out and isinstance(out[-1], str):
            out[-1] += x
        elif x:
            out.append(x)
    else:
        out.append(x)


def norm_pattern(p):
    """the text of the pattern, with placeholders as their sources, entities and elements"""
    if isinstance(p, str):
        p = [p]
    if len(p) == 1 and isinstance(p[0], Expression) and p[0].function == "reference":
        return [("reference", p[0].arg)]
    out = []
    for x in p:
        if isinstance(x, str):
            put(out, x)
        elif isinstance(x, Markup):
            n = "xliff:g" if x.attributes.get("translate") == "no" else x.name
            if x.kind != "close":
                put(out, ("open", n, tuple(sorted(x.options.items()))))
            if x.kind != "open":
                put(out, ("close", n))
        elif x.attributes.get("translate") == "no":
            o = tuple(sorted(x.options.items())) if x.function else ()
            if x.function == "entity":
                b = ("entity", x.arg.name)
            elif "source" in x.attributes:
                b = ("source", x.attributes["source"])
            else:
                b = ("text", x.arg)
            put(out, ("g", b, o))
        elif x.function == "entity":
            put(out, ("entity", x.arg.name))
        elif "source" in x.attributes:
            put(out, x.attributes["source"])
        else:
            put(out, x.arg if isinstance(x.arg, str) else x.arg.name)
    return [BLOCK.sub("\n", x) if isinstance(x, str) else x for x in out]


def norm_msg(m):
    if isinstance(m, SelectMessage):
        return {("other" if isinstance(k[0], CatchallKey) and ("other",) not in m.variants else getattr(k[0], "value", k[0])): norm_pattern(p) for k, p in m.variants.items()}
    return norm_pattern(m if isinstance(m, str) else m.pattern)


def ctext(c):
    c = c.replace("\r\n", "\n").replace("\r", "\n").strip().replace("--", "-\u200b-\u200b")
    return "\n".join(x.strip() for x in c.split("\n")).strip("\n")


def norm_res(res, trim=False):
    c = (lambda x: "") if trim else ctext
    ents, out = [], []
    for s in res.sections:
        if s.comment and not trim:
            out.append(("comment", c(s.comment)))
        if s.id == ("!ENTITY",):
            ents += [(e.id, norm_entity(e.value)) for e in s.entries]
            continue
        for i, e in enumerate(s.entries):
            if isinstance(e, Comment):
                if not trim:
                    out.append(("comment", c(e.comment)))
            else:
                out.append((e.id, norm_msg(e.value), c(e.comment), sorted((m.key, m.value) for m in e.meta)))
    meta = sorted((m.key, m.value) for m in res.meta if not m.key.startswith("xmlns"))
    return [c(res.comment), meta, ents, out]


def norm_entity(m):
    out = []
    for x in [m] if isinstance(m, str) else m.pattern:
        put(out, x if isinstance(x, str) else ("entity", x.arg.name))
    return out


def patterns(m):
    if isinstance(m, SelectMessage):
        return list(m.variants.values())
    return [[m]] if isinstance(m, str) else [m.pattern]


def canonical(p):
    """is text in the pattern as the parser reads it"""
    if any(isinstance(x, Expression) and x.function == "reference" for x in p) and len(p) > 1:
        return False
    # relative and ambiguous placeholders
    flat = norm_pattern(p)
    if any(isinstance(x, str) and ("%<" in x or "\\" in "".join(re.findall("<[^>]*>", x))) for x in flat):
        return False
    return True


# ------------------------------------------------------------------ the XML, read independently
def android_text(s):
    """the text of a string without placeholders and elements by the Android rules"""
    s = s.strip(" \n\t\r")
    out, i, quoted, gap = [], 0, False, False
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            d = s[i + 1]
            if d == "u":
                out.append(chr(int(s[i + 2:i + 6], 16)))
                i += 6
            else:
                out.append({"n": "\n", "t": "\t"}.get(d, d))
                i += 2
            gap = False
            continue
        if c == '"':
            quoted = not quoted
        elif c in " \n\t\r" and not quoted:
            if not gap:
                out.append(" ")
            gap = True
            i += 1
            continue
        else:
            out.append(c)
        gap = False
        i += 1
    return "".join(out)


def xml_strings(root):
    for el in root:
        if not isinstance(el.tag, str):
            continue
        if el.tag == "string":
            yield (el.get("name"),), None, el
        elif el.tag == "string-array":
            for i, x in enumerate(el.findall("item")):
                yield (el.get("name"), str(i)), None, x
        else:
            for x in el.findall("item"):
                yield (el.get("name"),), x.get("quantity"), x


def plain(s):
    """text which the parser reads as Android does: no unpaired or escaped quotes, incomplete escapes, HTML or white space beyond ASCII"""
    return s.count('"') % 2 == 0 and re.fullmatch(r"""(?:[^\\"<\s]|[ \n]|(?<![ \n])"|"(?![ \n])|\\[^u<\s"\\\ue000]|\\u[0-9a-fA-F]{4})*""", s) and s.strip() == s


FUNC = {c: f for f, cs in {"boolean": "bB", "string": "cCsS", "integer": "dhHoxX", "number": "aAeEfgG"}.items() for c in cs}


def entity(x):
    return isinstance(x, Expression) and x.function == "entity" and "translate" not in x.attributes


def check_xml(t, res, parsed=False):
    try:
        root = etree.fromstring(t.encode(), etree.XMLParser(resolve_entities=False))
    except etree.XMLSyntaxError as e:
        return f"is not well-formed: {e}"
    want = []
    for s in res.sections:
        if s.id:
            continue
        for e in s.entries:
            if isinstance(e, Entry):
                if isinstance(e.value, SelectMessage):
                    want += [(e.id, "other" if isinstance(k[0], CatchallKey) and ("other",) not in e.value.variants else getattr(k[0], "value", k[0]), p) for k, p in e.value.variants.items()]
                else:
                    want.append((e.id, None, [e.value] if isinstance(e.value, str) else e.value.pattern))
    got = list(xml_strings(root))
    if [x[:2] for x in got] != [x[:2] for x in want]:
        return f"has strings {[x[:2] for x in got]} instead of {[x[:2] for x in want]}"
    for (i, q, el), (_, _, p) in zip(got, want):
        src = el.text or ""
        for x in el:
            if isinstance(x, etree._Entity):
                src += "\ue000" + (x.tail or "")
        if any(not isinstance(x, etree._Entity) for x in el) or any(not isinstance(x, str) and not (isinstance(x, Expression) and (x.function == "html" or entity(x) or parsed and "source" in x.attributes)) for x in p):
            continue
        for x in p:
            if isinstance(x, Expression) and "source" in x.attributes and (m := re.fullmatch(r"%(?:\d\$)?[-#+ 0,(]?[\d.]*([a-zA-Z])", x.attributes["source"])) and parsed and isinstance(x.arg, VariableRef):
                if x.function != FUNC.get(m[1]):
                    return f"{x.attributes['source']} is read as {x.function}"
        if parsed and not plain(src):
            continue
        a, b = android_text(src), "".join(x if isinstance(x, str) else "\ue000" if entity(x) else x.attributes["source"] if "source" in x.attributes else x.arg for x in p)
        if a != b:
            return f"gives Android {a!r} instead of {b!r}"
        if (el.text or "")[:1] in ("@", "?") and not parsed:
            return f"writes text as the reference {el.text!r}"
    return None


# ------------------------------------------------------------------ checks
def check_res(res, trim):
    res0 = snap(res)
    try:
        t = "".join(android_serialize(res, trim_comments=trim))
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(res, res0):
        return "the resource was changed"
    if res.format is not None and "".join(serialize_resource(res, trim_comments=trim)) != t:
        return "serialize_resource writes something else"
    d = check_xml(t, res)
    if d:
        return f"{d} -- {t!r}"
    if trim and "<!--" in t:
        return f"comments in {t!r}"
    ents = [e for s in res.sections for e in s.entries if isinstance(e, Entry) and not s.id]
    if not all(canonical(p) for e in ents for p in patterns(e.value)):
        return None
    want = norm_res(res, trim)
    for kw in ({}, {"ascii_spaces": True}, {"literal_quotes": True}):
        try:
            got = android_parse(t, **kw)
        except Exception as e:
            return f"{t!r} does not parse: {exc(e)}"
        a = norm_res(got)
        for x, y in zip(want[3], a[3]):  # only the first item of an array has its attributes
            if len(x[0]) == 2 and x[0][1] != "0" and len(x) == 4 and len(y) == 4 and x[3] != y[3]:
                return f"attributes {y[3]} instead of {x[3]}"
        if a != want:
            return f"{diff(a, want) or (a, want)} -- {t!r}"
    if got.format != Format.android or not same(android_parse(t.encode()), android_parse(t)):
        return "bytes parse differently, or the format is not set"
    if "".join(android_serialize(android_parse(t))) != "".join(android_serialize(android_parse("".join(android_serialize(android_parse(t)))))):
        return f"{t!r} is not stable"
    return None


def check_msg(m):
    m0 = snap(m)
    for cdata in (False, True):
        try:
            s = android_serialize_message(m, allow_cdata=cdata)
        except Exception as e:
            return f"raised {exc(e)}"
        if not same(m, m0):
            return "the message was changed"
        try:
            got = android_parse_message(s)
        except Exception as e:
            return f"{s!r} does not parse: {exc(e)}"
        if not canonical(m.pattern):
            continue
        a, b = norm_msg(got), norm_msg(m)
        if a != b:
            return f"{s!r}: {a} instead of {b}"
    return None


def check_html(t):
    """white space after line breaks and before blocks is a newline"""
    want = re.sub(r"(<[bh]r/?>) ", "\\1\n", re.sub(r" (<(?:div|h[123456r]|p|d[dt]|li|/?[dou]l)\b)", "\n\\1", t.strip()))
    for src in (t.replace("<", "&lt;").replace("'", "\\'"), f"<![CDATA[{t}]]>".replace("'", "\\'")):
        got = "".join(x if isinstance(x, str) else x.arg for x in android_parse_message(src).pattern)
        if got != want:
            return f"{src!r} is read as {got!r} instead of {want!r}"
    return None


def check_text(t):
    try:
        r1 = android_parse(t)
    except Exception as e:
        return f"raised {exc(e)}"
    d = check_xml(t, r1, True)
    if d:
        return f"{d} -- {t!r} was parsed"
    try:
        t2 = "".join(android_serialize(r1))
        r2 = android_parse(t2)
    except Exception as e:
        return f"raised {exc(e)} after parsing {r1}"
    d = check_xml(t2, r1)
    if d:
        return f"{d} -- {t2!r}"
    if not all(canonical(p) for s in r1.sections if not s.id for e in s.entries if isinstance(e, Entry) for p in patterns(e.value)):
        return None
    a, b = norm_res(r2), norm_res(r1)
    if a != b:
        return f"{diff(a, b) or (a, b)} -- {t2!r}"
    return None


def check_bad(n):
    e = Entry(("k",), PatternMessage(["v"]))
    s = Section((), [e])
    res = Resource(None, [s])
    q = lambda v, decl=None: SelectMessage(decl or {"quantity": Expression(V("quantity"), "number")}, (V("quantity"),), v)
    what = ["long id", "no id", "bad name", "array index", "array index form", "section metadata", "section id", "bad markup", "option variable", "two selectors", "plural key", "same quantity twice", "name metadata", "wrong selector", "entity name", "entity value", "comment"][n]
    if n == 0:
        e.id = ("a", "0", "b")
    elif n == 1:
        e.id = ()
    elif n == 2:
        e.id = ("a b",)
    elif n == 3:
        e.id = ("a", "1")
    elif n == 4:
        e.id = ("a", "00")
    elif n == 5:
        s.meta = [Metadata("a", "b")]
    elif n == 6:
        s.id = ("s",)
    elif n == 7:
        e.value = PatternMessage([Markup("open", "b"), "x", Markup("close", "i")])
    elif n == 8:
        e.value = PatternMessage([Markup("open", "b", {"x": V("y")}), "x", Markup("close", "b")])
    elif n == 9:
        e.value = SelectMessage({"a": Expression(V("a"), "number"), "b": Expression(V("b"), "number")}, (V("a"), V("b")), {("one", "one"): ["x"], (CatchallKey(), CatchallKey()): ["y"]})
    elif n == 10:
        e.value = q({("1",): ["x"], (CatchallKey("other"),): ["y"]})
    elif n == 11:
        e.value = q({("other",): ["x"], (CatchallKey("other"),): ["y"]})
    elif n == 12:
        e.meta = [Metadata("name", "x")]
    elif n == 13:
        e.value = q({("one",): ["x"], (CatchallKey("other"),): ["y"]}, {"quantity": Expression(V("quantity"), "string")})
    elif n == 14:
        res.sections = [Section(("!ENTITY",), [Entry(("a b",), "x")])]
    elif n == 15:
        res.sections = [Section(("!ENTITY",), [Entry(("a",), "x < y")])]
    elif n == 16:
        res.comment = "a\x00b"
    try:
        t = "".join(android_serialize(snap(res)))
    except ValueError:
        return None
    except Exception as x:
        return f"{what}: raised {exc(x)}"
    return f"{what}: was written as {t!r}"


def nontrivial(case):
    return case[0] != "msg" or canonical(case[1].pattern)


def check(case):
    c = snap(case[1])
    if case[0] == "res":
        return check_res(c, case[2])
    if case[0] == "malformed":
        for f, t in ((android_parse_message, c), (android_parse, f'<resources><string name="a">{c}</string></resources>')):
            try:
                return f"{t!r} was read as {f(t)}"
            except (etree.XMLSyntaxError, ValueError):
                pass
            except Exception as e:
                return f"{t!r} raised {exc(e)}"
        return None
    return {"msg": check_msg, "xml": check_text, "bad": check_bad, "html": check_html}[case[0]](c)
