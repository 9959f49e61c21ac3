"""C16: XLIFF 1.2"""
import itertools, re
from lxml import etree
from moz.l10n.formats import Format
from moz.l10n.formats.xliff.parse import xliff_parse, xliff_parse_message
from moz.l10n.formats.xliff.serialize import xliff_serialize, xliff_serialize_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import serialize_resource
from .common import cut, diff, exc, same, snap
from .gen import NASTY, string

CONTRACTS = ["xliff"]
BUDGET = 25
LEVEL = "other"
RULE = "all patterns of up to 4 of 10 parts (text, spaces, elements open, closed and empty, placeholders) as targets, sources, notes and messages; random resources of files, nested groups, units, notes, metadata trees and comments with strings of XML characters; random XLIFF texts including Xcode stringsdict and xcstrings files; each with what has to be refused; non-trivial: every resource which XLIFF can express"
EXPLANATION = "for all inputs: comments, notes, the recognition of Xcode files and names without namespace meet their contracts (helpers, which are not decisive by themselves); in addition resources are written and read back with the real functions and compared up to the order of metadata and the layout of comments; the XML is read by lxml independently of the functions under test"

V, M = VariableRef, Metadata
NS = "urn:oasis:names:tc:xliff:document:1.2"
XML = "{http://www.w3.org/XML/1998/namespace}"
META = [M("@version", "1.2"), M("@xmlns", NS), M("@xmlns:t", "urn:t")]
SMALL = ["a", " ", "\n", "<", ("x",), ("g",), ("/",), ("s",), "&", ("e",)]
TEXT = ["a", " ", "\n", "\t", "<", ">", "&", '"', "'", "]]>", "--", "&amp;", "<g>", "é", "\u00a0", "\u2028", "\U0001f600", "%@", "%1$d", "%", "\r", "\x7f", "\x85", "  ", "x", "1"]


# ------------------------------------------------------------------ cases
def small_pattern(x):
    out, depth = [], 0
    for i in x:
        if isinstance(i, str):
            out.append(i) if not (out and isinstance(out[-1], str)) else out.__setitem__(-1, out[-1] + i)
        elif i[0] == "x":
            out.append(Markup("standalone", "x", {"id": "1"}))
        elif i[0] == "g":
            out.append(Markup("open", "g"))
            depth += 1
        elif i[0] == "s":
            out.append(Markup("standalone", "t:ph", {"xml:space": " "}))
        elif i[0] == "e":
            out.append(Expression(V("arg"), attributes={"source": "%@"}))
        else:
            if not depth:
                return None
            out.append(Markup("close", "g"))
            depth -= 1
    return out + [Markup("close", "g")] * depth


def cases(r, tier, shard, shards):
    def small():
        for x in REFUSE_XML:
            yield ("refuse", PLAIN % x)
        for us in REFUSE:
            yield ("refuse", XCSTRINGS % "".join(f"<trans-unit id='{i}'><source>{x}</source></trans-unit>" for i, x in us))
        for n in range(0, 5):
            for x in itertools.product(SMALL, repeat=n):
                if n < 4 or tier == "thorough" or hash(x) % 16 == 0:
                    p = small_pattern(x)
                    if p is None:
                        continue
                    s = "".join(i for i in x if isinstance(i, str))
                    es = [Entry(("k",), PatternMessage(p), meta=[M("source", s)]), Entry(("l",), PatternMessage([]), comment=s, meta=[M("source", "a")]), Entry((s,), s, meta=[M("source", "a"), M("target/@state", s), M("note", s if s.strip() else "n")])]
                    yield ("res", Resource(Format.xliff, [Section((s,), es, s)], s, snap(META)), False, False)
                    yield ("msg", PatternMessage([i for i in p if not (isinstance(i, Markup) and ":" in i.name)]))

    yield from cut(small(), shard, shards)
    while True:
        k = r.random()
        if k < 0.03:
            yield ("bad", r.randrange(24))
        elif k < 0.5:
            yield ("res", resource(r), r.random() < 0.15, r.random() < 0.25)
        elif k < 0.6:
            yield ("msg", PatternMessage(pattern(r, {XML + "space": "xml:space"})))
        else:
            yield ("xml", xml_text(r), r.random() < 0.3)


XCSTRINGS = '<xliff xmlns="urn:oasis:names:tc:xliff:document:1.2" version="1.2"><file original="a/L.xcstrings" source-language="en"><header><tool tool-id="com.apple.dt.xcode" tool-name="Xcode"/></header><body>%s</body></file></xliff>'
REFUSE = [
    [("k|==|substitutions.v.plural.other", "%arg x")],
    [("k|==|substitutions.v.plural.other", "%arg x"), ("k|==|plural.other", "y")],
    [("k", "a %#@v@"), ("k|==|substitutions.v.plural.other", "%arg x"), ("k|==|plural.other", "y")],
    [("k", "a %#@v@"), ("k|==|substitutions.v.plural.other", "%arg x"), ("k|==|device.other", "y")],
    [("k|==|substitutions.v.plural.other", "%arg x"), ("k|==|device.other", "y")],
    [("k", "a"), ("k|==|plural.other", "y")],
    [("k", "a"), ("k|==|device.other", "y")],
    [("k|==|plural.other", "y"), ("k|==|device.other", "y")],
    [("k|==|plural.one", "y")],
    [("k|==|plural.x", "y"), ("k|==|plural.other", "y")],
    [("k|==|device.mac", "y")],
    [("k|==|foo.other", "y")],
    [("k|==|plural", "y")],
    [("k", "%#@v@"), ("k|==|substitutions.v.device.other", "y")],
    [("k", "%#@v@"), ("k|==|substitutions.v.plural.x", "y"), ("k|==|substitutions.v.plural.other", "y")],
]


PLAIN = '<xliff xmlns="urn:oasis:names:tc:xliff:document:1.2" version="1.2">%s</xliff>'
U = '<trans-unit id="a"><source>x</source></trans-unit>'
F = '<file original="a">%s</file>'
REFUSE_XML = [F % "", F % "<header/>", F % "<body>x</body>", F % f"<body>{U}x</body>", F % f"<body><x/>{U}</body>", F % "<body><trans-unit><source>x</source></trans-unit></body>",
              F % "<body><bin-unit><bin-source/></bin-unit></body>", f"<file><body>{U}</body></file>", F % f"<body>{U}</body>x", f"x{F % '<body/>'}", f"{F % '<body/>'}x",
              F % f"<body><group>{U}x</group></body>", F % f"<body><group>x{U}</group></body>", F % "<body><trans-unit id='a'>x<source>x</source></trans-unit></body>", F % "<body><trans-unit id='a'><source>x</source>y</trans-unit></body>",
              F % "<body/><body/>", F % "<body><trans-unit id='a'><source/><target/><target/></trans-unit></body>"]


def xml_string(r, atoms=None):
    return re.sub("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]", "", string(r, atoms or r.choice([NASTY, TEXT])))


def text(r):
    return xml_string(r) or "z"


def attrs(r, names=("id", "ctype", "x", "t:y", "xml:space", "é")):
    return {n: xml_string(r) for n in r.sample(list(names), r.choice([0, 0, 1, 2]))}


def pattern(r, ns=None, depth=0):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5] if depth == 0 else [0, 1, 2])):
        k = r.random()
        o = attrs(r, ["id", "x", "é"] + [*ns] if ns is not None else ["id", "ctype", "x", "t:y", "xml:space", "é", XML + "lang"])
        if k < 0.45:
            if not (out and isinstance(out[-1], str)):
                out.append(text(r))
        elif k < 0.55:
            out.append(Expression(r.choice([V("x"), "y"]), r.choice([None, "string"]), attributes={"source": text(r)}))
        elif k < 0.75 or depth > 2:
            out.append(Markup("standalone", r.choice(["x", "bx", "ex", "g", "ph"]), o))
        else:
            n = r.choice(["g", "mrk", "x"] + ([] if ns is not None else ["t:g", "{urn:t}h"]))
            out += [Markup("open", n, o), *pattern(r, ns, depth + 1), Markup("close", n)]
    return out


def tree(r, base, depth=0, mixed=False):
    """metadata of a random element"""
    out = [M(f"{base}/@{k}", v) for k, v in attrs(r).items()]
    seen = {}

    def txt():
        s = xml_string(r)
        if s and (mixed or not s.isspace()):
            out.append(M(base, s))

    if r.random() < 0.7:
        txt()
    if depth < 3:
        for _ in range(r.choice([0, 0, 1, 2])):
            if r.random() < 0.15:
                out.append(M(f"{base}/comment()", r.choice(["c", " c\n d ", "<&>", "é- - x"])))
            else:
                n = r.choice(["x", "g", "note", "t:z", "source", "context", "seg-source"])
                seen[n] = seen.get(n, 0) + 1
                b = f"{base}/{n}" if seen[n] == 1 else f"{base}/{n}[{seen[n]}]"
                out += tree(r, b, depth + 1, mixed or n in ("source", "seg-source"))
            if r.random() < 0.3:
                txt()
    return out or [M(base, "")]


def note(r, base):
    out = [M(f"{base}/@{k}", v) for k, v in attrs(r, ["from", "priority"]).items()]
    s = xml_string(r)
    if s and not s.isspace():
        out.append(M(base, s))
    return out or [M(base, "")]


def com(r):
    if r.random() < 0.5:
        return ""
    return r.choice(["c", "two words", "a\nb", "a\n\nb", "a\n  b", "--", "a--->", "- x\n - y", "x\n   - y", "<!-- x -->", "]]>", "&amp; &x;", "é", "-", "a\u2028b", "a\x0b".strip("\x0b")]) if r.random() < 0.8 else xml_string(r)


def entry(r, src):
    p = pattern(r)
    if r.random() < 0.06:
        meta = [M(f"@{k}", v) for k, v in attrs(r, ["x", "t:y"]).items()] + tree(r, "bin-source")
        return Entry((xml_string(r),), PatternMessage([Expression(None, attributes={"bin-unit": True})]), meta=meta)
    meta = [M(f"@{k}", v) for k, v in attrs(r, ["x", "approved", "t:y", "xml:space"]).items()]
    if src:
        meta += [M(f"source/@{k}", v) for k, v in attrs(r).items()]
        if r.random() < 0.4:
            meta += tree(r, "target", 0, True)
    else:
        meta += tree(r, "source", 0, True) if r.random() < 0.6 else [M("source", text(r))]
        meta += [M(f"target/@{k}", v) for k, v in attrs(r).items()]
    n = 0
    while r.random() < 0.3:
        n += 1
        meta += note(r, "note" if n == 1 else f"note[{n}]")
    if r.random() < 0.2:
        meta += tree(r, "alt-trans")
    if r.random() < 0.1:
        meta += tree(r, "seg-source", 0, True)
    if r.random() < 0.15:  # attributes may come late
        late = [m for m in meta if "/@" in m.key and any((x.key + "/").startswith(m.key.split("/@")[0] + "/") and "@" not in x.key for x in meta) and r.random() < 0.5]
        meta = [m for m in meta if m not in late] + late
    if r.random() < 0.1:
        meta.append(M("comment()", r.choice(["c", " c\nd ", ""])))
    return Entry((xml_string(r),), text(r) if r.random() < 0.1 else PatternMessage(p), comment=com(r), meta=meta)


def resource(r, src=None):
    secs = []
    for f in range(r.choice([0, 1, 1, 2])):
        fn = f"f{f}" + xml_string(r)
        paths = [(fn,)]
        for _ in range(r.choice([0, 0, 1, 3])):
            p = r.choice(paths) + (xml_string(r),)
            if p not in paths:
                paths.append(p)
        if r.random() < 0.2:
            paths = [p for p in paths if len(p) != 1]
        elif r.random() < 0.3:
            paths = [p for p in paths if r.random() < 0.6]
        for p in paths:
            meta = [M(f"@{k}", v) for k, v in attrs(r, ["x", "t:y", "datatype"]).items()]
            if r.random() < 0.4:
                if len(p) == 1:
                    meta += tree(r, "header")
                else:
                    n = r.choice(["note", "t:z", "context-group"])
                    for i in range(r.choice([1, 1, 2, 3])):
                        meta += tree(r, f"{n}[{i + 1}]" if i else n)
            secs.append(Section(p, [Comment(com(r)) if r.random() < 0.15 else entry(r, False) for _ in range(r.choice([0, 1, 2, 3]))], com(r), meta))
    meta = snap(META) + [M(f"@{k}", v) for k, v in attrs(r, ["x", "t:y", "xml:lang"]).items()]
    return Resource(r.choice([None, Format.xliff]), secs, com(r), meta)


ESC = {"<": "&lt;", "&": "&amp;", '"': "&quot;"}


def xml_text(r):
    def txt():
        return r.choice(["a", " ", "\n  ", "%@", "%1$d of %2$@", "%lld x", "%", "%%", "&amp;", "&lt;", "&#13;", "é", "<![CDATA[<a>]]>", "a b", ""])

    def inline(d=0):
        out = txt()
        for _ in range(r.choice([0, 0, 1, 2])):
            k = r.random()
            if k < 0.4:
                out += r.choice(["<x/>", "<x id='1'/>", "<ph>%@</ph>", "<bx/>", "<ex>y</ex>", "z<!-- c -->z", "<t:z t:a='1'/>"])
            elif d < 3:
                out += f"<g id='{r.randrange(3)}'>{inline(d + 1)}</g>"
            out += txt()
        return out

    def notes():
        return "".join(r.choice(["<note>n</note>", "<note from='me'>n\n m</note>", "<note/>", "<note from=''/>", "<note priority='1'/>", "<note>\n n\n</note>"]) for _ in range(r.choice([0, 0, 1, 2])))

    def unit(i, simple=False):
        if r.random() < 0.08 and not simple:
            return f"<bin-unit id='{i}' mime-type='x'><bin-source><external-file href='a'/></bin-source>{notes()}</bin-unit>\n"
        kids = [f"<source{r.choice(['', ' xml:space=' + chr(34) + 'preserve' + chr(34)]) if not simple else ''}>{txt() if simple else inline()}</source>"]
        if r.random() < 0.7:
            kids.append(f"<target{r.choice(['', ' state=' + chr(34) + 'x' + chr(34)])}>{txt() if simple else inline()}</target>")
        if r.random() < 0.15 and not simple:
            kids.append("<alt-trans match-quality='90%'>\n <source>a <x/> b</source><target><g/> </target></alt-trans>")
        if r.random() < 0.1 and not simple:
            kids.append(f"<seg-source>{r.choice(['', ' ', 'a'])}<mrk mid='1'>{txt()}</mrk> <mrk mid='2'> </mrk>{txt()}</seg-source>")
        if r.random() < 0.1 and not simple:
            kids.append("<!-- u -->")
        kids.append(notes())
        if r.random() < 0.15:
            r.shuffle(kids)
        return f"<trans-unit id='{i}'{r.choice(['', ' approved=' + chr(34) + 'yes' + chr(34)])}>{r.choice(['', chr(10)]).join(kids)}</trans-unit>\n"

    def units(n):
        return "".join(r.choice(["<!-- c -->\n"] + [""] * 5) + unit(f"u{n}{i}") for i in range(r.choice([0, 1, 2, 3])))

    def groups(d=0):
        return "".join(f"<group id='g{d}{i}'{r.choice(['', ' x=' + chr(34) + '1' + chr(34)])}>{r.choice(['', '<note>g</note>', '<note>g</note><!-- x --><note>h</note>', '<context-group><context>c</context></context-group>'])}{units(i)}{groups(d + 1) if d < 3 else ''}</group>\n" for i in range(r.choice([0, 0, 0, 1, 2])))

    files = ""
    for f in range(r.choice([1, 1, 2])):
        k = r.random()
        xc = k < 0.6
        head = "<header>" + ("<tool tool-id='com.apple.dt.xcode' tool-name='Xcode'/>" if xc else r.choice(["", "<note>h</note>", "text", "<phase-group>\n <phase phase-name='x'/><phase phase-name='y'/> </phase-group>"])) + "</header>"
        ext, body = "", ""
        ks = ["other"] + r.sample(["zero", "one", "two", "few", "many"], r.randrange(3))
        if r.random() < 0.3:
            ks.reverse()
        if k < 0.2:
            ext = ".stringsdict"
            for i in range(r.choice([0, 1, 2])):
                if r.random() < 0.8:
                    body += f"<trans-unit id='/k{i}:dict/NSStringLocalizedFormatKey:dict/:string'><source>{r.choice(['%#@v@', 'a %#@v@ b'])}</source>{r.choice(['', '<target>%#@v@</target>', '<target state=' + chr(34) + 'x' + chr(34) + '>c %#@v@ d</target>', '<target/>'])}{notes()}</trans-unit>\n"
                for q in ks:
                    body += unit(f"/k{i}:dict/v:dict/{q}:dict/:string", True)
        elif k < 0.45:
            ext = ".xcstrings"
            for i in range(r.choice([0, 1, 2, 3])):
                j = r.random()
                if j < 0.3:
                    body += unit(f"k{i}", True)
                elif j < 0.55:
                    s = r.choice(["%lld files", "x", "%2$@ has %1$lld", "%#@v@", f"{r.choice(['%', '%1$'])}{r.choice('aAcCdDeEfgGoOpsSuUxX')} y %2${r.choice('aAcCdDeEfgGoOpsSuUxX@')}"])
                    body += "".join(f"<trans-unit id='k{i}|==|plural.{q}'><source>{s}</source>{r.choice(['', '<target>' + s + '</target>'])}{notes()}</trans-unit>" for q in ks)
                elif j < 0.75:
                    body += "".join(unit(f"k{i}|==|device.{q}", True) for q in r.choice([["other", "iphone", "mac"], ["mac", "macos", "other"], ["other", "oth"]])[: r.choice([1, 2, 3])] or ["other"])
                else:
                    t, bare = r.random() < 0.7, r.choice([0, 0, 0.5, 1])
                    s = r.choice(["a %#@v@", "%#@v@ b", "%1$#@v@ c"])
                    body += f"<trans-unit id='k{i}'><source>{s}</source>{'<target>' + s + '</target>' if t else ''}{notes()}</trans-unit>"
                    body += "".join(f"<trans-unit id='k{i}|==|substitutions.v.plural.{q}'><source>%arg x</source>{'<target>' + r.choice(['%arg x', '%lld y', '%1$lld z', 'w']) + '</target>' if t and r.random() >= bare else ''}{notes()}</trans-unit>" for q in ks)
        else:
            body = units(9) + groups() + units(8)
        files += r.choice(["", "", "<!-- f -->\n", "<!-- f -->\n<!-- g\n   - h -->\n", "<!-- one -->\n<!-- two -->"]) + f"<file original='f{f}{ext}' datatype='plaintext'>{head if xc or r.random() < 0.5 else ''}{r.choice(['', '', '<!-- b -->'])}<body>{body}</body></file>\n"
    if r.random() < 0.2:  # nothing between the elements
        files = re.sub(r"(</(?:trans-unit|bin-unit|group|file)>)\n", r"\1", files)
    return f"<?xml version='1.0' encoding='utf-8'?>\n{r.choice(['', '<!-- r -->', '<!-- r --><!-- s -->', '<!--' + chr(10) + '  a' + chr(10) + '    b' + chr(10) + '-->'])}<xliff version='1.2' xmlns:t='urn:t'{r.choice(['', f' xmlns={chr(34)}{NS}{chr(34)}'])}>\n{files}{r.choice(['', '', '<!-- end -->', '<!-- end --> <!-- of file -->'])}</xliff>"


# ------------------------------------------------------------------ normal forms
def local(n):
    if n.startswith("{"):
        n = n.replace(XML, "xml:").replace("{urn:t}", "t:").replace("{" + NS + "}", "")
    return n


def put(out, x):
    if isinstance(x, str):
        if x and out and isinstance(out[-1], str):
            out[-1] += x
        elif x:
            out.append(x)
    else:
        out.append(x)


def norm_pattern(p):
    if isinstance(p, str):
        p = [p]
    if len(p) == 1 and isinstance(p[0], Expression) and "bin-unit" in p[0].attributes:
        return ["bin-unit"]
    out = []
    for x in p:
        if isinstance(x, str):
            put(out, x)
        elif isinstance(x, Markup):
            if x.kind != "close":
                put(out, ("open", local(x.name), [(local(k), v) for k, v in x.options.items()]))
            if x.kind != "open":
                put(out, ("close", local(x.name)))
        else:
            put(out, x.attributes["source"])
    return out


def ctext(c):
    c = c.replace("\r\n", "\n").replace("\r", "\n").strip().replace("--", "-\u200b-\u200b")
    return "\n".join(x.strip() for x in c.split("\n")).strip("\n")


def is_note(k):
    return any(re.fullmatch(r"note(\[\d+\])?", x) for x in k.split("/"))


def norm_meta(meta, trim):
    m = [(x.key, x.value) for x in meta if not (trim and (is_note(x.key) or (not x.value and "@" not in x.key)))]
    m.sort(key=lambda x: x[0])
    if trim:  # texts around removed notes are joined
        d = {}
        for k, v in m:
            d[k] = d.get(k, "") + v
        m = list(d.items())
    return m


def note_comment(meta):
    notes, out = {}, []
    for m in meta:
        x = re.fullmatch(r"(note(?:\[\d+\])?)(/@from)?", m.key)
        if x:
            d = notes.setdefault(x[1], {})
            d.setdefault("from" if x[2] else "text", m.value)
        elif is_note(m.key):
            notes.setdefault(m.key.split("/")[0], {})
    for d in notes.values():
        if d.get("text"):
            out.append((d["from"] + ": " if d.get("from") else "") + d["text"].strip())
    return "\n\n".join(out)


def norm_entry(e, trim):
    if isinstance(e, Comment):
        return ("comment", ctext(e.comment))
    if isinstance(e.value, SelectMessage):
        v = [(str(k[0]) if not isinstance(k[0], CatchallKey) else "other", norm_pattern(p)) for k, p in e.value.variants.items()]
        return (e.id, v, "", norm_meta(e.meta, trim))
    meta = snap(e.meta)
    v = norm_pattern(e.value if isinstance(e.value, str) else e.value.pattern)
    if v == ["bin-unit"]:
        return (e.id, v, "", norm_meta(meta, trim))
    if e.comment and not e.comment.isspace() and not trim and not any(m.key.startswith("note") for m in meta):
        meta.append(M("note", e.comment))
    return (e.id, v, "" if trim else note_comment(sorted(meta, key=lambda m: m.key)), norm_meta(meta, trim))


def norm_res(res, trim=False):
    """sections in document order, with the files and groups around them"""
    secs, kids = {}, {}

    def get(p):
        if p not in secs:
            if len(p) > 1:
                get(p[:-1])
            kids.setdefault(p[:-1], []).append(p)
            secs[p] = [p, "", [], []]
        return secs[p]

    for s in res.sections:
        x = get(s.id)
        if s.comment and not trim:
            if len(s.id) == 1:
                x[1] = ctext(s.comment)
            else:
                secs[s.id[:-1]][3].append(("comment", ctext(s.comment)))
        x[2] = norm_meta(s.meta, trim)
        x[3] += [norm_entry(e, trim) for e in s.entries if not (trim and isinstance(e, Comment))]
    out = []

    def walk(p):
        out.append(secs[p])
        for q in kids.get(p, []):
            walk(q)

    for p in kids.get((), []):
        walk(p)
    return ["" if trim else ctext(res.comment), norm_meta(res.meta, False), out]


# ------------------------------------------------------------------ the XML, read independently
def loc(el):
    return local(el.tag) if isinstance(el.tag, str) else None


def inner(el):
    out = []
    put(out, el.text or "")
    for x in el:
        if isinstance(x.tag, str):
            put(out, ("open", local(x.tag), [(local(k), v) for k, v in x.attrib.items()]))
            for y in inner(x):
                put(out, y)
            put(out, ("close", local(x.tag)))
        put(out, x.tail or "")
    return out


def check_xml(t, want, src):
    try:
        root = etree.fromstring(t.encode())
    except etree.XMLSyntaxError as e:
        return f"is not well-formed: {e}"
    if loc(root) != "xliff":
        return "is not XLIFF"
    got = []

    def units(p, el):
        got.append((p, [(u.get("id"), ["bin-unit"] if loc(u) == "bin-unit" else next((inner(x) for x in u if loc(x) == ("source" if src else "target")), []), [x.text.strip() for x in u if loc(x) == "note" and x.text]) for u in el if loc(u) in ("trans-unit", "bin-unit")]))
        for g in el:
            if loc(g) == "group":
                units(p + (g.get("id"),), g)

    for f in root:
        if loc(f) == "file":
            bodies = [x for x in f if loc(x) == "body"]
            if len(bodies) != 1:
                return "has a file without a body"
            units((f.get("original"),), bodies[0])
    a = [(p, [x[:2] for x in us]) for p, us in got]
    b = [(s[0], [(e[0][0], e[1]) for e in s[3] if e[0] != "comment"]) for s in want[2]]
    if a != b:
        return f"contains {diff(a, b) or (a, b)}"
    for (_, us), s in zip(got, want[2]):
        for u, e in zip(us, [e for e in s[3] if e[0] != "comment"]):
            if e[2] and not all(x in e[2] for x in u[2]):
                return f"has notes {u[2]} for {e[2]}"
    return None


# ------------------------------------------------------------------ checks
def check_res(res, trim, src):
    if src:
        for s in res.sections:
            for e in s.entries:
                if isinstance(e, Entry) and norm_pattern(e.value if isinstance(e.value, str) else e.value.pattern) != ["bin-unit"]:
                    e.meta = [m for m in e.meta if not re.match(r"(source|target/@)(?!/@)", m.key) and m.key != "target"]
                    if norm_pattern(e.value if isinstance(e.value, str) else e.value.pattern) == []:
                        e.value = "z"
    res0 = snap(res)
    try:
        t = "".join(xliff_serialize(res, trim_comments=trim, source_entries=src))
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(res, res0):
        return "the resource was changed"
    if res.format is not None and not src and "".join(serialize_resource(res, trim_comments=trim)) != t:
        return "serialize_resource writes something else"
    want = norm_res(res, trim)
    d = check_xml(t, want, src)
    if d:
        return f"{d} -- {t!r}"
    if trim and "<!--" in t and "comment()" not in repr(res):
        return f"comments in {t!r}"
    try:
        got = xliff_parse(t, source_entries=src)
    except Exception as e:
        return f"{t!r} does not parse: {exc(e)}"
    a = norm_res(got, trim)
    if a != want:
        return f"{diff(a, want) or (a, want)} -- {t!r}"
    if got.format != Format.xliff or not same(xliff_parse(t.encode(), source_entries=src), got):
        return "bytes parse differently, or the format is not set"
    t2 = "".join(xliff_serialize(got, source_entries=src))
    if not trim and t2 != "".join(xliff_serialize(xliff_parse(t2, source_entries=src), source_entries=src)):
        return f"{t!r} is not stable"
    return None


def check_msg(m):
    m0 = snap(m)
    try:
        s = xliff_serialize_message(m)
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(m, m0):
        return "the message was changed"
    try:
        got = xliff_parse_message(s)
    except Exception as e:
        return f"{s!r} does not parse: {exc(e)}"
    a, b = norm_pattern(got.pattern), norm_pattern(m.pattern)
    return None if a == b else f"{s!r}: {a} instead of {b}"


def canon(res):
    """up to the order of metadata and the layout of comments"""
    res = snap(res)
    for s in res.sections:
        s.meta.sort(key=lambda m: m.key)
        s.comment = ctext(s.comment)
        if s.id[0].endswith((".stringsdict", ".xcstrings")):
            s.entries.sort(key=lambda e: isinstance(e, Entry))
        for e in s.entries:
            if isinstance(e, Comment):
                e.comment = ctext(e.comment)
            else:
                for p in e.value.variants.values() if isinstance(e.value, SelectMessage) else [e.value.pattern]:
                    q = []
                    for x in p:
                        put(q, x)
                    p[:] = q
                e.meta = sorted((m for m in e.meta if m.value or not is_note(m.key.split("/")[-1])), key=lambda m: m.key)
    res.meta.sort(key=lambda m: m.key)
    res.comment = ctext(res.comment)
    return res


# what a text says, read independently
class Refused(Exception):
    pass


def nsname(el, n):
    if not n.startswith("{"):
        return n
    uri, n = n[1:].split("}")
    if uri == NS:
        return n
    return next(k for k, v in [("xml", XML[1:-1]), *el.nsmap.items()] if v == uri and k) + ":" + n


def ctokens(*cs):
    """the lines of comments, without their layout; a dash may be part of the indentation"""
    out = []
    for c in cs:
        ls = [x.strip() for x in (c or "").split("\n")]
        if len(ls) > 1 and all(re.match(r"   - ", x) for x in c.split("\n")[1:]):
            ls[1:] = [x.strip().removeprefix("-").strip() for x in ls[1:]]
        out += [x for x in ls if x]
    return out


def jm(*parts):
    return "/".join(x for x in parts if x)


def rattrs(el, base="", skip=()):
    return [(jm(base, "@" + nsname(el, k)), v) for k, v in el.attrib.items() if k not in skip]


def rtree(el, base, ws=False, top=True):
    out = rattrs(el, base) if top else []
    ws = ws or (isinstance(el.tag, str) and loc(el) in ("source", "target", "seg-source"))
    count = {}

    def txt(x):
        if x and (ws or x.strip()):
            out.append((base, x))

    txt(el.text)
    for x in el:
        if loc(x) is None:
            out.append((jm(base, "comment()"), x.text))
        else:
            n = nsname(x, x.tag)
            count[n] = count.get(n, 0) + 1
            out.extend(rtree(x, jm(base, n if count[n] == 1 else f"{n}[{count[n]}]"), ws))
        txt(x.tail)
    return out if out or len(el) or not top else [(base, "")]


def itext(el):
    """the text and inline elements, without comments"""
    out = []
    put(out, el.text or "")
    for x in el:
        if isinstance(x.tag, str):
            for y in (("open", local(x.tag), [(local(k), v) for k, v in x.attrib.items()]), *itext(x), ("close", local(x.tag))):
                put(out, y)
        put(out, x.tail or "")
    return out


def runit(u, src):
    """id, pattern, comment, metadata"""
    if loc(u) == "bin-unit":
        return ((u.get("id"),), ["bin-unit"], "", rattrs(u, "", ("id",)) + rtree(u, "", False, False))
    val, notes, meta, count = [], [], rattrs(u, "", ("id",)), {}
    for x in u:
        n = loc(x)
        if n is None:
            meta.append(("comment()", x.text))
        elif n == ("source" if src else "target"):
            val = itext(x)
            meta += rattrs(x, n)
        else:
            n = nsname(x, x.tag)
            count[n] = count.get(n, 0) + 1
            meta += rtree(x, n if count[n] == 1 else f"{n}[{count[n]}]")
            if n == "note" and x.text:
                notes.append((x.get("from") + ": " if x.get("from") else "") + x.text.strip())
    return ((u.get("id"),), val, "\n\n".join(notes), meta)


def rxunit(u, src):
    """like runit, for the units of Xcode, which have only texts; with the texts of the source and target"""
    d = {loc(x): x for x in u}
    if None in d or set(d) - {"source", "target", "note"} or any(len(x) for x in u) or d["source"].attrib or len(u) - len([x for x in u if loc(x) == "note"]) != len(d) - ("note" in d):
        raise Refused
    s, t = d["source"], d.get("target")
    meta, n = rattrs(u, "", ("id",)), 0
    for x in u:
        if loc(x) == "note" and (x.text or x.attrib):
            n += 1
            meta += rtree(x, "note" if n == 1 else f"note[{n}]")
    if src:
        meta += rtree(t, "target") if t is not None else []
    else:
        meta += [("source", s.text or "")] + (rattrs(t, "target") if t is not None else [])
    return (s.text or "") if src else (t.text or "") if t is not None else "", meta, s.text or "", None if t is None else t


def rselect(body, ext, src):
    """id -> (variant texts, metadata) for the units of an Xcode file; None if its units are not plurals"""
    units = []
    for u in body:
        if loc(u) is None:
            continue
        if loc(u) != "trans-unit":
            if ext == "stringsdict":
                return None
            raise Refused
        if ext == "stringsdict" and not re.fullmatch("(?s)/.*:dict/:string", u.get("id")):
            return None
        units.append(u)
    out = {}
    for u in units:
        id = u.get("id")
        text, meta, s, t = rxunit(u, src)
        if ext == "stringsdict":
            k, var, *q = id[1:].split(":dict/")
            d = out.setdefault(k, [{}, {}, {}])
            if var == "NSStringLocalizedFormatKey":
                # the source is the selector's, and only another target is metadata
                meta = [m for m in meta if m[0] != "source" and not m[0].startswith("target")]
                if t is not None:
                    meta += rattrs(t, "target") + ([("target", t.text)] if t.text and t.text != s else [])
                d[2]["format"] = s
                d[1]["format"] = meta
            else:
                d[2]["var"] = var
                d[0][q[0]] = text
                d[1][q[0]] = meta
        else:
            k, *q = id.split("|==|")
            d = out.setdefault(k, [{}, {}, {}])
            if not q:
                d[2]["base"] = text
                d[1][""] = meta
            else:
                q = q[0].split(".")
                d[2].setdefault("kinds", set()).add(tuple(q[:-1]))
                d[0][q[-1]] = text
                d[1][jm(q[1] if q[0] == "substitutions" else "", q[-1])] = meta
    for k, (texts, meta, info) in out.items():
        base, kinds = info.get("base"), info.get("kinds", set())
        if ext == "xcstrings":
            if len(kinds) > 1 or (base is not None) != (not kinds or "substitutions" in next(iter(kinds))):
                raise Refused
            if kinds and base is None and "other" not in texts:
                raise Refused
            if not kinds:
                texts[None] = base
            elif base:
                ph = next((m[0] for m in re.finditer(r"%([1-9]\$)?#@(\w+)@", base) if m[2] == next(iter(kinds))[1]), None)
                if ph is None:
                    raise Refused
                some = any(texts.values())
                for q, x in texts.items():
                    texts[q] = base.replace(ph, x, 1) if x else "" if some else base
            elif base == "" and any(texts.values()):
                raise Refused
    return {k: (texts, [(jm(b, m), v) for b, x in meta.items() for m, v in x], info.get("format")) for k, (texts, meta, info) in out.items()}


def read(t, src):
    root = etree.fromstring(t.encode())
    secs, late = [], []
    for f in root:
        if loc(f) is None:
            late.append(f.text)
            continue
        body = next(x for x in f if loc(x) == "body")
        meta = rattrs(f, "", ("original",)) + [m for x in f if loc(x) == "header" for m in rtree(x, "header")]
        name = f.get("original")
        ext = name.rsplit(".")[-1]
        sec = [(name,), ctokens(*late), meta, [("comment", ctokens(x.text)) for x in f if loc(x) is None]]
        late = []
        secs.append(sec)
        if ("header/tool/@tool-id", "com.apple.dt.xcode") in meta and ext in ("stringsdict", "xcstrings"):
            d = rselect(body, ext, src)
            if d is not None:
                sec[3] += [("comment", ctokens(x.text)) for x in body if loc(x) is None]
            if d is not None:
                sec[3] += [("select", k, *v) for k, v in d.items()]
                continue

        def walk(el, sec):
            count = {}
            for u in el:
                n = loc(u)
                if n is None:
                    sec[3].append(("comment", ctokens(u.text)))
                elif n in ("trans-unit", "bin-unit"):
                    sec[3].append(runit(u, src))
                elif n == "group":
                    x = [sec[0] + (u.get("id", ""),), [], rattrs(u, "", ("id",)), []]
                    secs.append(x)
                    walk(u, x)
                else:
                    n = nsname(u, u.tag)
                    count[n] = count.get(n, 0) + 1
                    sec[2] += rtree(u, n if count[n] == 1 else f"{n}[{count[n]}]")

        walk(body, sec)
    if late and secs:
        secs[-1][3].append(("comment", ctokens(*late)))
    top = [x.text for x in root.itersiblings(etree.Comment, preceding=True)][::-1]
    return [ctokens(*top), sorted(rattrs(root) + [(jm(f"@xmlns:{k}" if k else "@xmlns"), v) for k, v in root.nsmap.items()]), secs]


def model(res, want):
    """a parsed resource in the same terms"""
    secs = []
    for s, w in zip(res.sections, want[2]):
        es = []
        for i, e in enumerate(s.entries):
            if isinstance(e, Comment):
                es.append(("comment", ctokens(e.comment)))
                continue
            meta = [(m.key, m.value) for m in e.meta]
            if i < len(w[3]) and w[3][i][0] == "select":
                if isinstance(e.value, SelectMessage):
                    if len(e.value.selectors) > 1:
                        return None
                    texts = {"other" if isinstance(k, CatchallKey) else k: "".join(x if isinstance(x, str) else x.attributes["source"] for x in p) for (k,), p in e.value.variants.items()}
                    source = e.value.selector_expressions()[0].attributes.get("source") if s.id[0].endswith(".stringsdict") else None
                else:
                    texts, source = {None: "".join(x if isinstance(x, str) else x.attributes["source"] for x in e.value.pattern)}, None
                if w[3][i][2] and list(texts.items()) != list(w[3][i][2].items()):
                    texts = list(texts.items())
                es.append(("select", *e.id, texts, meta, source))
            else:
                es.append((e.id, norm_pattern(e.value.pattern), e.comment, meta))
        secs.append([s.id, ctokens(s.comment), [(m.key, m.value) for m in s.meta], es])
    return [ctokens(res.comment), sorted((m.key, m.value) for m in res.meta), secs + [s.id for s in res.sections[len(secs) :]]]


def check_read(t, src, res):
    try:
        want = read(t, src)
    except Refused:
        return None if res is None else f"was not refused: {res}"
    if res is None:
        return f"was refused, and says {want}"
    got = model(res, want)
    for x in (want, got):
        for s in x[2] if got else []:
            if isinstance(s, list):
                s[2].sort(key=lambda m: m[0])
                for e in s[3]:
                    if e[0] != "comment":
                        e[3].sort(key=lambda m: m[0])
    return None if got is None or got == want else f"was read as {diff(got, want) or (got, want)}"


FUNC = {c: f for f, cs in {"string": "cCsS", "integer": "dDoOpuUxX", "number": "aAeEfgG"}.items() for c in cs}


def check_comments(t, res):
    """entries of Xcode plurals have the notes of their units as comment, once if they all say the same"""
    secs = {s.id: s for s in res.sections}
    for f in etree.fromstring(t.encode()):
        if loc(f) is None or not f.get("original").endswith((".stringsdict", ".xcstrings")) or "com.apple.dt.xcode" not in etree.tostring(f).decode():
            continue
        notes = {}
        for u in f.iter():
            if loc(u) == "trans-unit":
                i = u.get("id")
                i = i[1:].split(":dict/")[0] if f.get("original").endswith(".stringsdict") else i.split("|==|")[0]
                n = "\n\n".join(x.text.strip() for x in u if loc(x) == "note" and x.text and x.text.strip())
                notes.setdefault(i, []).append(n)
        for e in secs[(f.get("original"),)].entries if (f.get("original"),) in secs else []:
            if isinstance(e, Entry) and isinstance(e.value, SelectMessage) and e.id[0] in notes:
                ns = notes[e.id[0]]
                if not any(ns):
                    if e.comment:
                        return f"{e.id} has the comment {e.comment!r} without any note"
                elif any(n not in e.comment for n in ns):
                    return f"{e.id} has the comment {e.comment!r} for the notes {ns}"
                elif f.get("original").endswith(".xcstrings") and len(ns) > 1 and len(set(ns)) == 1 and e.comment != ns[0]:
                    return f"{e.id} has the comment {e.comment!r} for the notes {ns}"
    return None


def check_functions(res):
    """placeholders of Xcode plurals have the function and argument index of their conversion"""
    for s in res.sections:
        for e in s.entries:
            if isinstance(e, Entry) and isinstance(e.value, SelectMessage) and s.id[0].endswith((".stringsdict", ".xcstrings")):
                sels = [x.name for x in e.value.selectors]
                for p in e.value.variants.values():
                    for x in p:
                        m = isinstance(x, Expression) and isinstance(x.arg, V) and "substitution" not in x.attributes and re.fullmatch(r"%(?:([1-9])\$)?[-#+ 0,]*[\d.]*(?:hh?|ll?|q|L|z|t|j)?([a-zA-Z@])", str(x.attributes.get("source")))
                        if m and (x.attributes.get("index") != m[1] or x.function != FUNC.get(m[2]) and not (x.function is None)):
                            return f"{x} for {m[0]}"
                        if m and x.function is None and FUNC.get(m[2]) and x.arg.name not in sels and len(sels) > 1:
                            return f"{x} for {m[0]} without function"
    return None


def check_text(t, src):
    try:
        r1 = xliff_parse(t, source_entries=src)
    except ValueError as e:
        return None
    except Exception as e:
        return f"raised {exc(e)}"
    d = check_read(t, src, r1) or check_functions(r1) or check_comments(t, r1)
    if d:
        return d
    try:
        t2 = "".join(xliff_serialize(r1, source_entries=src))
    except ValueError as e:
        if src and any(isinstance(e, Entry) and isinstance(e.value, SelectMessage) for s in r1.sections for e in s.entries):
            return None
        return f"raised {exc(e)} after parsing {r1}"
    except Exception as e:
        return f"raised {exc(e)} after parsing {r1}"
    try:
        r2 = xliff_parse(t2, source_entries=src)
    except Exception as e:
        return f"{t2!r} does not parse: {exc(e)}"
    d = check_read(t2, src, r2)
    if d:
        return f"{d} -- {t2!r}"
    if not any(isinstance(e, Entry) and isinstance(e.value, SelectMessage) for s in r1.sections for e in s.entries):
        d = check_xml(t2, norm_res(r1), src)
        if d:
            return f"{d} -- {t2!r}"
    d = diff(canon(r2), canon(r1))
    if d:
        return f"{d} -- {t2!r}"
    # with trim_comments, comments make no difference
    if not src:
        want = "".join(xliff_serialize(r1, trim_comments=True))
        r3 = snap(r1)
        for s in r3.sections:
            for e in s.entries:
                if isinstance(e, Entry) and isinstance(e.value, SelectMessage):
                    e.comment = "zz"
        try:
            if "".join(xliff_serialize(r3, trim_comments=True)) != want:
                return "comments of plurals are written with trim_comments"
        except Exception as e:
            return f"a plural with a comment: raised {exc(e)} with trim_comments"
    # the value of a catch-all key does not matter
    for s in r1.sections:
        for e in s.entries:
            if isinstance(e, Entry) and isinstance(e.value, SelectMessage):
                e.value.variants = {tuple(CatchallKey() if isinstance(k, CatchallKey) else k for k in ks): p for ks, p in e.value.variants.items()}
    t3 = "".join(xliff_serialize(r1, source_entries=src))
    return None if t2 == t3 else f"unnamed catch-all keys: {t3!r} instead of {t2!r}"


BAD = ["long id", "anonymous section", "duplicate section", "no source", "wrong nesting", "closing markup", "option variable", "expression", "selectors elsewhere", "declarations", "root metadata", "control character in text", "in note", "in attribute", "in id", "in comment", "in resource comment", "in section comment", "unknown prefix", "closing options", "unclosed markup", "control character in source", "closing the target", "closing the target early"]


def check_bad(n):
    e = Entry(("k",), PatternMessage(["v"]), meta=[M("source", "s")])
    s = Section(("f",), [e])
    res = Resource(None, [s], meta=snap(META))
    if n == 0:
        e.id = ("a", "b")
    elif n == 1:
        s.id = ()
    elif n == 2:
        res.sections.append(Section(("f",), []))
    elif n == 3:
        e.meta = []
    elif n == 4:
        e.value.pattern = [Markup("open", "g"), Markup("open", "x"), Markup("close", "g"), Markup("close", "x")]
    elif n == 5:
        e.value.pattern = [Markup("close", "g")]
    elif n == 6:
        e.value.pattern = [Markup("standalone", "g", {"x": V("y")})]
    elif n == 7:
        e.value.pattern = [Expression(V("x"))]
    elif n == 8:
        e.value = SelectMessage({"a": Expression(V("a"), "number")}, (V("a"),), {(CatchallKey("other"),): ["x"]})
    elif n == 9:
        e.value.declarations = {"a": Expression(V("a"), "number")}
    elif n == 10:
        res.meta.append(M("a", "b"))
    elif n == 11:
        e.value.pattern = ["a\x00"]
    elif n == 12:
        e.comment = "a\x0c"
    elif n == 13:
        e.meta.append(M("@x", "\x1f"))
    elif n == 14:
        e.id = ("\ufffe",)
    elif n == 15:
        s.entries.append(Comment("a\x01"))
    elif n == 16:
        res.comment = "a\x00b"
    elif n == 17:
        s.comment = "a\x0bb"
    elif n == 18:
        e.meta.append(M("@u:x", "y"))
    elif n == 19:
        e.value.pattern = [Markup("open", "g"), Markup("close", "g", {"a": "b"})]
    elif n == 20:
        e.value.pattern = [Markup("open", "g"), "a"]
    elif n == 21:
        e.meta = [M("source", "a\x07b")]
    elif n == 22:
        e.value.pattern = ["a", Markup("close", "target")]
    elif n == 23:
        e.value.pattern = [Markup("close", "target"), Markup("open", "g"), "b", Markup("close", "g")]
    try:
        t = "".join(xliff_serialize(snap(res)))
    except ValueError:
        return None
    except Exception as x:
        return f"{BAD[n]}: raised {exc(x)}"
    return f"{BAD[n]}: was written as {t!r}"


def nontrivial(case):
    return True


def check(case):
    c = snap(case[1])
    if case[0] == "res":
        return check_res(c, case[2], case[3])
    if case[0] == "refuse":
        try:
            return f"was read as {xliff_parse(c).sections}"
        except ValueError:
            return None
        except Exception as e:
            return f"raised {exc(e)}"
    if case[0] == "xml":
        return check_text(c, case[2])
    return {"msg": check_msg, "bad": check_bad}[case[0]](c)
