"""C26: detect_format and parse_resource"""
import functools, itertools, json, os, re, tempfile
import xml.etree.ElementTree as ET
from moz.l10n.formats import Format, UnsupportedFormat, detect_format
from moz.l10n.model import Resource
from moz.l10n.resource import parse_resource
from moz.l10n.formats.android.parse import android_parse
from moz.l10n.formats.dtd.parse import dtd_parse
from moz.l10n.formats.fluent.parse import fluent_parse
from moz.l10n.formats.gettext.parse import gettext_parse
from moz.l10n.formats.inc.parse import inc_parse
from moz.l10n.formats.ini.parse import ini_parse
from moz.l10n.formats.plain_json.parse import plain_json_parse
from moz.l10n.formats.properties.parse import properties_parse
from moz.l10n.formats.webext.parse import webext_parse
from moz.l10n.formats.xliff.parse import xliff_parse
from .common import cut, diff, exc, same

CONTRACTS = ["detect"]
BUDGET = 12
LEVEL = "other"
RULE = "all names of a set times all contents of a set, as str and bytes; random JSON values and XML roots; non-trivial: content given"
ASSUMPTIONS = ['the parsers are replaced by functions which record their arguments; the contents detected by json and lxml are checked at run time only']
EXPLANATION = "detection by name, the shape tests on JSON values and the choice of the parser meet their contracts for all inputs; content detection (json, lxml) is checked on enumerated and random contents"

EXT = {".dtd": "dtd", ".ftl": "fluent", ".po": "gettext", ".pot": "gettext", ".inc": "inc", ".ini": "ini", ".properties": "properties", ".xlf": "xliff", ".xliff": "xliff"}
XNS = ["urn:oasis:names:tc:xliff:document:1.%d" % i for i in range(3)]
PARSERS = dict(dtd=dtd_parse, fluent=fluent_parse, gettext=gettext_parse, inc=inc_parse, ini=ini_parse, plain_json=plain_json_parse,
               properties=properties_parse, webext=webext_parse, android=android_parse, xliff=xliff_parse)
NAMES = [None, "", "x", "a.b/x", "x.json", "x.xml", "x.txt", "x.JSON", "x.ftl.json", "x.json.ftl", ".ftl", "a.ftl/x", "dir.xml/x.json", "x.XML"] + [d + e for e in EXT for d in ("x", "y.json/z")] + ["x.ftl ", "x.Ftl", "x.dtd2", "x.po~", "x."]
SAMPLES = {
    "dtd": "<!ENTITY a \"b\">", "fluent": "a = b\n", "gettext": 'msgid ""\nmsgstr ""\n\nmsgid "a"\nmsgstr "b"\n', "inc": "#define a b\n", "ini": "[s]\na=b\n",
    "plain_json": '{"a": "b", "c": {"d": "e"}}', "properties": "a = b\n", "webext": '{"a": {"message": "b"}}',
    "android": '<resources><string name="a">b</string></resources>',
    "xliff": '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="a" source-language="en" datatype="x"><body><trans-unit id="a"><source>b</source></trans-unit></body></file></xliff>',
}
CONTENTS = [None, "", " ", "{}", "[]", "null", "true", "1", '"a"', '{"a":1}', '{"a":"b"}', '{"a":{}}', '{"a":{"b":{}}}', '{"a":{"b":[]}}', '{"a":null}', '{"message":"a"}', '{"a":{"message":"b"}}',
            '{"a":{"message":"b","description":"c"}}', '{"a":{"message":"b","placeholders":{}}}', '{"a":{"message":"b","placeholders":"c"}}', '{"a":{"description":"b"}}',
            '{"a":{"message":"b","x":"c"}}', '{"a":{"message":"b"},"c":"d"}', '{"a":{"message":"b"},"c":{"d":"e"}}', '{"a":{"message":"b"}} // c', '// c\n{"a":{"message":"b//c"}}', '{"a":"b"} // c',
            '{"a":{"message":"b"}, // c\n"d":{"message":"e","placeholders":{"p":{"content":"$1"}}}}', '{"a":{"message":{"x":"y"}}}', "{", '{"a":', "//", "// {}", "<", "<a/>", "<resources/>", "<resources><b/></resources>",
            '<resources xmlns="x"/>', '<resources xmlns:t="x"/>', '<x:resources xmlns:x="y"/>', '<?xml version="1.0"?><resources/>', "<!-- c --><resources/>", " <resources/>", "<Resources/>", "<resource/>",
            *(f'<xliff xmlns="{n}"/>' for n in XNS + ["urn:oasis:names:tc:xliff:document:2.0", "urn:x"]), *(f'<a xmlns="{n}"/>' for n in XNS), '<xliff/>', f'<x:xliff xmlns:x="{XNS[2]}"/>', f'<resources xmlns="{XNS[0]}"/>',
            *SAMPLES.values()]
BYTES = [b"\xff", b"\xff\xfe", b"{\xff", b"\x00", b"\x80abc", "<?xml version='1.0' encoding='ISO-8859-1'?><resources>\xe9</resources>".encode("latin-1"), '{"a":"é"}'.encode("latin-1"), b"\xef\xbb\xbf{}", '{"a":"b"}'.encode("utf-16"), '{"a":{"message":"b"}}'.encode("utf-16-le"), "<resources/>".encode("utf-16"), b"\xef\xbb\xbf<resources/>"]


def strip_comments(s):
    """removes // comments outside of strings, line by line"""
    out = []
    for line in s.split("\n"):
        i = 0
        instr = False
        while i < len(line):
            if instr:
                if line[i] == "\\":
                    i += 1
                elif line[i] == '"':
                    instr = False
            elif line[i] == '"':
                instr = True
            elif line.startswith("//", i):
                line = line[:i]
                break
            i += 1
        out.append(line)
    return "\n".join(out)


def strings_only(v):
    return isinstance(v, dict) and all(isinstance(x, str) or strings_only(x) for x in v.values())


def webext_msg(v):
    return isinstance(v, dict) and "message" in v and set(v) <= {"message", "description", "placeholders"} and isinstance(v.get("placeholders", {}), dict)


def expected(name, source):
    """format name, None, or '?' where the content is neither JSON nor well-formed XML with a root"""
    ext = re.search(r"[^/.](\.[^/.]*)$", name or "")
    ext = ext[1] if ext else ""
    if ext in EXT:
        return EXT[ext]
    if source is None:
        return None
    if ext != ".xml":
        v = valid = None
        try:
            v, valid = json.loads(source), True
        except ValueError:
            try:
                v, valid = json.loads(strip_comments(source if isinstance(source, str) else source.decode())), False
            except ValueError:
                valid = None
        if valid is not None:
            if not strings_only(v):
                return None
            if all(webext_msg(x) for x in v.values()):
                return "webext"
            return "plain_json" if valid else None
    try:
        root = ET.fromstring(source)
    except (ET.ParseError, ValueError, LookupError):
        return "?"
    if root.tag == "resources":
        src = source.decode("utf-8", "replace") if isinstance(source, bytes) else source
        return "android"
    m = re.match(r"\{(.*)\}(.*)", root.tag)
    if m:
        src = source.decode("utf-8", "replace") if isinstance(source, bytes) else source
        prefixed = re.search(r"<[\w]+:%s[\s/>]" % m[2], src)
        return "xliff" if m[1] in XNS and not prefixed else None
    return None


def rand_json(r, depth=0):
    k = r.random()
    if depth > 3 or k < 0.45:
        return r.choice(["a", "", "//", '"', 1, None, True, []]) if r.random() < 0.15 else r.choice(["a", "", "// x", 'b"//', "\\"])
    if k < 0.5:
        return [rand_json(r, depth + 1)]
    ks = ["message", "message", "description", "placeholders", "a", "b"] if r.random() < 0.7 else ["a", "b", "c", ""]
    return {r.choice(ks): rand_json(r, depth + 1) for _ in range(r.randrange(0, 4))}


def cases(r, tier, shard, shards):
    def small():
        for n in NAMES:
            for c in CONTENTS:
                yield ("detect", n, c)
                if c is not None:
                    yield ("detect", n, c.encode())
            for c in BYTES:
                yield ("detect", n, c)
        for f in Format:
            for k, s in SAMPLES.items():
                yield ("parse", f, s)
                yield ("parse", f, s.encode())
        for n in NAMES:
            for k, s in SAMPLES.items():
                yield ("parse", n, s)
                yield ("parse", n, s.encode())
            yield ("parse", n, "")
        for n in NAMES:
            if n and "/" not in n:
                for k, s in SAMPLES.items():
                    yield ("file", n, s)
        for f in Format:
            yield ("nosource", f)
        yield ("nosource", None)
        yield ("parse", None, "#")

    yield from cut(small(), shard, shards)
    while True:
        if r.random() < 0.8:
            v = {r.choice("abcd"): rand_json(r, 1) for _ in range(r.randrange(0, 4))}
            if r.random() < 0.5:
                v = {r.choice("abcd"): {"message": "x", **({"description": "y"} if r.random() < 0.3 else {}), **({"placeholders": rand_json(r, 2)} if r.random() < 0.3 else {}), **({"z": "y"} if r.random() < 0.1 else {})} for _ in range(r.randrange(0, 4))}
            if r.random() < 0.2:
                v = rand_json(r)
            s = json.dumps(v, indent=r.choice([None, 1]))
            if r.random() < 0.3:
                ls = s.split("\n")
                ls.insert(r.randrange(len(ls) + 1), "  // c" + r.choice(["", '"', "{"]))
                s = "\n".join(ls)
        else:
            t = r.choice(["resources", "xliff", "a"])
            ns = r.choice(XNS + ["urn:x"])
            a = r.choice(["", f' xmlns="{ns}"', f' xmlns:x="{ns}"', ' a="b"'])
            s = r.choice(["", "<?xml version='1.0'?>\n", "<!-- x -->\n", "<!DOCTYPE a [<!ENTITY b 'c'>]>"]) + f"<{t}{a}>" + r.choice(["", "x", "<resources/>"]) + f"</{t}>" + r.choice(["", "\n", "<!-- -->"])
        yield ("detect", r.choice(NAMES), s if r.random() < 0.5 else s.encode())


def nontrivial(case):
    return case[0] != "detect" or case[2] is not None


def outcome(f, *a):
    try:
        return ("ok", f(*a))
    except UnsupportedFormat:
        return ("unsupported",)
    except TypeError as e:
        return ("TypeError", str(e))
    except Exception as e:
        return ("raised", type(e).__name__, str(e))


def agree(a, b):
    return a[0] == b[0] and (same(a[1], b[1]) if a[0] == "ok" else a[:2] == b[:2] or a[0] == "unsupported")


def check(case):
    if case[0] == "detect":
        _, n, s = case
        try:
            g = detect_format(n, s)
            g2 = detect_format(n, s)
        except Exception as e:
            return f"detect_format({n!r}, {s!r}) raised {exc(e)}"
        if g is not g2:
            return f"detect_format({n!r}, {s!r}) is {g} and then {g2}"
        w = expected(n, s)
        if w == "?":
            if g is not None and not (b"<" in (s.encode() if isinstance(s, str) else s) and g in (Format.android, Format.xliff)):
                return f"detect_format({n!r}, {s!r}) is {g}"
            return None
        if (g.name if g else None) != w:
            return f"detect_format({n!r}, {s!r}) is {g} instead of {w}"
        return None
    if case[0] == "nosource":
        o = outcome(parse_resource, case[1])
        return None if o[0] == "TypeError" else f"parse_resource({case[1]}) without source: {o}"
    if case[0] == "file":
        _, n, s = case
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, n)
            with open(p, "w", newline="") as f:
                f.write(s)
            a = outcome(parse_resource, p)
        b = outcome(parse_resource, n, s.encode())
        if not agree(a, b) and not (a[0] == "raised" == b[0]):
            return f"parse_resource of a file {n!r} with {s!r}: {a} instead of {b}"
        return None
    _, f, s = case
    fmt = f if isinstance(f, Format) else detect_format(f, s)
    a = outcome(parse_resource, f, s)
    if fmt is None or fmt.name not in PARSERS:
        return None if a[0] == "unsupported" else f"parse_resource({f!r}, {s!r}): {a}"
    b = outcome(PARSERS[fmt.name], s)
    if not agree(a, b):
        return f"parse_resource({f!r}, {s!r}) gives {a} but the {fmt.name} parser {b}"
    if a[0] == "ok" and a[1].format is not fmt:
        return f"parse_resource({f!r}, {s!r}) gives a resource of format {a[1].format}"
