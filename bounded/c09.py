"""C09: parse_message and serialize_message"""
import itertools, json, re
from moz.l10n.formats import Format
from moz.l10n.message.parse import parse_message
from moz.l10n.message.serialize import serialize_message
from moz.l10n.model import Expression, PatternMessage
from moz.l10n.util.printf import parse_printf_pattern
from .common import cut, diff, exc, same, snap
from .gen import NASTY, string

CONTRACTS = ["printf"]
BUDGET = 25
LEVEL = "other"
RULE = "all strings of up to 6 of 11 characters and tokens of printf-style placeholders; for each format all texts of up to 4 of 12 tokens and random longer ones; non-trivial: every text which its format parses"
EXPLANATION = "the real parse_message and serialize_message are run on each text: what is written must parse to the same message and be written the same again, and for printf-style strings must be the text itself"

F = Format
PRINTF = ["%", "1", "$", "s", "d", "(", "a)", ".", " ", "T", "l", "@", "é", "\n", "9$", "%%", "%1$s", "%(x)s", "%-5.2f", "#", "0", "hh", "j", "Y", "\u0660"]
TOKENS = {
    F.webext: ["$", "$$", "$1", "$12", "$a$", "$A$", "$B_1$", "$x@$", "a", " ", "\\", "$9$", "é", "$$$", "1", "$$a$"],
    F.fluent: ["a", " ", "\n", "\n    ", "{ $x }", "{ \"\" }", "{ \"a\\\\\" }", "{ -t }", "{ m.a }", "{ F(1, a: \"b\") }", "{ $x ->\n    [one] 1\n   *[other] o\n  }", "[", "*", ".", "\"", "\\", "{ 1.50 }", "é", "<b>", "{ { $x } }", "{ \"\\u000A\" }", "#"],
    F.mf2: ["a", " ", "\n", "{$x}", "{|a|}", "{#b}", "{/b}", "{#b /}", "\\\\", "\\{", ".", "{$x :number a=|1|}", "{1}", "{|\\||}", "{:f @a}", "é", ".input {$x :number} .match $x one {{1}} * {{o}}", "{{", "}}", "{$x @a=b}"],
    F.android: ["a", " ", "\\n", "\\'", "\\\"", "\"", "%s", "%1$s", "%%", "<b>", "</b>", "&lt;b>", "&amp;", "<xliff:g id=\"x\">%1$d</xliff:g>", "\\u0041", "\\\\", "\n", "&ent;", "\\@", "é", "<br/>", "&#160;", "%n", "<b>x</b>"],
    F.xliff: ["a", " ", "\n", "&lt;", "&amp;", "<x/>", "<g id=\"1\">", "</g>", "%@", "%1$d", "<g>a</g>", "é", "]]", ">", "<ph>b</ph>", "<x id=\"2\"/>", "&#13;"],
    F.properties: ["a", " ", "\\n", "\\u0041", "\\\\", "\\t", "=", ":", "%s", "%1$d", "%", "%%", "é", "\\ ", "\\=", "#", "\\u00e9", "\\ud83d\\ude00", "\t"],
}
for _f in TOKENS:
    TOKENS[_f].append("b")
PLAIN = [x for x in Format if x not in TOKENS]
PLACEHOLDERS = {"a": {"content": "$1", "example": "e"}, "B_1": {"content": "x"}, "x@": {"content": "$2 y"}, "9": {"content": ""}}


def cases(r, tier, shard, shards):
    def small():
        for n in range(0, 7):
            for x in itertools.product(PRINTF[:11], repeat=n):
                if n < 5 or hash(x) % (4 if tier == "thorough" else 40) == 0:
                    yield ("printf", "".join(x))
        for f, ts in TOKENS.items():
            for n in range(0, 5):
                for x in itertools.product(ts[:12], repeat=n):
                    if n < 3 or (hash(x) % (1 if tier == "thorough" else 6 if n == 3 else 60)) == 0:
                        yield ("text", f, "".join(x))

    yield from cut(small(), shard, shards)
    fs = list(TOKENS)
    while True:
        if r.random() < 0.2:
            yield ("printf", string(r, PRINTF if r.random() < 0.8 else NASTY, 12))
        else:
            f = r.choice(fs)
            yield ("text", f, string(r, TOKENS[f] if r.random() < 0.85 else TOKENS[f] + NASTY, 8))


KINDS = {c: f for f, cs in {"string": "cCsS", "integer": "dDoOpuUxX", "number": "aAeEfFgG"}.items() for c in cs}
LETTER = "abcdefghijklmnopqrstuvwxyz"
LETTER += LETTER.upper()


def read_printf(s):
    """(source, argument, function) of the placeholders in the text, read character by character"""
    i = 0
    while i < len(s):
        if s[i] != "%":
            i += 1
            continue
        j, name = i + 1, ""
        if s[j:j + 1] in tuple("123456789") and s[j + 1:j + 2] == "$":
            name = "arg" + s[j]
            j += 2
        elif s[j:j + 1] == "(":
            k = j + 1
            while k < len(s) and (s[k] in "_." or s[k].isalnum()):
                k += 1
            if k > j + 1 and s[k:k + 1] == ")":
                name = s[j + 1:k]
                j = k + 1
        if s[j:j + 1] in tuple("-#+ 0,"):
            j += 1
        while s[j:j + 1] in tuple("0123456789."):
            j += 1
        k = j + 1
        while s[k:k + 1] in tuple(LETTER):
            k += 1
        if s[j:j + 1] in ("t", "T") and k > j + 1:
            yield s[i:k], name or "arg", "datetime"
            i = k
            continue
        for n in ("hh", "ll", "h", "l", "L", "z", "j", "q", ""):
            c = s[j + len(n):j + len(n) + 1]
            if s.startswith(n, j) and c and c in LETTER + "@%":
                k = j + len(n) + 1
                yield (s[i:k], "%", None) if c == "%" else (s[i:k], name or "arg", KINDS.get(c, "printf"))
                i = k
                break
        else:
            i += 1


def check_printf(s):
    p = list(parse_printf_pattern(s))
    got = [(x.attributes["source"], getattr(x.arg, "name", x.arg), x.function) for x in p if not isinstance(x, str)]
    want = list(read_printf(s))
    if got != want:
        return f"has the placeholders {got} instead of {want}"
    if "".join(x if isinstance(x, str) else x.attributes["source"] for x in p) != s:
        return f"the parts of {p} are not the text"
    if any(isinstance(x, str) and (not x or isinstance(y, str)) for x, y in zip(p, p[1:] + [None])):
        return f"{p} has empty or adjacent text"
    for f in PLAIN:
        for kw in ({}, {"printf_placeholders": True}):
            m = parse_message(f, s, **kw)
            if not isinstance(m, PatternMessage) or m.declarations or any(isinstance(x, Expression) for x in m.pattern) and not kw:
                return f"{f} gives {m}"
            if kw and not same(m.pattern, p):
                return f"{f} gives {m} instead of {p}"
            m0 = snap(m)
            if serialize_message(f, m) != s or serialize_message(f, m.pattern) != s:
                return f"{f} gives back {serialize_message(f, m)!r}"
            if not same(m, m0):
                return "the message was changed"
    return None


OPTIONS = {
    F.webext: [{"webext_placeholders": PLACEHOLDERS}],
    F.android: [{}, {"android_ascii_spaces": True}],
    F.xliff: [{}, {"xliff_is_xcode": True}],
    F.properties: [{}, {"printf_placeholders": True}],
}


def unambiguous(f, s):
    """is the text outside of what its format reads in more than one way"""
    if f == F.android:
        return "%<" not in s and "%&lt;" not in s
    return True


def norm(f, m):
    """adjacent texts are one, and empty ones none; with Fluent literals and the sources of Android placeholders as text"""
    m = snap(m)
    for p in [m.pattern] if isinstance(m, PatternMessage) else m.variants.values():
        out = []
        for x in p:
            if isinstance(x, Expression) and f == F.fluent and isinstance(x.arg, str) and not x.function:
                x = x.arg
            elif isinstance(x, Expression) and f == F.android and x.function == "html":
                x = x.arg
            elif isinstance(x, Expression) and f == F.android and "source" in x.attributes and "translate" not in x.attributes:
                x = x.attributes["source"]
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "":
                out.append(x)
        p[:] = out
    return m


def check_text(f, s):
    for kw in OPTIONS.get(f, [{}]):
        kw0 = snap(kw)
        try:
            m = parse_message(f, s, **kw)
        except Exception as e:
            if f == F.properties and s.strip(" \t\f\n\r") == s and not isinstance(e, ValueError):
                return f"raised {exc(e)}"
            continue
        if not same(kw, kw0):
            return "the placeholders were changed"
        if not unambiguous(f, s):
            continue
        m0 = snap(m)
        try:
            t = serialize_message(f, m)
        except Exception as e:
            if f == F.fluent and "Expression(None" in repr(m):
                continue
            return f"raised {exc(e)} for {m}"
        if not same(m, m0):
            return "the message was changed"
        try:
            m2 = parse_message(f, t, **kw)
        except Exception as e:
            return f"{m} is written as {t!r} which does not parse: {exc(e)}"
        d = diff(norm(f, m2), norm(f, m))
        if d:
            return f"{t!r} parses differently: {d}"
        t2 = serialize_message(f, m2)
        if t2 != t:
            return f"{t!r} is written again as {t2!r}"
    return None


def nontrivial(case):
    if case[0] == "printf":
        return True
    try:
        parse_message(case[1], case[2], **OPTIONS.get(case[1], [{}])[0])
    except Exception:
        return False
    return True


def check(case):
    return check_printf(case[1]) if case[0] == "printf" else check_text(*case[1:])
