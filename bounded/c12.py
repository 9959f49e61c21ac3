"""C12: DTD, INC and INI"""
import itertools, re
from moz.l10n.formats import Format
from moz.l10n.formats.dtd.parse import dtd_parse
from moz.l10n.formats.dtd.serialize import dtd_serialize
from moz.l10n.formats.inc.parse import inc_parse
from moz.l10n.formats.inc.serialize import inc_serialize
from moz.l10n.formats.ini.parse import ini_parse
from moz.l10n.formats.ini.serialize import ini_serialize
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import serialize_resource
from .common import cut, diff, exc, same, snap
from .gen import NASTY, string

CONTRACTS = ["line_formats"]
BUDGET = 20
LEVEL = "other"
RULE = "all values of up to 3 of 24 characters and tokens with 12 ids in each format; all arrangements of up to 4 of entries with and without comment, standalone comments and sections; random resources with strings of 60 characters and tokens, with and without trim_comments; random texts in all layouts of each syntax; each with what has to be refused; non-trivial: every resource which the format can carry"
EXPLANATION = "for all inputs: the ids, the lines of .inc and the entity declarations of DTD which are written meet their contracts; in addition resources are written and read back with the real functions and compared with the sections, entries, values and comments which the resource has, and texts put together from their syntax are compared with what they say; which strings a format can carry and which identifiers it must refuse is decided by the harness"

PARSE = {"dtd": dtd_parse, "inc": inc_parse, "ini": ini_parse}
SER = {"dtd": dtd_serialize, "inc": inc_serialize, "ini": ini_serialize}
ATOMS = ["", " ", "a", "B", "1", "-", "--", ".", "=", ":", "#", ";", "!", "'", '"', "<", ">", "&", "%", "\\", "\t", "\n", "é", "_", "[", "]", "rem", "&quot;", "%x;", "#define", "<!", "-->"]
IDS = [("a",), ("b",), ("a-b",), ("a.b",), ("é",), ("_1",), ("1",), ("#a",), (";a",), ("rem",), ("Remote",), ("a b",), (" a",), ("a=b",), ("a:b",), ("[a",), ("a]",), ("",), ("a", "b"), ("a\nb",), ('a"',), ("a>",), ("\u2028",), ("ab\n",), ("ab\r",)]
CIDS = [("a",), ("b",), ("c_d",), ("_e",), ("é1",)]
LINESEP = re.compile("[\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]")


def cases(r, tier, shard, shards):
    def small():
        toks = ["", " ", "a", "#", ";", "=", ":", "'", '"', "<", "-", "--", "\n", "\t", "&", "%", "\\", "rem", "[", "]", "é", "&quot;", "$", "{"]
        for f in PARSE:
            for x in REFUSE[f]:
                yield ("refuse", f, x)
            for i in IDS:
                for j in CIDS:
                    yield (f, Resource(Format[f], [Section(sec(f), [Entry(i, PatternMessage(["x"])), Entry(j, "y")])]), False)
            for n in (1, 2, 3):
                for x in itertools.product(toks, repeat=n):
                    if n < 3 or tier == "thorough" or hash(x) % 4 == 0:
                        yield (f, Resource(Format[f], [Section(sec(f), [Entry(("k",), PatternMessage(["".join(x)]), comment="c"), Entry(("l",), "z")])]), False)
            for n in range(0, 5 if tier == "thorough" else 4):
                for x in itertools.product("ecdsSm", repeat=n):
                    for rc in ("", "rc"):
                        yield (f, arrangement(f, x, rc), False)
                        yield (f, arrangement(f, x, rc), True)

    yield from cut(small(), shard, shards)
    while True:
        if r.random() < 0.03:
            yield ("bad", r.choice(list(PARSE)), r.randrange(7))
        elif r.random() < 0.3:
            f = r.choice(list(PARSE))
            yield ("text", f, *TEXTS[f](r))
        else:
            f = r.choice(list(PARSE))
            yield (f, resource(r, f), r.random() < 0.2)


def sec(f):
    return ("s",) if f == "ini" else ()


def arrangement(f, x, rc):
    res = Resource(Format[f], [Section(sec(f), [])], comment=rc)
    for n, k in enumerate(x):
        es = res.sections[-1].entries
        if k == "e":
            es.append(Entry((f"k{n}",), PatternMessage([f"v{n}"])))
        elif k == "c":
            es.append(Entry((f"k{n}",), f"v{n}", comment=f"c{n}"))
        elif k == "d":
            es.append(Comment(f"d{n}"))
        elif k == "m":
            es.append(Comment(f"d{n}\ne{n}\n\nf"))
        else:
            res.sections.append(Section((f"s{n}",) if f == "ini" else (), [], comment=f"t{n}" if k == "S" else ""))
    return res


def txt(r):
    return string(r, ATOMS if r.random() < 0.7 else NASTY, 6)


def com(r):
    k = r.random()
    return "" if k < 0.4 else r.choice(["c", "two words", "a\nb", "a\n\nb", "a\n  b", "  a", "#a", "# a", "a\n#b", "#a\nb", "# a\n#b\nc", "a--b", "-->", "a--><!ENTITY x \"y\">", "<!--", "--->", "a--"]) if k < 0.8 else txt(r)


# ------------------------------------------------------------------ texts with what they say: [resource comment, sections: [id, comment, items: (id, value, comment)]]
COMS = ["c", "two words", "é", "a-b", "x = y", "%", '"q"', "&amp;", "[z]"]


class Doc:
    """comments which wait for their entry, and what they become after a blank line"""

    def __init__(self, first):
        self.top, self.secs, self.com = "", [["", "", []]] if first else [], ""
        self.first = first

    def comment(self, c):
        self.com = self.com + "\n" + c if self.com else c

    def alone(self):
        if not self.com:
            return
        if self.secs and (not self.first or self.secs[-1][2] or self.top or self.first == "inc"):
            self.secs[-1][2].append((None, None, self.com))
        else:
            self.top = self.top + "\n\n" + self.com if self.top else self.com
        self.com = ""

    def entry(self, i, v):
        self.secs[-1][2].append((i, v, self.com))
        self.com = ""


def dtd_text(r):
    nl = r.choice(["\n", "\n", "\r\n"])
    d, out, meta = Doc("dtd"), "", []
    ws = lambda: r.choice([" ", " ", "  ", "\t", nl, nl + "  "])
    for n in range(r.choice([1, 2, 3, 5, 8])):
        k = r.random()
        if k < 0.15:
            out += nl + r.choice(["", " ", "\t"]) + nl
            d.alone()
        elif k < 0.45:
            c = r.choice(COMS + ["a" + nl + "b", "a" + nl + "   b"])
            out += "<!--" + r.choice(["", " ", nl, "  "]) + c + r.choice(["", " ", nl]) + "-->" + r.choice(["", " ", nl, nl])
            d.comment(c.replace("\r\n", "\n"))
        elif k < 0.53 and not d.com:
            m, q = f"m{n}", r.choice("'\"")
            out += f"<!ENTITY % {m} SYSTEM{ws()}{q}chrome://a{n}{q}{r.choice(['', ' '])}>{r.choice(['', ' ', nl])}%{m};{nl}"
            meta.append((m, f"chrome://a{n}"))
        else:
            i, q = r.choice(["a", "b.c", "_d", "é-1", "x:y", "ENTITY"]), r.choice("'\"")
            v = "".join(r.choice(["a", "B ", " ", nl, "é", "'", '"', "&b;", "&#37;", "<b>", ">", "%", "\\", "--", "\t", ";"]) for _ in range(r.choice([0, 1, 2, 3, 5]))).replace(q, "")
            out += r.choice(["", " ", ""]) + f"<!ENTITY{ws()}{i}{ws()}{q}{v}{q}{r.choice(['', '', ' ', nl])}>"
            d.entry(i, v)
            if r.random() < 0.25:
                out += r.choice(["", " ", "\t"]) + "<!-- t -->"
                i, v, c = d.secs[0][2][-1]
                d.secs[0][2][-1] = (i, v, c + "\nt" if c else "t")
                out += nl
            else:
                out += r.choice([nl, nl, nl, ""])
                if not out.endswith(nl):
                    out += r.choice([nl, "<!ENTITY z 'z'>" + nl])
                    if out.endswith("'z'>" + nl):
                        d.entry("z", "z")
    if d.com:
        d.secs[0][2].append((None, None, d.com))
    return out, [d.top, d.secs], meta


def inc_text(r):
    nl = r.choice(["\n", "\n", "\r\n"])
    d, out = Doc("inc"), ""
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        k = r.random()
        if k < 0.2:
            out += r.choice(["", " ", "\t"]) + nl
            d.alone()
        elif k < 0.45:
            c = r.choice(COMS + ["", "#x", "# x"])
            out += "# " * (c != "" or r.random() < 0.5) + r.choice(["", " "] if c and c[0] != "#" else [""]) + c if c else r.choice(["#", "# "])
            out += nl
            d.comment(("# " + c if c[:1] == "#" else c))
        elif k < 0.55:
            c = r.choice(["#filter emptyLines", "#unfilter emptyLines", "#x", "#if 1"])
            out += c + nl
            d.alone()
            d.secs[0][2].append((None, None, c))
        else:
            i = r.choice(["a", "MOZ_x", "é1", "_", "9"])
            v = "".join(r.choice(["a", "B ", " ", "é", "'", '"', "#", "<em:a>", "\\", "--", "\t", "%"]) for _ in range(r.choice([0, 1, 2, 3, 5])))
            out += "#define" + r.choice([" ", "  ", "\t"]) + i + (r.choice([" ", "\t"]) + v if v or r.random() < 0.5 else "") + nl
            d.entry(i, v)
    d.alone()
    if r.random() < 0.3:
        out = out.removesuffix(nl)
    return out, [d.top, d.secs], []


def ini_text(r):
    nl = r.choice(["\n", "\n", "\r\n"])
    d, out = Doc(""), ""
    line = lambda: r.choice(["a", "B c", "é", "x = y", "a:b", "c;d", "'e' \"f\"", "#g", "\\n", "%x", "[z]"])
    val = False
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        k = r.random()
        if k < 0.15:
            out += nl
            d.alone()
        elif k < 0.35:
            c = r.choice(COMS)
            out += r.choice([";", "#", "; ", "# ", "rem ", "REM "]) + c + nl
            d.comment(c)
        elif k < 0.5 or not d.secs:
            i = r.choice(["s", "T u", "é", "a.b", "x-y", " v "])
            out += f"[{i}]"
            c = ""
            if r.random() < 0.2:
                out += " ; x"
                d.comment("x")
            out += nl
            d.secs.append([i, d.com, []])
            d.com = ""
        else:
            i = r.choice(["a", "b.c", "é", "x y", "Rx", "_"])
            v = line() if r.random() < 0.85 else ""
            if v[:1] in "#":
                v = "h"
            out += i + r.choice(["=", " = ", ":", " : ", "= "]) + v
            if v and ";" not in v and r.random() < 0.15:
                out += " ;" + r.choice(["t", " t"])
                d.comment("t")
            out += nl
            while r.random() < 0.25:
                if r.random() < 0.3 and v:
                    n = r.choice([1, 2])
                    out += nl * n
                    v += "\n" * n
                x = line()
                out += r.choice([" ", "   ", "\t"]) + x + nl
                v += "\n" + x
            d.entry(i, v)
    d.alone()
    if r.random() < 0.3:
        out = out.removesuffix(nl)
    return out, [d.top, d.secs], []


REFUSE = {"dtd": ["x", "<!ENTITY a b>", '<!ENTITY a "b', "<!ENTITY a 'b'> x", "<!-- c", '<!ENTITY 1 "b">', '<!ENTITY a"b">', "%x;", '<!ENTITY % a SYSTEM "b"> %c;', "<!-- c --> x <!-- d -->"],
          "inc": ["x", "a b\n", "#define a b\nc", " #define a b", "\\"],
          "ini": ["a=b\n", "x", "[a]x\nb=c", "[a]\nb\n", "[a]\n#x\n b\n", "[a]\n b\n"]}
TEXTS = {"dtd": dtd_text, "inc": inc_text, "ini": ini_text}


def check_text(f, t, want, meta):
    try:
        got = PARSE[f](t)
        again = PARSE[f](t.encode())
        if f == "ini":
            from io import StringIO

            again = again if not same(again, got) else ini_parse(StringIO(t))
    except Exception as e:
        return f"{t!r} raised {exc(e)}"
    if not same(got, again):
        return f"{t!r}: its bytes parse differently"
    have = [got.comment, [[".".join(s.id), s.comment, [(e.id[0], value(e), e.comment) if isinstance(e, Entry) else (None, None, e.comment) for e in s.entries]] for s in got.sections]]
    if have != want:
        return f"{t!r} was read as {have} instead of {want}"
    m = [(x.key, x.value) for x in got.meta]
    return None if m == meta else f"{t!r} has the metadata {m} instead of {meta}"


def resource(r, f):
    good = r.random() < 0.85
    secs, seen = [], 0
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        es = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            if r.random() < 0.2:
                es.append(Comment(com(r)))
                continue
            i = r.choice(CIDS) if good or r.random() < 0.7 else r.choice(IDS) if r.random() < 0.7 else (txt(r),)
            v = txt(r) if r.random() < 0.5 else " ".join(r.choice(["a", "B", "é", "x y", "it's", '"q"', "&amp;", "50%", "\\n"]) for _ in range(r.randrange(4)))
            es.append(Entry(i, r.choice([v, PatternMessage([v]), PatternMessage([v, "x"]), PatternMessage([])]), comment=com(r)))
        s = (r.choice(["s", "t", "u v", "é", "Rem"]),) if f == "ini" else ()
        if r.random() < (0.2 if f == "dtd" else 0.02):
            s = r.choice([("p",), ("p", "q"), ("-",)])
        secs.append(Section(s, es, comment=com(r)))
    m = [Metadata(r.choice(["brandDTD", "x", "" if not good else "y", "a b" if not good else "z"]), r.choice(["chrome://a/b.dtd", txt(r)])) for _ in range(r.choice([1, 2]))] if f == "dtd" and r.random() < 0.2 else []
    return Resource(r.choice([None, Format[f]]), secs, comment=com(r), meta=m)


def value(e):
    return e.value if isinstance(e.value, str) else "".join(e.value.pattern)


def ident(f, s, e):
    return ".".join((*s.id, *e.id)) if f == "dtd" else ".".join(e.id)


NAME = "[:A-Z_a-zÀ-ÖØ-öø-˿Ͱ-ͽͿ-\u1fff\u200c\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd][-.0-9·̀-ͯ‿⁀:A-Z_a-zÀ-ÖØ-öø-˿Ͱ-ͽͿ-\u1fff\u200c\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffd]*"


def id_state(f, res):
    """ok: has to be written; bad: has to be refused; either"""
    state = "ok"
    for s in res.sections:
        if f == "inc" and s.id or f == "ini" and not s.id:
            return "bad"
        if f == "ini":
            n = ".".join(s.id)
            if re.search(r"[\n=:\[\]]|^$", n) or n != n.strip():
                if re.search(r"[\n\]]|^$", n):
                    return "bad"
                state = "either"
        for e in s.entries:
            if isinstance(e, Entry):
                n = ident(f, s, e)
                if f == "dtd":
                    good = re.fullmatch(NAME, n)
                elif f == "inc":
                    good = len(e.id) == 1 and n != "" and all(c == "_" or c.isalnum() for c in n)
                else:
                    good = n != "" and n == n.strip() and not re.search(r"[\n=:]", n) and n[0] not in "#;[" and n[:3].lower() != "rem"
                    if good and "]" in n or "[" in n:
                        state = "either"
                if not good:
                    return "bad"
    if f == "dtd" and any(not re.fullmatch(NAME, m.key) for m in res.meta):
        return "bad"
    return state


def carries(f, res):
    """can the format hold these strings"""
    coms = [res.comment] + [c for s in res.sections for c in [s.comment] + [e.comment for e in s.entries]]
    vals = [value(e) for s in res.sections for e in s.entries if isinstance(e, Entry)]
    if f == "dtd":
        return not any("<!" in c or LINESEP.sub("", c.replace("\n", "")) != c.replace("\n", "") for c in coms) and not any(re.search(r"<!\s*--", v) for v in vals + [m.value for m in res.meta])
    if f == "inc":
        for s in res.sections:
            for e in s.entries:
                if isinstance(e, Entry) and any(l.startswith("#") for l in e.comment.split("\n")):
                    return False
        if any(l.startswith("#") for c in [res.comment] + [s.comment for s in res.sections] for l in c.split("\n")):
            return False
        cs = [c.replace("\n", "") for c in coms]
        if any(l.strip().startswith("#") and (len(c.strip("\n").split("\n")) > 1 or not re.match("#[a-z]", l) or "#define" in l or l != l.rstrip()) for c in coms for l in c.split("\n")):
            return False
        return not any(LINESEP.search(c) for c in cs) and not any(LINESEP.search(v) for v in vals)
    for v in vals:
        if v != v.rstrip() or LINESEP.search(v.replace("\n", "")):
            return False
        for n, l in enumerate(v.split("\n")):
            if l != l.strip() or n == 0 and re.search(r"\s;", l):
                return False
    return not any(LINESEP.search(c.replace("\n", "")) for c in coms)


def ctext(f, c):
    """a comment up to white space the formats do not keep"""
    if f == "dtd":
        c = c.replace("--", "-\u200b-\u200b")
    ls = c.strip("\n").split("\n")
    ls = [l.strip() if f != "ini" else l.rstrip() for l in ls]
    return "\n".join(ls).strip("\n")


def want(f, res, trim):
    out = Resource(Format[f], [Section((), [])] if f != "ini" else [], meta=[Metadata(m.key, quotes(m.value)) for m in res.meta])
    heads = []

    def put(c):
        c = "" if trim and not (f == "inc" and re.match("#[a-z]", c)) else ctext(f, c)
        if not c.strip():
            return
        if f == "ini":
            if out.sections:
                out.sections[-1].entries.append(Comment(c))
            else:
                out.comment = c if not out.comment else out.comment + "\n\n" + c
        elif f == "dtd" and not out.sections[0].entries and not out.comment:
            out.comment = c
        else:
            out.sections[0].entries.append(Comment(c))

    put(res.comment)
    for s in res.sections:
        if f == "ini":
            out.sections.append(Section((".".join(s.id),), [], comment="" if trim else ctext(f, s.comment)))
        else:
            put(s.comment)
        for e in s.entries:
            if isinstance(e, Comment):
                put(e.comment)
            else:
                v = value(e)
                v = quotes(v) if f == "dtd" else v
                p = [v] if v or f != "inc" else []
                out.sections[-1].entries.append(Entry((ident(f, s, e),), PatternMessage(p), comment="" if trim else ctext(f, e.comment)))
    return out


def quotes(v):
    return v.replace('"', "&quot;") if '"' in v and "'" in v else v


def norm(f, res):
    res.comment = ctext(f, res.comment)
    for s in res.sections:
        s.comment = ctext(f, s.comment)
        for e in s.entries:
            e.comment = ctext(f, e.comment)
    return res


SEL = SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {(CatchallKey(),): ["x"]})


def check_bad(f, n):
    e = Entry(("k",), PatternMessage(["v"]))
    s = Section(sec(f), [e])
    res = Resource(None, [s])
    if n == 0:
        res.meta = [Metadata("k", "v")] if f != "dtd" else [Metadata("k l", "v")]
    elif n == 1:
        s.meta = [Metadata("k", "v")]
    elif n == 2:
        e.meta = [Metadata("k", "v")]
    elif n == 3:
        e.value = SEL
    elif n == 4:
        e.value = PatternMessage(["a", Expression(VariableRef("b"))])
    elif n == 5:
        if f == "dtd":
            e.id = ()
        else:
            s.id = () if f == "ini" else ("s",)
    else:
        e.id = ("a", "b c\nd")
    try:
        t = "".join(SER[f](res))
    except ValueError:
        return None
    except Exception as x:
        return f"raised {exc(x)}"
    return f"was written as {t!r}"


def kept(f, res):
    """what a file has to say, one item per entry and line of a comment"""
    out = []

    def put(c):
        if f == "inc":
            out.extend(x for x in (re.sub(r"^[#\s]+", "", l).strip() for l in c.split("\n")) if x)

    put(res.comment)
    for s in res.sections:
        put(s.comment)
        for e in s.entries:
            put(e.comment)
            if isinstance(e, Entry):
                out.append((ident(f, s, e), quotes(value(e)) if f == "dtd" else value(e)))
    return out


def check_kept(f, res, t):
    """comments the format has to rewrite: entries stay the same, and no line of a comment is lost"""
    coms = [res.comment] + [c for s in res.sections for c in [s.comment] + [e.comment for e in s.entries]]
    vals = [value(e) for s in res.sections for e in s.entries if isinstance(e, Entry)] + [m.value for m in res.meta]
    if f == "ini" or any(LINESEP.search(c.replace("\n", "")) or "#define" in c for c in coms):
        return None
    if any(LINESEP.search(v) for v in vals) if f == "inc" else any("<!" in v or "--" in v for v in vals):
        return None
    try:
        got = kept(f, PARSE[f](t))
    except Exception as e:
        return f"{t!r} does not parse: {exc(e)}"
    want = kept(f, res)
    return None if got == want else f"{t!r} parses to {got} instead of {want}"


def nontrivial(case):
    return case[0] in ("bad", "refuse", "text") or (id_state(case[0], case[1]) == "ok" and carries(case[0], case[1]))


def check(case):
    if case[0] == "bad":
        return check_bad(case[1], case[2])
    if case[0] == "refuse":
        try:
            return f"{case[2]!r} was read as {PARSE[case[1]](case[2])}"
        except Exception as e:
            return None if isinstance(e, ValueError) or "iniparse" in type(e).__module__ or "configparser" in type(e).__module__ else f"{case[2]!r} raised {exc(e)}"
    if case[0] == "text":
        return check_text(*case[1:])
    f, res, trim = case
    res = snap(res)
    res0 = snap(res)
    ids, can = id_state(f, res), carries(f, res)
    try:
        t = "".join(SER[f](res, trim_comments=trim))
    except ValueError as e:
        return f"refused with {exc(e)}" if ids == "ok" else None
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(res, res0):
        return "the resource was changed"
    if ids == "bad":
        return f"was written as {t!r} although the format does not allow its identifiers"
    if trim and not can and not (f == "inc" and any(l.strip().startswith("#") for c in [res.comment] + [x.comment for s in res.sections for x in [s, *s.entries]] for l in c.split("\n"))):
        for s in res.sections:
            for e in s.entries:
                e.comment = "" if isinstance(e, Entry) else "#filter"
            s.comment = ""
        res.comment = ""
        can = carries(f, res)
    if not can:
        return None if trim or ids != "ok" else check_kept(f, res0, t)
    if res.format is not None and "".join(serialize_resource(snap(res0), trim_comments=trim)) != t:
        return "serialize_resource writes something else"
    try:
        got = PARSE[f](t)
        again = PARSE[f](t.encode())
    except Exception as e:
        return f"{t!r} does not parse: {exc(e)}"
    if not same(got, again):
        return "bytes parse differently"
    if trim:
        c = [got.comment] + [x for s in got.sections for x in [s.comment] + [e.comment for e in s.entries]]
        if any(x and not (f == "inc" and x.startswith("#")) for x in c):
            return f"comments in {t!r}"
    if f == "ini" and not (res.comment or res.sections):
        return None if t == "" else f"{t!r} for an empty resource"
    d = diff(norm(f, got), want(f, res0, trim))
    return f"{t!r}: {d}" if d else None
