"""C13: gettext"""
import itertools, os, re, tempfile
from moz.l10n.formats import Format
from moz.l10n.formats.gettext.parse import gettext_parse
from moz.l10n.formats.gettext.serialize import gettext_serialize
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.resource import serialize_resource
from .common import cut, diff, exc, same, snap
from .gen import NASTY, string

CONTRACTS = ["gettext"]
BUDGET = 20
LEVEL = "other"
RULE = "all messages of up to 3 of 17 characters and tokens as id, context and value; all plural messages over up to 3 of 5 keys with 4 headers and with named plurals; all combinations of 8 metadata items; random resources with strings of 60 characters and tokens and with long strings; each with what has to be refused; non-trivial: every resource gettext can express"
ASSUMPTIONS = ['polib.pofile gives the entries, header and metadata of the file; POFile and POEntry show the attributes that they are given (contracts of polib are assumed, and exercised at run time by the bounded part)']
EXPLANATION = "for all inputs, over an assumed contract of polib: the entries, plural forms and metadata read from a file, and what polib is given to write for entries without plurals, meet their contracts; in addition resources are written and read back with the real functions and compared with the entries, plural forms and metadata they have; which resources have to be refused is decided by the harness. Texts with line separators other than \\n are read from a file, as polib can not read them from a string"

V = VariableRef
CLEAN = [a for a in NASTY if not re.search("[\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]", a)]
PF = "nplurals={}; plural=(n != 1);"


def sel(variants, fn="number", opts={}, decl="n", arg="n"):
    return SelectMessage({decl: Expression(V(arg), fn, dict(opts))}, (V(decl),), variants)


METAS = [("translator-comments", "t"), ("reference", "a.c:1"), ("reference", "b"), ("flag", "fuzzy"), ("flag", "c-format"), ("plural", "as"), ("obsolete", "true"), ("obsolete", "false")]


def cases(r, tier, shard, shards):
    def small():
        toks = ["", " ", "a", "\\", '"', "\n", "\t", "\r", "n", "\x0b", "\x08", "%", "#", "é", "[", "msgid", "\u2028"]
        for n in (1, 2, 3):
            for x in itertools.product(toks, repeat=n):
                if n < 3 or tier == "thorough" or hash(x) % 4 == 0:
                    s = "".join(x)
                    yield one([Entry((s,), "v"), Entry(("b", s), "v"), Entry(("c",), s), Entry(("d",), PatternMessage([s]), meta=[Metadata("plural", s)])])
        keys = ["0", "1", "2", CatchallKey(None), CatchallKey("1"), CatchallKey("x"), "one", "x", "-1"]
        for n in (1, 2, 3):
            for ks in itertools.permutations(keys, n):
                try:
                    m = sel({(k,): [f"v{i}"] for i, k in enumerate(ks)})
                except Exception:
                    continue
                for np in (None, "1", "2", "4"):
                    md = [] if np is None else [Metadata("Plural-Forms", PF.format(np))]
                    yield one([Entry(("a",), m, meta=[Metadata("plural", "as")])], md)
                    yield one([Entry(("a",), m, meta=[Metadata("plural", "as")])], md, plurals=["one", "two", "x", "other"])
        for n in range(len(METAS) + 1):
            for ms in itertools.combinations(METAS, n):
                if len({k for k, _ in ms if k == "obsolete"}) <= 1:
                    for c in ("", "c"):
                        for trim in (False, True):
                            yield one([Entry(("a",), "v"), Entry(("b",), "w", comment=c, meta=[Metadata(*m) for m in ms]), Entry(("c",), "v", comment="d")], trim=trim)

    yield from cut(small(), shard, shards)
    while True:
        if r.random() < 0.04:
            yield ("bad", r.randrange(14))
        elif r.random() < 0.25:
            yield po_text(r)
        else:
            yield resource(r)


def one(es, meta=(), plurals=None, trim=False):
    return ("res", Resource(Format.gettext, [Section((), es)], meta=list(meta)), plurals, trim)


def txt(r):
    k = r.random()
    if k < 0.1:
        return " ".join(r.choice(["word", "a-b", 'q"', "\\n", "a\\", "x\ty", "é"]) for _ in range(r.randrange(60)))
    return string(r, NASTY, 6) if k < 0.7 else r.choice(["a", "b", "x y", "%d files", "line\n", "a\nb\n"])


ESC = {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r"}


def quoted(r, s):
    """a string as PO syntax, on one or more lines"""
    q = "".join(ESC.get(c, c) for c in s)
    if r.random() < 0.6:
        return f'"{q}"'
    parts, cur = [], ""
    for x in re.findall(r"\\.|[^\\]", q):
        cur += x
        if r.random() < 0.2:
            parts.append(cur)
            cur = ""
    return "\n".join(f'"{x}"' for x in [""] * r.randrange(2) + [*parts, cur])


def po_text(r):
    """a PO file and what it says"""
    plurals = r.choice([None, None, ["zero", "one", "two", "other", "x", "y"]])
    def t(n=4):
        return string(r, [c for c in CLEAN if all(ord(x) >= 32 and ord(x) != 127 for x in c)] + ["a", "b", " ", "\n", "\t", "\\", '"', "%d"], n)
    def line():
        return r.choice(["c", "two words", "é", "a: b", "x  y"])
    out, es, seen = ['msgid ""\nmsgstr ""\n"Language: xx\\n"\n"Plural-Forms: nplurals=2; plural=(n != 1);\\n"\n'], [], set()
    head = r.choice(["", "", "# h", "# h\n# i", "#\n# h\n#\n# i"])
    if head:
        out[0] = head + "\n" + out[0]
    for _ in range(r.choice([1, 2, 3])):
        obs = r.random() < 0.2
        i = (t() or "i",) if r.random() < 0.6 else (t() or "j", t() or "ctx")
        if i in seen:
            continue
        seen.add(i)
        lines, meta, com = [], [], ""
        tc = [line() for _ in range(r.choice([0, 0, 1, 2]))]
        if tc:
            lines += ["# " + x for x in tc]
            meta.append(Metadata("translator-comments", "\n".join(tc)))
        if not obs:
            ec = [line() for _ in range(r.choice([0, 0, 1, 2]))]
            lines += ["#. " + x for x in ec]
            com = "\n".join(ec)
            rs = [r.choice(["a.c:1", "b/c.py:22", "x", "d.h:3"]) for _ in range(r.choice([0, 0, 1, 2, 3]))]
            meta += [Metadata("reference", x) for x in rs]
            while rs:
                n = r.choice([1, 2, 3])
                lines.append("#: " + " ".join(rs[:n]))
                rs = rs[n:]
        else:
            meta.append(Metadata("obsolete", "true"))
        fl = r.sample(["fuzzy", "c-format", "no-wrap"], r.choice([0, 0, 1, 2]))
        if fl:
            lines.append("#, " + ", ".join(fl))
            meta += [Metadata("flag", x) for x in fl]
        if not obs and r.random() < 0.1:
            lines.append('#| msgid "old"')
        o = "#~ " if obs else ""
        def put(k, s):
            lines.extend(o + x for x in f"{k} {quoted(r, s)}".split("\n"))
        if len(i) == 2:
            put("msgctxt", i[1])
        put("msgid", i[0])
        if r.random() < 0.4:
            p = t() or "p"
            put("msgid_plural", p)
            meta.append(Metadata("plural", p))
            ks = r.sample(range(6), r.choice([1, 2, 2, 3, 4])) if r.random() < 0.3 else list(range(r.choice([1, 2, 3, 4])))
            v = {k: t() for k in ks}
            for k in ks:
                put(f"msgstr[{k}]", v[k])
            names = plurals or [str(x) for x in range(6)]
            m = max(ks)
            val = sel({(names[k] if k < m else CatchallKey(names[k]),): [v[k]] if k in v else [] for k in range(m + 1)})
        else:
            v = t()
            put("msgstr", v)
            val = PatternMessage([v])
        out.append("\n".join(lines) + "\n")
        es.append(Entry(i, val, comment=com, meta=meta))
    comment = "\n".join(x[1:].strip() for x in head.split("\n")).strip()
    return ("po", "\n".join(out), Resource(Format.gettext, [Section((), es)], comment, [Metadata("Language", "xx"), Metadata("Plural-Forms", PF.format(2))]), plurals)


def com(r):
    k = r.random()
    return "" if k < 0.5 else r.choice(["c", "two words", "a\nb", "a\n\nb", "# a", "  a\n b", ". a", ", a", "msgid"]) if k < 0.8 else string(r, CLEAN + ["\n"], 5)


def resource(r):
    plurals = r.choice([None, None, None, ["one", "other"], ["one", "two", "few", "other"]])
    np = r.choice([None, 1, 2, 3, 4, 4, 10]) if plurals is None else r.choice([None, 1, len(plurals)])
    meta = [] if np is None else [Metadata("Plural-Forms", r.choice([PF.format(np), f"nplurals={np};plural=0;"]))]
    for k in ("Project-Id-Version", "Language", "X-Y", "Zz"):
        if r.random() < 0.3:
            meta.insert(r.randrange(len(meta) + 1), Metadata(k, string(r, CLEAN, 4).strip()))
    es = []
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        i = (txt(r) or "i",) if r.random() < 0.7 else (txt(r), txt(r))
        names = plurals or [str(x) for x in range(np or 3)]
        if r.random() < 0.5:
            v = txt(r)
            v = r.choice([v, PatternMessage([v]), PatternMessage([v, "x"]), PatternMessage([])])
        else:
            ks = r.sample(names, r.randrange(len(names)))
            rest = [n for n in names if n not in ks]
            ks.append(CatchallKey(r.choice([None, rest[-1], rest[0]])))
            if r.random() < 0.3:
                r.shuffle(ks)
            v = sel({(k,): [txt(r)] if r.random() < 0.8 else r.choice([[], ["a", "b"]]) for k in ks})
        m = []
        if isinstance(v, SelectMessage) and r.random() < 0.9 or r.random() < 0.1:
            m.append(Metadata("plural", txt(r)))
        for _ in range(r.choice([0, 0, 1, 3])):
            k = r.choice(["translator-comments", "reference", "reference", "flag", "obsolete"])
            m.insert(r.randrange(len(m) + 1), Metadata(k, com(r) if k == "translator-comments" else r.choice(["a.c:1", "b/c.py:22", "x", "a:b", "1:2:3", "é"]) if k == "reference" else r.choice(["fuzzy", "c-format", "x y"]) if k == "flag" else r.choice(["true", "", "false"])))
        es.append(Entry(i, v, comment=com(r), meta=m))
    secs = [Section((), es)] if r.random() < 0.8 else [Section((), es[:1]), Section((), es[1:])]
    return ("res", Resource(r.choice([None, Format.gettext]), secs, comment=com(r), meta=meta), plurals, r.random() < 0.15)


def forms(msg, plurals, nplurals):
    """{index: text} or None if gettext has no such plural"""
    names = plurals or [str(i) for i in range(max(nplurals, len(msg.variants)))]
    out = {}
    for (k,), p in msg.variants.items():
        n = k if isinstance(k, str) else k.value if k.value in names else names[-1]
        if n not in names or names.index(n) in out:
            return None
        out[names.index(n)] = "".join(p)
    return {i: out.get(i, "") for i in range(max(nplurals - 1, *out) + 1)}


def clean_lines(c):
    return [l.rstrip() for l in c.strip("\n").rstrip().split("\n")]


def carries(res):
    """comments, references and so on which the syntax can hold; the rest is escaped"""
    for l in clean_lines(res.comment):
        if l[:1] in (",", ":") or re.search("[\r]", l):
            return False
    for m in res.meta:
        if re.search("[\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]", m.value) or m.value != m.value.strip():
            return False
    for s in res.sections:
        for e in s.entries:
            for l in e.comment.split("\n") + [l for m in e.meta if m.key == "translator-comments" for l in m.value.split("\n")]:
                if len(l) > 190 or "\r" in l:
                    return False
    return True


def want(res, plurals, trim):
    n = 1
    for m in res.meta:
        if m.key == "Plural-Forms":
            n = int(re.search(r"nplurals=(\d+)", m.value)[1])
    es = []
    for s in res.sections:
        for e in s.entries:
            by = {}
            for m in e.meta:
                by.setdefault(m.key, []).append(m.value)
            if trim:
                by = {k: v for k, v in by.items() if k in ("plural", "obsolete")}
            obsolete = by.get("obsolete", ["false"])[-1] != "false"
            if isinstance(e.value, SelectMessage) and forms(e.value, plurals, n) is None:
                return None
            if obsolete and trim:
                continue
            meta = []
            t = ""
            for x in by.get("translator-comments", []):
                c = "\n".join(clean_lines(x))
                t = f"{t}\n{c}" if t else c
            if t:
                meta.append(Metadata("translator-comments", t))
            if not obsolete:
                meta += [Metadata("reference", x) for x in by.get("reference", [])]
            if obsolete:
                meta.append(Metadata("obsolete", "true"))
            meta += [Metadata("flag", x) for x in by.get("flag", [])]
            if by.get("plural", [""])[-1]:
                meta.append(Metadata("plural", by["plural"][-1]))
            v = e.value
            if isinstance(v, SelectMessage):
                f = forms(v, plurals, n)
                if f is None:
                    return None
                ks = [plurals[i] if plurals else str(i) for i in f]
                v = sel({(k if i + 1 < len(ks) else CatchallKey(k),): [f[i]] for i, k in enumerate(ks)})
            else:
                v = PatternMessage([v if isinstance(v, str) else "".join(v.pattern)])
            i = e.id if len(e.id) == 2 and e.id[1] else e.id[:1]
            if i == ("",) and not obsolete:
                return None
            es.append(Entry(i, v, comment="" if obsolete or trim else "\n".join(l for l in clean_lines(e.comment) if l.strip()), meta=meta))
    return Resource(Format.gettext, [Section((), es)], "" if trim else "\n".join(clean_lines(res.comment)).strip("\n"), list(res.meta))


def norm(res):
    """up to white space of comment lines"""
    def lines(c, drop=False):
        ls = [l.strip() for l in c.split("\n")]
        return "\n".join(l for l in ls if l or not drop).strip("\n")
    res.comment = lines(res.comment)
    res.meta.sort(key=lambda m: m.key)
    for e in res.sections[0].entries:
        e.comment = lines(e.comment, True)
        for m in e.meta:
            if m.key == "translator-comments":
                m.value = lines(m.value)
        e.meta = [m for m in e.meta if m.key != "translator-comments" or m.value]
    return res


SELS = [
    sel({("0",): ["a"], (CatchallKey("1"),): ["b"]}, fn="string"),
    sel({("0",): ["a"], (CatchallKey("1"),): ["b"]}, opts={"type": "ordinal"}),
    sel({("0",): [Expression(V("n"))], (CatchallKey("1"),): ["b"]}),
    SelectMessage({"n": Expression(V("n"), "number"), "m": Expression(V("m"), "number")}, (V("n"), V("m")), {(CatchallKey(), CatchallKey()): ["x"]}),
    SelectMessage({"n": Expression(V("n"), "number"), "m": Expression(V("m"), "number")}, (V("n"),), {(CatchallKey(),): ["x"]}),
]


def check_bad(n):
    e = Entry(("k",), PatternMessage(["v"]))
    s = Section((), [Entry(("j",), "x"), e])
    res = Resource(None, [s])
    what = ["select"] * 5 + ["placeholder", "markup", "section comment", "section metadata", "section id", "standalone comment", "entry metadata", "no id", "long id"]
    if n < 5:
        e.value = SELS[n]
    elif n == 5:
        e.value = PatternMessage(["a", Expression(V("b"))])
    elif n == 6:
        e.value = PatternMessage([Markup("open", "b")])
    elif n == 7:
        s.comment = "c"
    elif n == 8:
        s.meta = [Metadata("k", "v")]
    elif n == 9:
        s.id = ("s",)
    elif n == 10:
        s.entries.append(Comment("c"))
    elif n == 11:
        e.meta = [Metadata("k", "v")]
    else:
        e.id = () if n == 12 else ("a", "b", "c")
    try:
        t = "".join(gettext_serialize(res))
    except ValueError:
        return None
    except Exception as x:
        return f"{what[n]}: raised {exc(x)}"
    return f"{what[n]}: was written as {t!r}"


def check(case):
    if case[0] == "bad":
        return check_bad(case[1])
    if case[0] == "po":
        _, t, want_, plurals = case
        try:
            got = gettext_parse(t, plurals=plurals)
        except Exception as e:
            return f"{t!r} raised {exc(e)}"
        d = diff(norm(got), norm(snap(want_)))
        return f"{t!r} was read with {d}" if d else None
    _, res, plurals, trim = case
    res0 = snap(res)
    w = want(res, plurals, trim)
    try:
        t = "".join(gettext_serialize(res, plurals=plurals, trim_comments=trim))
    except ValueError as e:
        return f"refused with {exc(e)}" if w is not None else None
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(res, res0):
        return "the resource was changed"
    if w is None:
        return f"was written as {t!r} although gettext has no such message"
    if res.format is not None and "".join(serialize_resource(res, gettext_plurals=plurals, trim_comments=trim)) != t:
        return "serialize_resource writes something else"
    if not (trim or carries(res)):
        return None
    try:
        if re.search("[\x0b\x0c\x1c-\x1e\x85\u2028\u2029]", t):
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "a.po")
                with open(p, "w", encoding="utf-8", newline="") as f:
                    f.write(t)
                got = gettext_parse(p, plurals=plurals)
        else:
            got = gettext_parse(t, plurals=plurals)
            if not same(gettext_parse(t.encode(), plurals=plurals), got):
                return "bytes parse differently"
            rest = gettext_parse(t, plurals=plurals, skip_obsolete=True)
            live = [e for e in got.sections[0].entries if Metadata("obsolete", "true") not in e.meta]
            if not same(rest.sections[0].entries, live):
                return "skip_obsolete gives other entries"
    except Exception as e:
        return f"{t!r} does not parse: {exc(e)}"
    d = diff(norm(got), norm(w))
    return f"{t!r}: {d}" if d else None


def nontrivial(case):
    return case[0] in ("bad", "po") or want(case[1], case[2], case[3]) is not None
