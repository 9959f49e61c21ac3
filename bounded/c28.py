"""C28: the source lines of parsed entries"""
import random, re
from moz.l10n.formats.fluent.parse import fluent_parse
from moz.l10n.formats.properties.parse import properties_parse
from moz.l10n.model import Entry
from moz.l10n.resource import parse_resource
from .c10 import text_case
from .common import exc

CONTRACTS = ["linepos"]
BUDGET = 15
LEVEL = "other"
RULE = "random .properties and Fluent texts put together from entries, comments and blank lines, with \\n, \\r\\n (and \\r for .properties) at the ends of lines, with and without one at the end; non-trivial: every text with an entry"
EXPLANATION = "texts are put together line by line, so the lines of every entry, comment and section are known, and compared with the ones the real parsers give; the lookup of lines of Fluent positions is proved, and that every step of the .properties parser moves forward, reports the line it starts on and counts the line ends it passes"


def fluent_case(r):
    out, items, secs, first = [], [], [], True

    def add(*ls):
        n = len(out) + 1
        out.extend(ls)
        return n

    def value(ind):
        """text after "=", additional lines"""
        k = r.random()
        if k < 0.4:
            return " v" + r.choice(["", " ", "  "]), []
        if k < 0.6:
            return " v", [f"{ind}  w{i}" if r.random() < 0.8 or i == 1 else "" for i in range(2)]
        if k < 0.8:
            return "", [""] * r.choice([0, 0, 1]) + [f"{ind}  w" for _ in range(r.choice([1, 2]))]
        if k < 0.9:
            return " { $x ->", [f"{ind}   [a] b", f"{ind}  *[c] d", f"{ind} }}"]
        return "", [f"{ind} {{ $x ->", f"{ind}  *[c]", f"{ind}    d", f"{ind}  }}" + r.choice(["", " e"])]

    def first_line(v, more):
        return 0 if v.strip() else next(i for i, x in enumerate(more) if x.strip()) + 1

    for i in range(r.choice([1, 2, 3, 5])):
        k = r.random()
        for _ in range(r.choice([0, 0, 1, 2])):
            add(r.choice(["", "", "  "]))
        if k < 0.65:
            start = None
            if r.random() < 0.35:
                start = add(*["# c"] * r.choice([1, 2, 3]))
            name = r.choice(["", "-"]) + f"m{i}"
            attrs = r.choice([0, 0, 1, 2])
            if r.random() < 0.2 and attrs and name[0] != "-":
                key = val = add(f"{name} =")
            else:
                v, more = value("")
                key = add(f"{name} ={v}", *more)
                val = key + first_line(v, more)
            end = len(out) + 1
            for a in range(attrs):
                v, more = value("    ")
                add(f"    .a{a} ={v}", *more)
                end = len(out) + 1
            items.append(((name,), (start or key, key, val, end)))
            first = False
        elif k < 0.8:
            n = add(*["# alone"] * r.choice([1, 2]), "")
            if not first:
                items.append((None, (n, n, n, len(out))))
            first = False
        elif k < 0.95:
            n = add(*["## g"] * r.choice([1, 2]), "")
            secs.append((n, n, n, len(out)))
            first = False
        else:
            add("### r", "")
            first = False
    text = r.choice(["\n", "\n", "\r\n"]).join(out)
    if r.random() < 0.6:
        text += "\n" if "\r" not in text else "\r\n"
    return text, items, secs


def cases(r, tier, shard, shards):
    while True:
        t, items, _ = text_case(r)
        yield ("properties", t, [(None if x[0] is None else (x[0],), x[3]) for x in items], [])
        yield ("fluent", *fluent_case(r))


def lp(x):
    return x and (x.start, x.key, x.value, x.end)


def nontrivial(case):
    return len(case[2]) > 0


def check(case):
    kind, t, items, secs = case
    try:
        res = properties_parse(t) if kind == "properties" else fluent_parse(t)
    except Exception as e:
        return f"{t!r} raised {exc(e)}"
    have = [(e.id if isinstance(e, Entry) else None, lp(e.linepos)) for s in res.sections for e in s.entries]
    if have != items:
        return f"{t!r}: the lines are {have} instead of {items}"
    got = [lp(s.linepos) for s in res.sections if s.linepos]
    if got != secs:
        return f"{t!r}: the lines of sections are {got} instead of {secs}"
    if kind == "fluent" and any(x.linepos for s in fluent_parse(t, with_linepos=False).sections for x in (s, *s.entries)):
        return "has line positions which were not asked for"
    b = parse_resource("x.ftl" if kind == "fluent" else "x.properties", t.encode("utf-8", "surrogatepass")) if "\ud83d" not in t else None
    if b is not None and [(e.id if isinstance(e, Entry) else None, lp(e.linepos)) for s in b.sections for e in s.entries] != items:
        return f"{t!r}: parse_resource gives other lines"
    return None
