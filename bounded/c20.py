"""C20: l10n_equal"""
import itertools
from moz.l10n.formats import Format
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef as V
from moz.l10n.resource import l10n_equal
from .common import cut, diff, exc, same, snap
from .gen import G, string

CONTRACTS = ["l10n_equal"]
BUDGET = 15
LEVEL = "other"
RULE = "all pairs out of 60 small resources; then random resources (entry ids distinct within sections of one id), each compared with a reordering that must not matter and with one changed detail; non-trivial: at least one entry"
EXPLANATION = 'bounded: l10n_equal is symbolically equal to the specified relation for all strings in resources of one section with up to 2 entries, or 2 sections with one, and with up to 2 metadata items; its head (format, comment) without a bound; at run time, reordered copies have to be equal, copies with a changed detail different, and the relation has to be symmetric and transitive'


def items(xs, eq):
    return xs


def match(xs, ys, eq):
    """equal as multisets"""
    ys = list(ys)
    for x in xs:
        for i, y in enumerate(ys):
            if eq(x, y):
                del ys[i]
                break
        else:
            return False
    return not ys


def meta(x):
    return {(m.key, m.value) for m in x.meta}


def entry_eq(a, b):
    return a.id == b.id and a.comment.strip() == b.comment.strip() and meta(a) == meta(b) and a.value == b.value and a.properties == b.properties


def sections(r):
    out = []
    anon = []
    for s in r.sections:
        es = [e for e in s.entries if isinstance(e, Entry)]
        if not es:
            continue
        if not s.id and not s.comment.strip() and not s.meta:
            anon += es
        else:
            out.append((s.id, s.comment.strip(), meta(s), es))
    if anon:
        out.append(((), "", set(), anon))
    return out


def section_eq(a, b):
    return a[:3] == b[:3] and match(a[3], b[3], entry_eq)


def ref(a, b):
    return a.format == b.format and a.comment.strip() == b.comment.strip() and meta(a) == meta(b) and match(sections(a), sections(b), section_eq)


def rmeta(r):
    return [Metadata(r.choice("kl"), r.choice("xyz")) for _ in range(r.choice([0, 0, 1, 2, 3]))]


def comment(r):
    return r.choice(["", "", "c", " c\n", "d", "c\nd", " "])


def value(r):
    return r.choice(["", "x", "y"]) if r.random() < 0.5 else r.choice([
        PatternMessage(["x"]), PatternMessage([]), PatternMessage(["x", Expression(V("a"), "f", {"o": "1", "p": "2"}, {"s": True})]),
        PatternMessage([Markup("open", "m")]), SelectMessage({"n": Expression(V("n"), "number")}, (V("n"),), {("one",): ["x"], (CatchallKey("q"),): ["y"]}),
        SelectMessage({"n": Expression(V("n"), "number")}, (V("n"),), {("one",): ["x"], (CatchallKey(),): ["z"]}), PatternMessage(["x"], {"n": Expression("1")}),
    ])


def resource(r):
    secs = []
    used = {}
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        sid = r.choice([(), (), ("s",), ("t",), ("s", "t")])
        es = []
        for _ in range(r.choice([0, 1, 2, 3])):
            if r.random() < 0.2:
                es.append(Comment(comment(r)))
            i = r.choice([("a",), ("b",), ("c",), ("a", "b"), ("d",)])
            if i in used.setdefault(sid, set()):
                continue
            used[sid].add(i)
            es.append(Entry(i, snap(value(r)), {k: snap(value(r)) for k in "pq"[: r.choice([0, 0, 1, 2])]}, comment(r), rmeta(r)))
        secs.append(Section(sid, es, comment(r) if r.random() < 0.4 else "", rmeta(r) if r.random() < 0.4 else []))
    return Resource(r.choice([None, Format.ini, Format.fluent]), secs, comment(r) if r.random() < 0.3 else "", rmeta(r) if r.random() < 0.3 else [])


def shuffle(r, x):
    """differs only in what does not matter"""
    x = snap(x)
    for s in x.sections:
        r.shuffle(s.entries)
        r.shuffle(s.meta)
        if r.random() < 0.3:
            s.entries.insert(r.randint(0, len(s.entries)), Comment("zz"))
        if r.random() < 0.2:
            s.entries = [e for e in s.entries if isinstance(e, Entry)]
        for e in s.entries:
            if isinstance(e, Entry):
                r.shuffle(e.meta)
                if r.random() < 0.2:
                    e.comment = " " + e.comment + "\n"
        if not s.id and not s.comment.strip() and not s.meta and len(s.entries) > 1 and r.random() < 0.4:
            x.sections.append(Section((), [s.entries.pop()]))
    if r.random() < 0.3:
        x.sections.append(Section(("empty",), r.choice([[], [Comment("q")]]), "c", [Metadata("k", "v")]))
    r.shuffle(x.sections)
    r.shuffle(x.meta)
    return x


def change(r, x):
    x = snap(x)
    es = [e for s in x.sections for e in s.entries if isinstance(e, Entry)]
    k = r.randrange(12)
    if es:
        e = r.choice(es)
        if k == 0:
            e.id = e.id + ("z",)
        elif k == 1:
            e.value = snap(value(r))
        elif k == 2:
            e.properties["p"] = snap(value(r))
        elif k == 3 and e.properties:
            e.properties.pop(r.choice(list(e.properties)))
        elif k == 4:
            e.comment = comment(r)
        elif k == 5:
            e.meta = rmeta(r)
        elif k == 6:
            s = r.choice(x.sections)
            s.entries = [e for e in s.entries if r.random() < 0.7]
    if x.sections:
        s = r.choice(x.sections)
        if k == 7:
            s.id = r.choice([(), ("s",), ("u",)])
        elif k == 8:
            s.comment = comment(r)
        elif k == 9:
            s.meta = rmeta(r)
    if k == 10:
        x.comment = comment(r)
    elif k == 11:
        x.meta = rmeta(r)
        x.format = r.choice([x.format, None])
    return x


def distinct(x):
    """entry ids are distinct in the sections of one id"""
    seen = set()
    for s in x.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                if (s.id, e.id) in seen:
                    return False
                seen.add((s.id, e.id))
    return True


def small():
    e = lambda i, v="x", **k: Entry((i,), v, **k)
    M = Metadata
    ss = [
        [], [Section((), [])], [Section((), [Comment("c")])], [Section((), [e("a")])], [Section((), [e("a"), e("b")])], [Section((), [e("b"), e("a")])],
        [Section((), [e("a")]), Section((), [e("b")])], [Section((), [e("b")]), Section((), [e("a")])], [Section((), [e("a")]), Section((), [e("b")], "c")],
        [Section((), [e("a")], "c"), Section((), [e("b")], "c")], [Section((), [e("b")], "c"), Section((), [e("a")], "c")], [Section((), [e("a"), e("b")], "c")],
        [Section((), [e("a")], "", [M("k", "x")]), Section((), [e("b")])], [Section((), [e("b")]), Section((), [e("a")], "", [M("k", "x")])],
        [Section((), [e("a")]), Section((), [e("b")], "", [M("k", "x")])],
        [Section(("s",), [e("a")])], [Section(("s",), [e("a")]), Section((), [e("b")])], [Section((), [e("b")]), Section(("s",), [e("a")])],
        [Section(("s",), [e("a")]), Section(("t",), [e("a")])], [Section(("t",), [e("a")]), Section(("s",), [e("a")])],
        [Section(("s",), [e("a")]), Section(("s",), [e("b")])], [Section(("s",), [e("b")]), Section(("s",), [e("a")])], [Section(("s",), [e("a"), e("b")])],
        [Section((), [e("a", "y")])], [Section((), [e("a", PatternMessage(["x"]))])], [Section((), [e("a", properties={"p": "x"})])], [Section((), [e("a", properties={"p": "y"})])],
        [Section((), [e("a", comment="c")])], [Section((), [e("a", comment=" c ")])], [Section((), [e("a", meta=[M("k", "x"), M("l", "y")])])],
        [Section((), [e("a", meta=[M("l", "y"), M("k", "x")])])], [Section((), [e("a", meta=[M("k", "y"), M("l", "x")])])], [Section((), [e("a", meta=[M("k", "x")])])],
        [Section((), [e("a", meta=[M("k", "x"), M("k", "y")])])], [Section((), [e("a", meta=[M("k", "y"), M("k", "x")])])],
        [Section((), [e("a")]), Section(("s",), [])], [Section(("s",), [Comment("c")]), Section((), [e("a")])], [Section((), [Comment("c"), e("a")])], [Section((), [e("a"), Comment("d")])],
        [Section((), [e("a")], " ")], [Section((), [e("a")], "c")], [Section((), [e("a")], " c")], [Section((), [e("a")], "", [M("k", "x"), M("l", "x")])], [Section((), [e("a")], "", [M("l", "x"), M("k", "x")])],
    ]
    out = [Resource(None, s) for s in ss]
    out += [Resource(f, ss[3]) for f in (Format.ini, Format.fluent)]
    out += [Resource(None, ss[3], "c"), Resource(None, ss[3], " c\n"), Resource(None, ss[3], "d"), Resource(None, ss[3], "", [M("k", "x")]), Resource(None, ss[3], "", [M("k", "x"), M("l", "y")]),
            Resource(None, ss[3], "", [M("l", "y"), M("k", "x")]), Resource(None, ss[3], "", [M("k", "y")]), Resource(None, [], "c"), Resource(None, [], "", [M("k", "x")])]
    return out


def cases(r, tier, shard, shards):
    def pairs():
        for a, b in itertools.product(small(), repeat=2):
            yield ("small", snap(a), snap(b))

    yield from cut(pairs(), shard, shards)
    while True:
        a = resource(r)
        yield ("same", a, shuffle(r, a))
        yield ("changed", a, shuffle(r, change(r, a)))
        yield ("random", a, resource(r))


def nontrivial(case):
    return any(s.entries for s in case[1].sections)


def from_witness(name, w):
    rs = [v for v in w.values() if isinstance(v, Resource)]
    return ("witness", rs[0], rs[-1]) if rs else None


def check(case):
    a, b = case[1:3]
    if not distinct(a) or not distinct(b):
        return None
    a0, b0 = snap(a), snap(b)
    want = ref(a0, b0)
    try:
        ab, ba, aa, bb = l10n_equal(a, b), l10n_equal(b, a), l10n_equal(a, a), l10n_equal(b, snap(b))
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(a, a0) or not same(b, b0):
        return "the comparison changed a resource"
    if not aa or not bb:
        return "a resource is not equal to itself"
    if bool(ab) != bool(ba):
        return f"not symmetric: {ab} one way and {ba} the other"
    if bool(ab) != want:
        return f"l10n_equal is {ab} for resources that are {'equal' if want else 'different'}"
