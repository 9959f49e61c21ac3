"""C19: add_entries"""
import itertools
from moz.l10n.model import Comment, Entry, Metadata, PatternMessage, Resource, Section
from moz.l10n.resource import add_entries
from .common import cut, diff, exc, same, snap

CONTRACTS = ["add_entries"]
BUDGET = 15
LEVEL = "other"
RULE = "all targets and sources of one section with up to 3 of 3 entries in any order; all pairs of small resources of up to 2 sections; then random pairs with up to 4 sections; both settings of use_source_entries; non-trivial: the source has an entry"
EXPLANATION = 'bounded: add_entries meets its specification symbolically for all strings in up to 2 sections with up to 3 entries (ids, comments: any), and is compared at run time with an independent computation of the merge on small and random resources'


def ent(i, v="x", **k):
    return Entry((i,), v, **k)


def resource(r, tag):
    secs = []
    used = {}
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        sid = r.choice([(), (), ("s",), ("t",), ("s", "t")])
        es = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            if r.random() < 0.2:
                es.append(Comment(r.choice("xyz")))
            i = r.choice([("a",), ("b",), ("c",), ("a", "b"), ("d",), ("e",), ("f",)])
            if i in used.setdefault(sid, set()):
                continue
            used[sid].add(i)
            v = r.choice(["x", tag, PatternMessage([tag]), PatternMessage(["x"])])
            es.append(Entry(i, snap(v), {"p": tag} if r.random() < 0.1 else {}, r.choice(["", "", "c", tag]), [Metadata("k", r.choice(["x", tag]))] if r.random() < 0.2 else []))
        secs.append(Section(sid, es, r.choice(["", "", "", "c", "d"]), [Metadata("k", r.choice("xy"))] if r.random() < 0.2 else []))
    return Resource(None, secs, r.choice(["", tag]), [Metadata("m", tag)] if r.random() < 0.2 else [])


def cases(r, tier, shard, shards):
    def small():
        lists = [p for n in range(0, 4) for p in itertools.permutations("abc", n)]
        for t, s, u in itertools.product(lists, lists, (False, True)):
            yield ("order", Resource(None, [Section((), [ent(i, "t") for i in t])]), Resource(None, [Section((), [ent(i, "s") for i in s])]), u)
        few = [Section(i, [ent(x) for x in es], c) for i in ((), ("s",)) for es in ("", "a", "b", "ab") for c in ("", "c")]
        for t in itertools.product(few, repeat=2):
            for s in few + [None]:
                for s2 in few[::3]:
                    for u in (False, True):
                        yield ("sections", Resource(None, [snap(x) for x in t]), Resource(None, [snap(x) for x in (s, s2) if x]), u)

    yield from cut(small(), shard, shards)
    while True:
        t = resource(r, "t")
        s = resource(r, "s")
        if r.random() < 0.4:
            # most of the source is in the target
            t = snap(s)
            for x in t.sections:
                x.entries = [e for e in x.entries if r.random() < 0.6]
                if r.random() < 0.4:
                    r.shuffle(x.entries)
                if r.random() < 0.2:
                    x.comment = "other"
                for e in x.entries:
                    if isinstance(e, Entry) and r.random() < 0.3:
                        e.value = "t"
            if r.random() < 0.3:
                t.sections = [x for x in t.sections if r.random() < 0.7]
        yield ("random", t, s, r.random() < 0.4)


def nontrivial(case):
    return any(isinstance(e, Entry) for s in case[2].sections for e in s.entries)


def from_witness(name, w):
    if "target" in w and "source" in w:
        return ("witness", w["target"], w["source"], bool(w.get("use_source_entries", False)))


def distinct(x):
    seen = set()
    for s in x.sections:
        for e in s.entries:
            if isinstance(e, Entry):
                if (s.id, e.id) in seen:
                    return False
                seen.add((s.id, e.id))
    return True


def check(case):
    t, s, use = snap(case[1]), snap(case[2]), case[3]
    if not distinct(t) or not distinct(s):
        return None
    t0, s0 = snap(t), snap(s)
    old_secs = list(t.sections)
    old_ents = [list(x.entries) for x in old_secs]
    src = [(x, e) for x in s.sections for e in x.entries if isinstance(e, Entry)]
    have = {(x.id, e.id) for x in t0.sections for e in x.entries if isinstance(e, Entry)}
    try:
        n = add_entries(t, s, use_source_entries=True) if use else add_entries(t, s)
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(s, s0):
        return "the source was changed"
    if t.comment != t0.comment or t.meta != t0.meta or t.format != t0.format:
        return "data of the target resource itself was changed"
    # every section and entry of the target is still in place
    its = iter(t.sections)
    for x in old_secs:
        if not any(y is x for y in its):
            return f"section {x.id} of the target was lost, replaced or moved"
    changed = 0
    src_by = {(x.id, e.id): (x, e) for x, e in src}
    for x, x0, ents in zip(old_secs, t0.sections, old_ents):
        if x.id != x0.id:
            return "a section id was changed"
        matching = [sx for sx, e in src if sx.id == x0.id and any(isinstance(y, Entry) and y.id == e.id for y in x0.entries)]
        if (x.comment, x.meta) != (x0.comment, x0.meta):
            if not use:
                return f"comment or metadata of section {x.id} was changed"
            if not any((x.comment, x.meta) == (sx.comment, sx.meta) for sx in matching):
                return f"section {x.id} got a comment and metadata from nowhere"
        elif use and matching and all((sx.comment, sx.meta) != (x.comment, x.meta) for sx in matching):
            return f"comment and metadata of section {x.id} were not updated"
        pos = -1
        for e, e0 in zip(ents, x0.entries):
            want = e0
            if isinstance(e0, Comment):
                nxt = next((i for i in range(pos + 1, len(x.entries)) if x.entries[i] is e), None)
            else:
                nxt = next((i for i in range(pos + 1, len(x.entries)) if isinstance(x.entries[i], Entry) and x.entries[i].id == e0.id), None)
                if use and (x0.id, e0.id) in src_by:
                    want = src_by[(x0.id, e0.id)][1]
                    changed += want != e0
            if nxt is None:
                return f"{e0!r} of the target was lost or moved"
            if not same(x.entries[nxt], want):
                return f"{e0!r} of the target became {x.entries[nxt]!r}"
            pos = nxt
    # each missing entry is there once, nothing else
    missing = [(x, e) for x, e in src if (x.id, e.id) not in have]
    after = [(x, i, e) for x in t.sections for i, e in enumerate(x.entries)]
    if sum(isinstance(e, Comment) for _, _, e in after) != sum(isinstance(e, Comment) for x in t0.sections for e in x.entries):
        return "standalone comments were added"
    count = sum(isinstance(e, Entry) for _, _, e in after)
    if count != len(have) + len(missing):
        return f"{count} entries instead of {len(have)} and {len(missing)} added"
    where = {(x.id, e.id): (x, i) for x, i, e in after if isinstance(e, Entry)}
    for sx, e in missing:
        if (sx.id, e.id) not in where:
            return f"{e!r} was not added to section {sx.id}"
        x, i = where[(sx.id, e.id)]
        if not same(x.entries[i], e):
            return f"{e!r} was added as {x.entries[i]!r}"
        if not use and x.comment != sx.comment:
            return f"{e!r} was added to a section with another comment"
        if not any(x is y for y in old_secs) and not any(x.id == y.id and x.meta == y.meta for y in s0.sections):
            return "a new section lacks the metadata of its source"
        es = [y for y in sx.entries if isinstance(y, Entry)]
        k = next(j for j, y in enumerate(es) if y.id == e.id)
        if k > 0 and not use:
            p = es[k - 1]
            px, pi = where[(sx.id, p.id)]
            if px.comment == sx.comment and (px is not x or pi != i - 1):
                return f"{e!r} was not added after {p.id} as in the source"
    if not use and n != len(missing):
        return f"returned {n} for {len(missing)} added entries"
    if use and not len(missing) + changed <= n:
        return f"returned {n} for {len(missing)} added and {changed} changed entries"
    if use and not t0.sections == [] and all((x.comment, x.meta) == (y.comment, y.meta) for x in t0.sections for y in s0.sections if x.id == y.id) and n != len(missing) + changed:
        return f"returned {n} for {len(missing)} added and {changed} changed entries"
    t1 = snap(t)
    try:
        n2 = add_entries(t, s)
    except Exception as e:
        return f"the second time raised {exc(e)}"
    if n2 != 0 or not same(t, t1):
        return f"doing it again returns {n2} and changes the target"
