"""C19: resource/add_entries.py"""
from __future__ import annotations
from pyvc.contract import lemma, pred
from moz.l10n.formats import Format
from moz.l10n.model import Entry, Resource, Section
from moz.l10n.resource import add_entries

SMALL = "add_entries inserts into lists of lists while it goes through them: no invariant within the engine's reach"


class Sec:
    """a section with any id and comment, and entries with any ids"""

    id: str
    comment: str
    ids: list[str]


class One:
    """a section with one entry"""

    id: str
    comment: str
    ids: tuple[str]


def resource(secs, mark):
    return Resource(Format.ini, [Section((s.id,), [Entry((i,), mark) for i in s.ids], s.comment) for s in secs])


def flat(res):
    return [(x.id[0], x.comment, e.id[0], e.value) for x in res.sections for e in x.entries]


def distinct(secs):
    """no two entries have the same section and entry ids"""
    seen = []
    for x in secs:
        for e in x.ids:
            if (x.id, e) in seen:
                return False
            seen.append((x.id, e))
    return True


def holds(target, source):
    t, s = resource(target, "t"), resource(source, "s")
    n = add_entries(t, s)
    old = [(x.id, e) for x in target for e in x.ids]
    have = flat(t)
    if [(i, e) for i, c, e, v in have if v == "t"] != old:
        return False
    new = [(i, e) for i, c, e, v in have if v == "s"]
    count = 0
    for x in source:
        prev = None
        for e in x.ids:
            if (x.id, e) not in old:
                count += 1
                if new.count((x.id, e)) != 1:
                    return False
                if prev is not None and (x.id, x.comment, prev, "t") in have:
                    k = have.index((x.id, x.comment, prev, "t"))
                    if have[k + 1] != (x.id, x.comment, e, "s"):
                        return False
            prev = e
    if n != count or len(new) != count or flat(s) != [(x.id, x.comment, e, "s") for x in source for e in x.ids]:
        return False
    return add_entries(t, resource(source, "u")) == 0 and flat(t) == have


def one(t, s):
    return holds([t], [s])


def one_ok(t, s):
    return distinct([t]) and distinct([s])


def two_targets(t1, t2, s):
    return holds([t1, t2], [s])


def two_targets_ok(t1, t2, s):
    return distinct([t1, t2]) and distinct([s])


def two_sources(t, s1, s2):
    return holds([t], [s1, s2])


def two_sources_ok(t, s1, s2):
    return distinct([t]) and distinct([s1, s2])


P = dict(prop="C19", small=SMALL, budget=200)
lemma("add_entries/section", dict(t=Sec, s=Sec), one, requires=one_ok, bound=3, **P)
lemma("add_entries/two-target-sections", dict(t1=One, t2=One, s=Sec), two_targets, requires=two_targets_ok, bound=3, **P)
lemma("add_entries/two-source-sections", dict(t=One, s1=One, s2=One), two_sources, requires=two_sources_ok, **P)


def two_each(t1, t2, s1, s2):
    return holds([t1, t2], [s1, s2])


def two_each_ok(t1, t2, s1, s2):
    return distinct([t1, t2]) and distinct([s1, s2])


lemma("add_entries/two-sections-each", dict(t1=One, t2=One, s1=One, s2=One), two_each, requires=two_each_ok, **P)


def updated(t, s):
    a, b = resource([t], "t"), resource([s], "s")
    n = add_entries(a, b, use_source_entries=True)
    both = [e for e in s.ids if t.id == s.id and e in t.ids]
    have = flat(a)
    for e in t.ids:
        if have.count((t.id, s.comment if both else t.comment, e, "s" if e in both else "t")) != 1:
            return False
    for e in s.ids:
        if [v for i, c, x, v in have if i == s.id and x == e] != ["s"]:
            return False
    if n != len(s.ids) + (1 if both and t.comment != s.comment else 0) or len(have) != len(t.ids) + len(s.ids) - len(both):
        return False
    return flat(b) == [(s.id, s.comment, e, "s") for e in s.ids] and add_entries(a, b, use_source_entries=True) == 0


lemma("add_entries/update", dict(t=Sec, s=Sec), updated, requires=one_ok, **P)
