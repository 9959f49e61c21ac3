"""C20: resource/l10n_equal.py"""
from __future__ import annotations
from pyvc.contract import Contract, lemma, pred
from moz.l10n.formats import Format
from moz.l10n.model import Comment, Entry, Metadata, Resource, Section
from moz.l10n.resource import l10n_equal

M = "moz.l10n.resource.l10n_equal:"
SMALL = "sorting of sections and entries: no contract for sort within the engine's reach"


class Ent:
    id: str
    comment: str
    value: str


class Sec:
    id: str
    comment: str
    entries: list[Ent]


class One:
    id: str
    comment: str
    entries: tuple[Ent]


def resource(secs):
    return Resource(Format.ini, [Section((s.id,), [Entry((e.id,), e.value, {}, e.comment) for e in s.entries], s.comment) for s in secs])


def same_entry(a, b):
    return a.id == b.id and a.value == b.value and a.comment.strip() == b.comment.strip()


def distinct(es):
    for i, a in enumerate(es):
        for j, b in enumerate(es):
            if i < j and a.id == b.id:
                return False
    return True


def same_entries(a, b):
    """equal as sets"""
    return len(a) == len(b) and all(any(same_entry(x, y) for y in b) for x in a)


def one_section(a, b):
    want = not a.entries and not b.entries or bool(a.entries) and bool(b.entries) and a.id == b.id and a.comment.strip() == b.comment.strip() and same_entries(a.entries, b.entries)
    return l10n_equal(resource([a]), resource([b])) == want


def one_section_ok(a, b):
    return distinct(a.entries) and distinct(b.entries)


lemma("l10n_equal/section", dict(a=Sec, b=Sec), one_section, requires=one_section_ok, prop="C20", small=SMALL, budget=200)


def same_section(a, b):
    return a.id == b.id and a.comment.strip() == b.comment.strip() and same_entries(a.entries, b.entries)


def two_sections(a, b, c, d):
    want = same_section(a, c) and same_section(b, d) or same_section(a, d) and same_section(b, c)
    return l10n_equal(resource([a, b]), resource([c, d])) == want


def two_sections_ok(a, b, c, d):
    """an entry id is used once in the sections of one id"""
    return (a.id != b.id or a.entries[0].id != b.entries[0].id) and (c.id != d.id or c.entries[0].id != d.entries[0].id)


lemma("l10n_equal/sections", dict(a=One, b=One, c=One, d=One), two_sections, requires=two_sections_ok, prop="C20", small=SMALL, budget=200)


def same_meta(a, b):
    inn = lambda x, ys: any(x.key == y.key and x.value == y.value for y in ys)
    return all(inn(x, b) for x in a) and all(inn(x, a) for x in b)


def meta(a, b):
    return l10n_equal(Resource(Format.ini, [], "", a), Resource(Format.ini, [], "", b)) == same_meta(a, b)


def entry_meta(a, b):
    res = lambda m: Resource(Format.ini, [Section((), [Entry(("e",), "", {}, "", m)])])
    return l10n_equal(res(a), res(b)) == same_meta(a, b)


def section_meta(a, b):
    res = lambda m: Resource(Format.ini, [Section(("s",), [Entry(("e",), "")], "", m)])
    return l10n_equal(res(a), res(b)) == same_meta(a, b)


def head(a, b, f, g):
    return l10n_equal(Resource(f, [], a), Resource(g, [], b)) == (f == g and a.strip() == b.strip())


SETS = "a dict of sets that grow: outside the engine's reach without a bound"
lemma("l10n_equal/metadata", dict(a=list[Metadata], b=list[Metadata]), meta, prop="C20", small=SETS, budget=100)
lemma("l10n_equal/entry-metadata", dict(a=list[Metadata], b=list[Metadata]), entry_meta, prop="C20", small=SETS, budget=100)
lemma("l10n_equal/section-metadata", dict(a=list[Metadata], b=list[Metadata]), section_meta, prop="C20", small=SETS, budget=100)
lemma("l10n_equal/head", dict(a=str, b=str, f=Format | None, g=Format | None), head, prop="C20", budget=100)
