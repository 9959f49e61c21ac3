"""C13: formats/gettext: the entries of a file and of a resource, over an assumed contract of polib"""
from __future__ import annotations
from dataclasses import dataclass
from pyvc import types as T
from pyvc.contract import Contract
from moz.l10n.formats import Format
from moz.l10n.model import CatchallKey, Entry, Expression, Metadata, Pattern, PatternMessage, Resource, Section, SelectMessage, VariableRef

P = "moz.l10n.formats.gettext.parse:"
S = "moz.l10n.formats.gettext.serialize:"


# ---------------------------------------------------------------- plural keys
def listed(idx, is_catchall, plurals):
    return idx >= 0 and (not plurals or idx < len(plurals))


def key(idx, is_catchall, plurals):
    name = plurals[idx] if plurals else str(idx)
    return (CatchallKey(name) if is_catchall else name,)


Contract(P + "plural_key", dict(idx=int, is_catchall=bool, plurals=list[str] | None), requires=listed, result=key, prop="C13", name="plural_key")


# ---------------------------------------------------------------- reading
@dataclass
class POEntry:
    """an entry as polib reads it, with any contents"""

    msgid: str
    msgctxt: str | None
    msgstr: str
    msgid_plural: str
    msgstr_plural: dict[int, str]
    comment: str
    tcomment: str
    occurrences: list[tuple[str, str]]
    flags: list[str]
    obsolete: bool


@dataclass
class PO:
    header: str
    metadata: dict[str, str]
    body: list[POEntry]

    def __iter__(self):
        return iter(self.body)


@dataclass
class World:
    po: PO


def world(po, skip):
    return World(po)


def s_pofile(w, source):
    if source != "source":
        raise NotImplementedError
    return w.po


def args(po, skip):
    return ("source",)


def kwargs(po, skip):
    return dict(skip_obsolete=skip)


def singular(po, skip):
    return all(len(pe.msgstr_plural) == 0 for pe in po.body)


def notes(pe):
    meta = []
    if pe.tcomment:
        meta.append(Metadata("translator-comments", pe.tcomment))
    for file, line in pe.occurrences:
        meta.append(Metadata("reference", file + ":" + line if line else file))
    if pe.obsolete:
        meta.append(Metadata("obsolete", "true"))
    for flag in pe.flags:
        meta.append(Metadata("flag", flag))
    if pe.msgid_plural:
        meta.append(Metadata("plural", pe.msgid_plural))
    return meta


def read(po, skip):
    entries = []
    for pe in po.body:
        if not (skip and pe.obsolete):
            entries.append(Entry((pe.msgid, pe.msgctxt) if pe.msgctxt else (pe.msgid,), PatternMessage([pe.msgstr]), comment=pe.comment, meta=notes(pe)))
    return Resource(Format.gettext, [Section((), entries)], po.header.lstrip("\n").rstrip(), [Metadata(k, v.strip()) for k, v in po.metadata.items()])


Contract(P + "gettext_parse", dict(po=PO, skip=bool), args=args, kwargs=kwargs, requires=singular, stubs={P + "pofile": s_pofile}, world=world, result=read, prop="C13", public=True, name="gettext_parse/singular", budget=300)


# ---------------------------------------------------------------- reading plurals
@dataclass
class Forms:
    """an entry with two plural forms, in any order and with any others left out"""

    msgid: str
    plural: str
    a: int
    at_a: str
    b: int
    at_b: str


def plural_world(pe, skip):
    return World(PO("", {}, [POEntry(pe.msgid, None, "", pe.plural, {pe.a: pe.at_a, pe.b: pe.at_b}, "", "", [], [], False)]))


def indexes(pe, skip):
    return 0 <= pe.a and 0 <= pe.b and pe.a != pe.b


def plural_read(pe, skip):
    forms = {pe.a: pe.at_a, pe.b: pe.at_b}
    top = max(pe.a, pe.b)
    variants = {((CatchallKey(str(i)) if i == top else str(i)),): [forms[i]] if i in forms else [] for i in range(top + 1)}
    value = SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), variants)
    return Resource(Format.gettext, [Section((), [Entry((pe.msgid,), value, meta=[Metadata("plural", pe.plural)] if pe.plural else [])])])


def plural_args(pe, skip):
    return ("source",)


def plural_kwargs(pe, skip):
    return dict(skip_obsolete=skip)


Contract(P + "gettext_parse", dict(pe=Forms, skip=bool), args=plural_args, kwargs=plural_kwargs, requires=indexes, stubs={P + "pofile": s_pofile}, world=plural_world, result=plural_read, prop="C13", public=True, name="gettext_parse/plural")


# ---------------------------------------------------------------- writing


@dataclass
class Shown:
    """what polib is given for an entry"""

    msgid: str
    msgctxt: str | None
    msgstr: str
    comment: str
    tcomment: str
    occurrences: list[tuple[str, str]]
    flags: list[str]
    msgid_plural: str
    obsolete: bool


@dataclass
class Log:
    heads: list
    shown: list


class WFile:
    def __init__(self, w, wrapwidth):
        self.w = w
        self.header = ""
        self.metadata = {}

    def __str__(self):
        self.w.heads.append((self.header, self.metadata))
        return "head"


class WEntry:
    def __init__(self, w, msgctxt, msgid):
        self.w = w
        self.msgid = msgid
        self.msgctxt = msgctxt
        self.msgstr = ""
        self.comment = ""
        self.tcomment = ""
        self.occurrences = []
        self.flags = []
        self.msgid_plural = ""
        self.obsolete = False

    def __unicode__(self, wrapwidth=78):
        self.w.shown.append((self.msgid, self.msgctxt, self.msgstr, self.comment, self.tcomment, self.occurrences, self.flags, self.msgid_plural, self.obsolete))
        return "entry"


def s_POFile(w, wrapwidth=78):
    return WFile(w, wrapwidth)


def s_POEntry(w, msgctxt=None, msgid=""):
    return WEntry(w, msgctxt, msgid)


@dataclass
class Msg:
    """an entry with any id, context, value and comment"""

    name: str
    context: str | None
    value: str
    note: str


def log(note, meta, body, trim):
    return Log([], [])


def resource(note, meta, body, trim):
    return (Resource(Format.gettext, [Section((), [Entry((e.name,) if e.context is None else (e.name, e.context), e.value, comment=e.note) for e in body])], note, [Metadata(k, v) for k, v in meta.items()]),)


def w_kwargs(note, meta, body, trim):
    return dict(trim_comments=trim)


def no_forms(note, meta, body, trim):
    return "Plural-Forms" not in meta and all(e.name != "" for e in body)


def seen(w):
    return (w.heads, w.shown)


def given(note, meta, body, trim):
    head = "" if trim or not note or note.isspace() else note.rstrip() + "\n"
    return (
        [(head, meta)],
        [(e.name, e.context, e.value, e.note.lstrip("\n").rstrip() if e.note and not trim else "", "", [], [], "", False) for e in body],
    )


def text(note, meta, body, trim):
    return "head" + "".join(["\nentry" for e in body])


Contract(
    S + "gettext_serialize", dict(note=str, meta=dict[str, str], body=list[Msg], trim=bool), args=resource, kwargs=w_kwargs, requires=no_forms,
    stubs={S + "POFile": s_POFile, S + "POEntry": s_POEntry}, world=log, observe=seen, effects=given, result=text, text=True,
    prop="C13", public=True, name="gettext_serialize/entries", budget=200,
)


# ---------------------------------------------------------------- writing: what an entry can be
def log1(name, pattern, meta, trim):
    return Log([], [])


def resource1(name, pattern, meta, trim):
    return (Resource(Format.gettext, [Section((), [Entry((name,), PatternMessage(pattern), meta=meta)])]),)


def kwargs1(name, pattern, meta, trim):
    return dict(trim_comments=trim)


def plain(name, pattern, meta, trim):
    return name != "" and all(m.key == "flag" or m.key == "reference" for m in meta) and all(isinstance(p, str) for p in pattern)


def place(s):
    pos = s.split(":", 1)
    return (pos[0], pos[1]) if len(pos) == 2 else (s, "")


def given1(name, pattern, meta, trim):
    return (
        [("", {})],
        [(name, None, "".join(pattern), "", "", [] if trim else [place(m.value) for m in meta if m.key == "reference"], [] if trim else [m.value for m in meta if m.key == "flag"], "", False)],
    )


def text1(name, pattern, meta, trim):
    return "head\nentry"


Contract(
    S + "gettext_serialize", dict(name=str, pattern=Pattern, meta=list[Metadata], trim=bool), args=resource1, kwargs=kwargs1, requires=plain,
    stubs={S + "POFile": s_POFile, S + "POEntry": s_POEntry}, world=log1, observe=seen, effects=given1, result=text1, text=True,
    prop="C13", public=True, name="gettext_serialize/pattern", budget=200,
)
