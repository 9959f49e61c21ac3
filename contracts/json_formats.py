"""C11: formats/webext/parse.py and serialize.py: placeholders of messages, members of the JSON object"""
from __future__ import annotations
from dataclasses import dataclass
from re import fullmatch
from pyvc.contract import Contract, Relation
from pyvc.loops import Loop
from moz.l10n.formats import Format
from moz.l10n.model import Comment, Entry, Expression, PatternMessage, Resource, Section, VariableRef

W = "moz.l10n.formats.webext.parse:webext_parse_message"


def part_ok(p, declarations):
    """a placeholder has its source, and refers to a declaration or a numbered argument"""
    if isinstance(p, str):
        return p != ""
    return (
        isinstance(p.arg, VariableRef)
        and p.function is None
        and isinstance(p.attributes.get("source"), str)
        and (p.arg.name in declarations or fullmatch(r"arg[1-9]", p.arg.name) is not None)
    )


def parsed(source, pos, pattern, declarations, ph_names, _i, _it):
    return (
        0 <= pos <= len(source),
        pos == (_it[_i - 1].end() if _i > 0 else 0),
        all(part_ok(p, declarations) for p in pattern),
        all(v in declarations for v in ph_names.values()),
    )


Loop(W, 0, parsed, {"pos": int, "pattern": list[str | Expression], "declarations": dict[str, Expression], "ph_names": dict[str, str]})


def free(ph_name, declarations):
    return ph_name != ""


Loop(W, 1, free, {"ph_name": str})


def complete(res, source, placeholders):
    return all(part_ok(p, res.declarations) for p in res.pattern)


def any_error(exc, source):
    return True


Relation(W, dict(source=str, placeholders=dict[str, dict[str, str]] | None), ensures=complete, returns=PatternMessage, raises={ValueError: ({}, any_error), KeyError: ({}, any_error)}, prop="C11", name="webext_parse_message/complete", budget=400)


# ---------------------------------------------------------------- files
S = "moz.l10n.formats.webext.serialize:"


@dataclass
class Msg:
    """an entry with any one-part id, text and comment"""

    name: str
    text: str
    note: str


@dataclass
class Out:
    written: list


def world(entries, trim):
    return Out([])


def s_dumps(w, obj, indent=None, ensure_ascii=True):
    w.written.append(obj)
    return "json"


def seen(w):
    return w.written


def args(entries, trim):
    return Resource(Format.webext, [Section((), [Entry((e.name,), e.text, comment=e.note) for e in entries])]), trim


def distinct(entries, trim):
    return all(all(i == j or a.name != b.name for j, b in enumerate(entries)) for i, a in enumerate(entries))


def members(entries, trim):
    """one member for each entry, with its text and its comment"""
    return [{e.name: {"message": e.text, "description": e.note} if e.note and not trim else {"message": e.text} for e in entries}]


def text(entries, trim):
    return "json\n"


Contract(
    S + "webext_serialize", dict(entries=list[Msg], trim=bool), args=args, requires=distinct, stubs={S + "dumps": s_dumps}, world=world, observe=seen,
    effects=members, result=text, text=True, prop="C11", public=True, name="webext_serialize/members", budget=100,
)
