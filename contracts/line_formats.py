"""C12: formats/ini/serialize.py id_str: the text of an identifier"""
from __future__ import annotations
from dataclasses import dataclass
from re import fullmatch

from pyvc.contract import Relation, Contract
from moz.l10n.formats import Format
from moz.l10n.formats.dtd.serialize import re_comment, re_name
from moz.l10n.model import Comment, Entry, Resource, Section

I = "moz.l10n.formats.ini.serialize:"


def readable(name):
    """the name of an identifier is not empty, is not trimmed, and ends at no delimiter"""
    return fullmatch(r"[^\s:=\[\]]([^\n:=\[\]]*[^\s:=\[\]])?", name) is not None


def joined(res, id):
    return res == ".".join(id) and readable(res)


def unsupported(exc, id):
    return not readable(".".join(id))


Relation(I + "id_str", dict(id=tuple[str, ...]), ensures=joined, returns=str, raises={ValueError: ((), unsupported)}, prop="C12", public=True, name="id_str")


# ---------------------------------------------------------------- .inc files
N = "moz.l10n.formats.inc.serialize:"


@dataclass
class Msg:
    """an entry with any one-part id, value and comment"""

    name: str
    value: str
    note: str


@dataclass
class Sec:
    """a section with any comment and contents"""

    note: str
    body: list[Msg | Comment]


def entry(e):
    return e if isinstance(e, Comment) else Entry((e.name,), e.value, comment=e.note)


def resource(note, sections, trim):
    return Resource(Format.inc, [Section((), [entry(e) for e in s.body], comment=s.note) for s in sections], comment=note), trim


def named(note, sections, trim):
    return all(all(isinstance(e, Comment) or fullmatch(r"\w+", e.name) is not None for e in s.body) for s in sections)


def inc_comment(comment, trim, standalone):
    out = []
    if comment:
        for line in comment.strip("\n").split("\n"):
            if line.startswith("#"):
                if not trim or not line.startswith("# "):
                    out.append(line + "\n")
            elif not trim:
                line = line.strip()
                out.append("# " + line + "\n" if line else "#\n")
        if standalone:
            out.append("\n")
    return out


def inc_text(note, sections, trim):
    out = [*inc_comment(note, trim, True)]
    for section in sections:
        out.extend(inc_comment(section.note, trim, True))
        for e in section.body:
            if isinstance(e, Comment):
                out.extend(inc_comment(e.comment, trim, True))
            else:
                out.extend(inc_comment(e.note, trim, False))
                out.append("#define " + e.name + " " + e.value.replace("\n", " ") + "\n")
                out.append("\n")
    return "".join(out)


Contract(N + "inc_serialize", dict(note=str, sections=list[Sec], trim=bool), args=resource, requires=named, result=inc_text, prop="C12", public=True, text=True, name="inc_serialize", budget=300)


# ---------------------------------------------------------------- DTD files
D = "moz.l10n.formats.dtd.serialize:"


def dtd_resource(sid, id, value, trim):
    return Resource(Format.dtd, [Section(sid, [Entry(id, value)])]), trim


def dtd_name(sid, id):
    return (".".join(sid) + "." if sid else "") + ".".join(id)


def quoted(value):
    """in the quotes that the value does not contain, or with its quotes escaped"""
    if '"' not in value:
        return '"' + value + '"'
    if "'" not in value:
        return "'" + value + "'"
    return '"' + value.replace('"', "&quot;") + '"'


def dtd_line(sid, id, value, trim):
    return "<!ENTITY " + dtd_name(sid, id) + " " + re_comment.sub("", quoted(value)) + ">\n"


def dtd_named(sid, id, value, trim):
    return re_name.fullmatch(dtd_name(sid, id)) is not None


Contract(D + "dtd_serialize", dict(sid=tuple[str, ...], id=tuple[str, ...], value=str, trim=bool), args=dtd_resource, requires=dtd_named, result=dtd_line, prop="C12", public=True, text=True, name="dtd_serialize/entry")
