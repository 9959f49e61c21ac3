"""C10: formats/properties/serialize.py: the lines of the entries"""
from __future__ import annotations
from pyvc.contract import Contract, Relation, text
from moz.l10n.formats import Format
from moz.l10n.formats.properties.serialize import escape_chars, special_key_trans
from moz.l10n.model import Entry, Expression, Markup, PatternMessage, Resource, Section

P = "moz.l10n.formats.properties.serialize:"


def outer(res, value):
    return (
        not res[:1].isspace(),
        not res.endswith(" ") or res.endswith("\\ "),
        res == value or value[:1].isspace() or value.endswith(" "),
    )


Relation(P + "fix_outer_spaces", dict(value=str), ensures=outer, returns=str, prop="C10", name="fix_outer_spaces", use=False)


@text
def outer_escaped(value):
    """whitespace at the start is escaped with a backslash, an unescaped space at the end is written as its code"""
    if value[:1].isspace():
        value = "\\" + value
    if value.endswith(" ") and not value.endswith("\\ "):
        return value[:-1] + "\\u0020"
    return value


Contract(P + "fix_outer_spaces", dict(value=str), result=outer_escaped, prop="C10", name="fix_outer_spaces/text")


def resource(sid, id, value, ascii, trim):
    return Resource(Format.properties, [Section(sid, [Entry(id, value)])]), "iso-8859-1" if ascii else "utf-8", None, trim


def line(sid, id, value, ascii, trim):
    """the key, joined with dots, and the value, both with their special characters escaped"""
    key = escape_chars((".".join(sid) + "." if sid else "") + ".".join(id), ascii).translate(special_key_trans)
    if key.startswith(("#", "!")):
        key = "\\" + key
    value = escape_chars(value, ascii)
    return key + " = " + outer_escaped(value) + "\n" if value else key + " =\n"


Contract(P + "properties_serialize", dict(sid=tuple[str, ...], id=tuple[str, ...], value=str, ascii=bool, trim=bool), args=resource, result=line, prop="C10", public=True, text=True, name="properties_serialize/entry")


def sourced(pattern, ascii):
    """every placeholder has a source"""
    return all(isinstance(p, str) or isinstance(p.attributes.get("source"), str) for p in pattern)


def flag(pattern, ascii):
    return {"ensure_ascii": ascii}


def message_text(pattern, ascii):
    return outer_escaped(escape_chars("".join([p if isinstance(p, str) else p.attributes["source"] for p in pattern]), ascii))


def message_args(pattern, ascii):
    return (PatternMessage(pattern),)


Contract(
    P + "properties_serialize_message", dict(pattern=list[str | Expression | Markup], ascii=bool), args=message_args, kwargs=flag, requires=sourced,
    result=message_text, prop="C10", public=True, name="properties_serialize_message",
)
