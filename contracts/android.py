"""C15: formats/android: attributes and comments of strings, names of entities and placeholders, escapes"""
from __future__ import annotations
from pyvc.contract import Contract, Relation
from moz.l10n.formats.android.parse import arg_idx, dash_indent
from moz.l10n.model import Expression, Metadata, VariableRef

S = "moz.l10n.formats.android.serialize:"
P = "moz.l10n.formats.android.parse:"


# ---------------------------------------------------------------- attributes
def no_name(name, meta):
    return all(m.key != "name" for m in meta)


def attrib(name, meta):
    res = {"name": name}
    for m in meta:
        res[m.key] = m.value
    return res


def has_name(exc, name, meta):
    return any(m.key == "name" for m in meta)


Contract(S + "get_attrib", dict(name=str, meta=list[Metadata]), requires=no_name, result=attrib, prop="C15", name="get_attrib")


# ---------------------------------------------------------------- comments
def comment(content, indent):
    """on one line, or on lines of their own which are indented; never with two dashes, or a dash before the end"""
    cc = content.strip().replace("--", "-\u200b-\u200b")
    if "\n" not in cc:
        return " " + cc + " "
    return "\n" + "\n".join([" " * (indent + 2) + line if line else "" for line in cc.split("\n")]) + "\n" + " " * indent


def indented(content, indent):
    return indent >= 0


Contract(S + "comment_body", dict(content=str, indent=int), requires=indented, result=comment, prop="C15", name="comment_body")


# ---------------------------------------------------------------- entities
def named(part):
    return part.function != "entity" or isinstance(part.arg, VariableRef) and part.arg.name != ""


def entity(part):
    return part.arg.name if part.function == "entity" else None


Contract(S + "entity_name", dict(part=Expression), requires=named, result=entity, prop="C15", name="entity_name")


# ---------------------------------------------------------------- placeholders
def var_name(res, src):
    """the index of an argument, or a name, but never nothing"""
    m = arg_idx.match(src)
    return res == ("arg" + m[1][0] if m[1] else "arg") if m else res != ""


Relation(P + "get_var_name", dict(src=str), ensures=var_name, returns=str, prop="C15", name="get_var_name")


# ---------------------------------------------------------------- comments of files
def lines_of(body):
    """each comment with its lines trimmed, or without its indent of dashes"""
    lines = []
    for c in body:
        if c:
            if dash_indent.fullmatch(c):
                lines.append(c.replace("\n   - ", "\n").strip(" "))
            else:
                lines.append("\n".join([x.strip() for x in c.split("\n")]).strip("\n"))
    return "\n\n".join(lines).strip("\n")


Contract(P + "comment_str", dict(body=list[str | None]), result=lines_of, text=True, prop="C15", name="comment_str")
