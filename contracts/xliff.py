"""C16: formats/xliff: comments, names with namespaces, notes"""
from __future__ import annotations
from pyvc.contract import Contract, Relation
from moz.l10n.formats.xliff.parse import dash_indent
from moz.l10n.model import Metadata, Resource

S = "moz.l10n.formats.xliff.serialize:"
C = "moz.l10n.formats.xliff.common:"


def comment(content, indent):
    """on one line, or on lines of their own which are indented; never with two dashes, or a dash before the end"""
    cc = content.strip().replace("--", "-\u200b-\u200b")
    if "\n" not in cc:
        return " " + cc + " "
    return "\n" + "\n".join([" " * (indent + 2) + line if line else "" for line in cc.split("\n")]) + "\n" + " " * indent


def indented(content, indent):
    return indent >= 0


Contract(S + "comment_body", dict(content=str, indent=int), requires=indented, result=comment, prop="C16", name="comment_body")


# ---------------------------------------------------------------- notes
def note_in(meta):
    return any(p.split("[")[0] == "note" for p in meta.key.split("/"))


Contract(S + "has_note", dict(meta=Metadata), result=note_in, prop="C16", name="has_note")


# ---------------------------------------------------------------- names
def plain(nsmap, name):
    return ":" not in name or name.startswith("{")


def same(nsmap, name):
    return name


Contract(C + "clark_name", dict(nsmap=dict[str, str], name=str), requires=plain, result=same, prop="C16", name="clark_name/plain")


# ---------------------------------------------------------------- comments of files
F = "moz.l10n.formats.xliff.parse:"


def lines_of(body):
    """each comment with its lines trimmed, or without its indent of dashes"""
    lines = []
    for c in body:
        if c:
            if dash_indent.fullmatch(c):
                lines.append(c.replace("\n   - ", "\n").strip(" "))
            else:
                lines.append("\n".join([x.strip() for x in c.split("\n")]).strip("\n"))
    return "\n\n".join(lines).strip("\n")


Contract(F + "comment_str", dict(body=list[str]), result=lines_of, text=True, prop="C16", name="comment_str")


# ---------------------------------------------------------------- files from Xcode
TOOL = Metadata("header/tool/@tool-id", "com.apple.dt.xcode")


def xcode(res):
    return any(any(m.key == TOOL.key and m.value == TOOL.value for m in s.meta) for s in res.sections)


Contract("moz.l10n.formats.xliff.utils:xliff_is_xcode", dict(res=Resource[str]), result=xcode, prop="C16", name="xliff_is_xcode")
