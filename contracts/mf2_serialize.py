"""C04: contracts of formats/mf2/serialize.py: the text of each construct is the text its grammar rule spells"""
import re
from typing import Literal
from pyvc.contract import Contract, text
from moz.l10n.model import CatchallKey, Expression, Markup, Message, PatternMessage, SelectMessage, VariableRef
from contracts.mf2_validate import NAME

M = "moz.l10n.formats.mf2.serialize:"
NUMBER = re.compile(r"-?(?:0|(?:[1-9]\d*))(?:\.\d+)?(?:[eE][-+]?\d+)?")
LITERAL_ESC = re.compile(r"[\\|]")
TEXT_ESC = re.compile(r"[\\{}]")
COMPLEX = re.compile("[\t\n\r \u061c\u200e\u200f\u2066-\u2069\u3000]*\\.")


def t_literal(s):
    if NAME.fullmatch(s) or NUMBER.fullmatch(s):
        return s
    return "|" + LITERAL_ESC.sub(r"\\\g<0>", s) + "|"


def t_value(v):
    return t_literal(v) if isinstance(v, str) else "$" + v.name


@text
def t_options(options):
    return "".join([" " + k + "=" + t_value(v) for k, v in options.items()])


@text
def t_attributes(attributes):
    return "".join([" @" + k if v is True else " @" + k + "=" + t_literal(v) for k, v in attributes.items()])


@text
def t_expression(e):
    s = "{"
    if e.arg is not None:
        s += t_value(e.arg)
        if e.function:
            s += " "
    if e.function:
        s += ":" + e.function
    return s + t_options(e.options) + t_attributes(e.attributes) + "}"


@text
def t_markup(m):
    s = "{/" if m.kind == "close" else "{#"
    s += m.name + t_options(m.options) + t_attributes(m.attributes)
    return s + ("/}" if m.kind == "standalone" else "}")


def t_part(p):
    return TEXT_ESC.sub(r"\\\g<0>", p) if isinstance(p, str) else t_expression(p) if isinstance(p, Expression) else t_markup(p)


@text
def t_pattern(pattern):
    return "".join([t_part(p) for p in pattern])


def t_quoted(pattern):
    return "{{" + t_pattern(pattern) + "}}"


def t_decl(name, e):
    s = ".input " if isinstance(e.arg, VariableRef) and e.arg.name == name else ".local $" + name + " = "
    return s + t_expression(e) + "\n"


def t_key(k):
    return "* " if isinstance(k, CatchallKey) else t_literal(k) + " "


def t_message(m):
    if isinstance(m, PatternMessage) and not m.declarations:
        simple = t_pattern(m.pattern)
        return t_quoted(m.pattern) if COMPLEX.match(simple) else simple
    s = "".join([t_decl(n, e) for n, e in m.declarations.items()])
    if isinstance(m, PatternMessage):
        return s + t_quoted(m.pattern)
    s += ".match" + "".join([" $" + v.name for v in m.selectors])
    return s + "".join(["\n" + "".join([t_key(k) for k in ks]) + t_quoted(p) for ks, p in m.variants.items()])


P = dict(prop="C04")
Contract(M + "_literal", dict(literal=str), result=t_literal, **P)
Contract(M + "_value", dict(value=str | VariableRef), result=t_value, **P)
Contract(M + "_options", dict(options=dict[str, str | VariableRef]), result=t_options, text=True, **P)
Contract(M + "_attributes", dict(attributes=dict[str, str | Literal[True]]), result=t_attributes, text=True, **P)


Contract(M + "_expression", dict(expr=Expression), result=t_expression, text=True, opaque=[t_options, t_attributes], **P)
Contract(M + "_markup", dict(markup=Markup), result=t_markup, text=True, opaque=[t_options, t_attributes], **P)
Contract(M + "mf2_serialize_pattern", dict(pattern=list[str | Expression | Markup]), result=t_pattern, text=True, opaque=[t_expression, t_markup], public=True, **P)
Contract(M + "_quoted_pattern", dict(pattern=list[str | Expression | Markup]), result=t_quoted, text=True, opaque=[t_pattern], **P)
Contract(M + "mf2_serialize_message", dict(message=Message), result=t_message, opaque=[t_pattern, t_expression], public=True, **P)
