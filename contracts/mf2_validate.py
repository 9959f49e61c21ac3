"""C06: contracts of formats/mf2/validate.py"""
import re
from typing import Literal
from pyvc.contract import Contract, lemma, pred
from moz.l10n.model import Expression, Markup, VariableRef
from moz.l10n.formats.mf2.validate import MF2ValidationError

M = "moz.l10n.formats.mf2.validate:"

# name-start and name of the MessageFormat 2 grammar
_S = (
    "a-zA-Z_\u00c0-\u00d6\u00d8-\u00f6\u00f8-\u02ff\u0370-\u037d\u037f-\u061b\u061d-\u1fff\u200c-\u200d\u2070-\u218f"
    "\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffc\U00010000-\U000effff"
)
NAME = re.compile("[" + _S + "][" + _S + "0-9\\-.\u00b7\u0300-\u036f\u203f-\u2040]*")
IDENT = re.compile(NAME.pattern + "(?::" + NAME.pattern + ")?")


@pred
def is_name(s):
    return NAME.fullmatch(s) is not None


@pred
def is_ident(s):
    return IDENT.fullmatch(s) is not None


@pred
def ok_variable(v):
    return is_name(v.name)


@pred
def ok_options(o):
    return all(is_ident(k) and (isinstance(v, str) or ok_variable(v)) for k, v in o.items())


@pred
def ok_attributes(a):
    return all(is_ident(k) for k in a)


@pred
def ok_expression(e):
    if isinstance(e.arg, VariableRef) and not ok_variable(e.arg):
        return False
    if e.function is None:
        return e.arg is not None and not e.options and ok_attributes(e.attributes)
    return is_ident(e.function) and ok_options(e.options) and ok_attributes(e.attributes)


@pred
def ok_markup(m):
    return is_ident(m.name) and ok_options(m.options) and ok_attributes(m.attributes)


@pred
def ok_pattern(p):
    return all(ok_expression(x) if isinstance(x, Expression) else ok_markup(x) if isinstance(x, Markup) else True for x in p)


def need(b):
    if not b:
        raise MF2ValidationError("not valid")


def s_variable(var):
    need(ok_variable(var))


def s_options(options):
    need(ok_options(options))


def s_attributes(attributes):
    need(ok_attributes(attributes))


def s_expression(expr):
    need(ok_expression(expr))


def s_markup(markup):
    need(ok_markup(markup))


def s_pattern(pattern):
    need(ok_pattern(pattern))


P = dict(prop="C06")
Contract(M + "_validate_variable", dict(var=VariableRef), result=s_variable, **P)
Contract(M + "_validate_options", dict(options=dict[str, str | VariableRef]), result=s_options, **P)
Contract(M + "_validate_attributes", dict(attributes=dict[str, str | Literal[True]]), result=s_attributes, **P)
Contract(M + "_validate_expression", dict(expr=Expression), result=s_expression, public=True, opaque=[ok_options, ok_attributes], **P)
Contract(M + "_validate_markup", dict(markup=Markup), result=s_markup, public=True, opaque=[ok_options, ok_attributes], **P)
Contract(M + "_validate_pattern", dict(pattern=list[str | Expression | Markup]), result=s_pattern, public=True, opaque=[ok_expression, ok_markup], **P)
