"""C03: contracts of formats/mf2/to_json.py and formats/mf2/from_json.py"""
from pyvc.contract import Contract, lemma, pred, ghost
from moz.l10n.model import CatchallKey, Expression, Markup, Message, PatternMessage, SelectMessage, VariableRef
from moz.l10n.formats.mf2.validate import MF2ValidationError

TO = "moz.l10n.formats.mf2.to_json:"
FROM = "moz.l10n.formats.mf2.from_json:"


# ---- what the data model classes document
@pred
def wf_expr(e):
    return (e.arg is not None or e.function is not None) and (e.function is not None or not e.options)


@pred
def wf_pattern(ps):
    return all(wf_expr(p) if isinstance(p, Expression) else True for p in ps)


@pred
def wf_message(m):
    if isinstance(m, PatternMessage):
        return wf_pattern(m.pattern) and all(wf_expr(e) for e in m.declarations.values())
    return all(wf_expr(e) for e in m.declarations.values()) and all(wf_pattern(p) for p in m.variants.values())


# ---- the MessageFormat 2 data model
def j_literal(s):
    return {"type": "literal", "value": s}


def j_variable(v):
    return {"type": "variable", "name": v.name}


def j_value(v):
    return j_literal(v) if isinstance(v, str) else j_variable(v)


@ghost
def j_options(o):
    return {name: j_value(v) for name, v in o.items()}


@ghost
def j_attributes(a):
    return {name: (True if v is True else j_literal(v)) for name, v in a.items()}


@ghost
def j_expr(e):
    json = {"type": "expression"}
    if e.arg is not None:
        json["arg"] = j_value(e.arg)
    if e.function is not None:
        fn = {"type": "function", "name": e.function}
        if e.options:
            fn["options"] = j_options(e.options)
        json["function"] = fn
    if e.attributes:
        json["attributes"] = j_attributes(e.attributes)
    return json


@ghost
def j_markup(m):
    json = {"type": "markup", "kind": m.kind, "name": m.name}
    if m.options:
        json["options"] = j_options(m.options)
    if m.attributes:
        json["attributes"] = j_attributes(m.attributes)
    return json


def j_part(p):
    if isinstance(p, str):
        return p
    if isinstance(p, Markup):
        return j_markup(p)
    return j_expr(p)


@ghost
def j_pattern(ps):
    return [j_part(p) for p in ps]


def j_key(k):
    if isinstance(k, str):
        return j_literal(k)
    if k.value is None:
        return {"type": "*"}
    return {"type": "*", "value": k.value}


def j_decl(name, e):
    kind = "input" if isinstance(e.arg, VariableRef) and e.arg.name == name else "local"
    return {"type": kind, "name": name, "value": j_expr(e)}


@ghost
def j_message(m):
    decl = [j_decl(name, e) for name, e in m.declarations.items()]
    if isinstance(m, PatternMessage):
        return {"type": "message", "declarations": decl, "pattern": j_pattern(m.pattern)}
    return {
        "type": "select",
        "declarations": decl,
        "selectors": [j_variable(s) for s in m.selectors],
        "variants": [{"keys": [j_key(k) for k in keys], "value": j_pattern(ps)} for keys, ps in m.variants.items()],
    }


def arg_expr(e):
    return (j_expr(e),)


def arg_markup(m):
    return (j_markup(m),)


def arg_options(o):
    return (j_options(o),)


def arg_attributes(a):
    return (j_attributes(a),)


def arg_pattern(ps):
    return (j_pattern(ps),)


def arg_message(m):
    return (j_message(m),)


def same(x):
    return x


OPTIONS = dict[str, str | VariableRef]
from typing import Literal
ATTRS = dict[str, str | Literal[True]]
PATTERN = list[str | Expression | Markup]

P = dict(prop="C03")
Contract(TO + "_options", dict(options=OPTIONS), result=j_options, **P)
Contract(TO + "_attributes", dict(attributes=ATTRS), result=j_attributes, **P)
Contract(TO + "_expression", dict(expr=Expression), requires=wf_expr, result=j_expr, **P)
Contract(TO + "_markup", dict(markup=Markup), result=j_markup, **P)
Contract(TO + "_pattern", dict(pattern=PATTERN), requires=wf_pattern, result=j_pattern, **P)
Contract(TO + "mf2_to_json", dict(message=Message), requires=wf_message, result=j_message, public=True, **P)

Contract(FROM + "_options", dict(o=OPTIONS), args=arg_options, provenance="j_options", result=same, **P)
Contract(FROM + "_attributes", dict(a=ATTRS), args=arg_attributes, provenance="j_attributes", result=same, **P)
Contract(FROM + "_expression", dict(e=Expression), requires=wf_expr, args=arg_expr, provenance="j_expr", result=same, **P)
Contract(FROM + "_markup", dict(m=Markup), args=arg_markup, provenance="j_markup", result=same, **P)
Contract(FROM + "_pattern", dict(ps=PATTERN), requires=wf_pattern, args=arg_pattern, provenance="j_pattern", result=same, **P)
Contract(FROM + "mf2_from_json", dict(m=Message), requires=wf_message, args=arg_message, provenance="j_message", result=same, public=True, **P)


def roundtrip(m):
    from moz.l10n.formats.mf2.from_json import mf2_from_json
    from moz.l10n.formats.mf2.to_json import mf2_to_json

    return mf2_from_json(mf2_to_json(m)), m


lemma("C03/decode-encode-identity", dict(m=Message), roundtrip, requires=wf_message, prop="C03")
