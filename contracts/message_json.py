"""C01: contracts of message/to_json.py and message/from_json.py (messages)."""
from pyvc.contract import Contract, lemma, pred, ghost
from moz.l10n.model import (
    CatchallKey, Expression, Markup, Message, PatternMessage, SelectMessage, VariableRef,
)

TO = "moz.l10n.message.to_json:"
FROM = "moz.l10n.message.from_json:"


# ---- well-formedness (from the documentation of the model classes)
@pred
def wf_expr(e):
    return (
        (e.arg is not None or e.function is not None)
        and (e.function is None or e.function != "")
        and (e.function is not None or not e.options)
    )


@pred
def wf_part(p):
    return wf_expr(p) if isinstance(p, Expression) else True


@pred
def wf_pattern(ps):
    return all(wf_part(p) for p in ps)


@pred
def wf_key(k):
    return True if isinstance(k, str) else (k.value is None or k.value != "")


@pred
def wf_keys(ks):
    return all(wf_key(k) for k in ks)


@pred
def wf_message(m):
    if isinstance(m, PatternMessage):
        return wf_pattern(m.pattern) and all(wf_expr(e) for e in m.declarations.values())
    return (
        all(wf_expr(e) for e in m.declarations.values())
        and all(wf_pattern(p) for p in m.variants.values())
        and all(wf_keys(ks) for ks in m.variants.keys())
    )


# ---- the encoding, as the schema describes it
def j_value(v):
    return v if isinstance(v, str) else {"$": v.name}


@ghost
def j_options(o):
    return {name: j_value(v) for name, v in o.items()}


@ghost
def j_expr(e):
    json = {}
    if isinstance(e.arg, str):
        json["_"] = e.arg
    elif e.arg is not None:
        json["$"] = e.arg.name
    if e.function is not None:
        json["fn"] = e.function
        if e.options:
            json["opt"] = j_options(e.options)
    if e.attributes:
        json["attr"] = {name: v for name, v in e.attributes.items()}
    return json


@ghost
def j_markup(m):
    json = {}
    if m.kind == "open":
        json["open"] = m.name
    elif m.kind == "close":
        json["close"] = m.name
    else:
        json["elem"] = m.name
    if m.options:
        json["opt"] = j_options(m.options)
    if m.attributes:
        json["attr"] = {name: v for name, v in m.attributes.items()}
    return json


def j_part(p):
    if isinstance(p, str):
        return p
    if isinstance(p, Markup):
        return j_markup(p)
    return j_expr(p)


@ghost
def j_pattern(ps):
    return [j_part(p) for p in ps]


def j_key(k):
    if isinstance(k, str):
        return k
    if k.value is None:
        return {"*": ""}
    return {"*": k.value}


@ghost
def j_message(m):
    decl = {name: j_expr(e) for name, e in m.declarations.items()}
    if isinstance(m, PatternMessage):
        if decl:
            return {"decl": decl, "msg": j_pattern(m.pattern)}
        return j_pattern(m.pattern)
    return {
        "decl": decl,
        "sel": [s.name for s in m.selectors],
        "alt": [
            {"keys": [j_key(k) for k in keys], "pat": j_pattern(ps)} for keys, ps in m.variants.items()
        ],
    }


def arg_expr(e):
    return (j_expr(e),)


def arg_markup(m):
    return (j_markup(m),)


def arg_options(o):
    return (j_options(o),)


def arg_pattern(ps):
    return (j_pattern(ps),)


def arg_message(m):
    return (j_message(m),)


def same(x):
    return x


OPTIONS = dict[str, str | VariableRef]
PATTERN = list[str | Expression | Markup]

Contract(TO + "_options", dict(options=OPTIONS), result=j_options, prop="C01")
Contract(TO + "_expression", dict(expr=Expression), requires=wf_expr, result=j_expr, prop="C01")
Contract(TO + "_markup", dict(markup=Markup), result=j_markup, prop="C01")
Contract(TO + "_pattern", dict(pattern=PATTERN), requires=wf_pattern, result=j_pattern, prop="C01")
Contract(TO + "message_to_json", dict(msg=Message), requires=wf_message, result=j_message, prop="C01", public=True)

Contract(FROM + "_options", dict(o=OPTIONS), args=arg_options, provenance="j_options", result=same, prop="C01")
Contract(FROM + "_expression", dict(e=Expression), requires=wf_expr, args=arg_expr, provenance="j_expr", result=same, prop="C01")
Contract(FROM + "_markup", dict(m=Markup), args=arg_markup, provenance="j_markup", result=same, prop="C01")
Contract(FROM + "_pattern", dict(ps=PATTERN), requires=wf_pattern, args=arg_pattern, provenance="j_pattern", result=same, prop="C01")
Contract(FROM + "message_from_json", dict(m=Message), requires=wf_message, args=arg_message, provenance="j_message", result=same, prop="C01", public=True)


def roundtrip(m):
    from moz.l10n.message.from_json import message_from_json
    from moz.l10n.message.to_json import message_to_json

    return message_from_json(message_to_json(m)), m


lemma("C01/decode-encode-identity", dict(m=Message), roundtrip, requires=wf_message, prop="C01")
