"""C02: contracts of entry_to_json and entry_from_json; message parts by the contracts of C01"""
from pyvc.contract import Contract, lemma, pred, ghost
from moz.l10n.model import Entry, Message, PatternMessage, Metadata
from .message_json import j_message, wf_message, TO, FROM


@pred
def wf_entry(e):
    return wf_message(e.value) and all(wf_message(p) for p in e.properties.values())


def j_id(id):
    return ".".join(part.replace("\\", "\\\\").replace(".", "\\.") for part in id)


@pred
def has_value(e):
    """an empty message is left out when there are properties"""
    if not e.properties:
        return True
    if not isinstance(e.value, PatternMessage):
        return True
    return bool(e.value.pattern) or bool(e.value.declarations)


def j_entry(e):
    json = {}
    if e.meta:
        json["@"] = [[m.key, m.value] for m in e.meta]
    if e.comment:
        json["#"] = e.comment
    if has_value(e):
        json["="] = j_message(e.value)
    if e.properties:
        json["+"] = {name: j_message(p) for name, p in e.properties.items()}
    return json


def encoded(entry):
    return (j_id(entry.id), j_entry(entry))


def arg_entry(e):
    return ("", j_entry(e))


def without_id(res, e):
    return res.value == e.value and res.properties == e.properties


def members(e):
    return Entry(("",), e.value, {n: p for n, p in e.properties.items()}, e.comment, [Metadata(m.key, m.value) for m in e.meta])


Contract(TO + "entry_to_json", dict(entry=Entry[Message]), requires=wf_entry, result=encoded, prop="C02", opaque=[wf_message], public=True)
Contract(FROM + "entry_from_json", dict(e=Entry[Message]), requires=wf_entry, args=arg_entry, result=members, prop="C02", opaque=[wf_message], public=True)


def roundtrip(e):
    from moz.l10n.message.from_json import entry_from_json
    from moz.l10n.message.to_json import entry_to_json

    return entry_from_json("", entry_to_json(e)[1]), members(e)


lemma("C02/decode-encode-identity-but-id", dict(e=Entry[Message]), roundtrip, requires=wf_entry, prop="C02", opaque=[wf_message])
