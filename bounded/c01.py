"""C01: message JSON"""
import json, os
from functools import cache
from moz.l10n.message import message_from_json, message_to_json
from moz.l10n.model import PatternMessage
from .common import cut, diff, exc, same, snap
from .gen import G, small_messages

CONTRACTS = ["message_json"]
BUDGET = 15
LEVEL = "proof"
RULE = "all messages of a small grammar, then seeded random messages with arbitrary strings; non-trivial: has at least one part, declaration or variant"
EXPLANATION = "encode and decode functions meet their contracts for all messages; the round trip is a lemma over these contracts"


@cache
def schema():
    import jsonschema
    import pyvc.boot as b

    with open(os.path.join(b.REPO, "schemas", "message.json")) as f:
        return jsonschema.Draft7Validator(json.load(f))


def cases(r, tier, shard, shards):
    for m in cut(small_messages(), shard, shards):
        yield ("small", m)
    while True:
        yield ("random", G(r).message())


def nontrivial(case):
    m = case[1]
    return not isinstance(m, PatternMessage) or bool(m.pattern or m.declarations)


def from_witness(name, w):
    return ("witness", w["m"] if "m" in w else w["msg"]) if ("m" in w or "msg" in w) else None


def check(case):
    m = case[1]
    m0 = snap(m)
    try:
        j = message_to_json(m)
        if not same(m, m0):
            return f"message_to_json changed its argument: {diff(m, m0)}"
        j = json.loads(json.dumps(j))
        e = next(schema().iter_errors(j), None)
        if e is not None:
            return f"encoding {j!r} does not have the shape of schemas/message.json: {e.message}"
        j0 = snap(j)
        b = message_from_json(j)
        if not same(j, j0):
            return "message_from_json changed its argument"
    except Exception as e:
        return f"raised {exc(e)}"
    if not same(b, m):
        return f"decodes to another message: {diff(b, m)}; encoding {j!r}"
