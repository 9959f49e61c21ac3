"""C02: entry JSON"""
import itertools, json, os
from functools import cache
from moz.l10n.message import entry_from_json, entry_to_json, message_to_json
from moz.l10n.model import Entry, Expression, Metadata, PatternMessage, SelectMessage, CatchallKey, VariableRef
from .common import cut, diff, exc, same, snap
from .gen import G, nonempty

CONTRACTS = ["message_json", "entry_json"]
BUDGET = 12
LEVEL = "other"
RULE = "all ids of up to 3 parts over the alphabet a . \\ newline with parts of up to 3 characters, all combinations of empty and non-empty members; then random entries; non-trivial: more than one id part or a non-empty member"
EXPLANATION = "All members but the id: contracts of entry_to_json and entry_from_json and their round-trip lemma are proved for all entries (on top of the contracts of C01). The id encoding (join and tokenizer regex) is bounded: enumerated and random ids, run on the real code."
PARTS = ["".join(x) for k in (1, 2, 3) for x in itertools.product("a.\\\n", repeat=k)]
FEW = ["a", ".", "\\", "\\.", ".\\", "\\\\", "a.b", ""]


@cache
def validator():
    import jsonschema
    import pyvc.boot as b
    from referencing import Registry

    d = os.path.join(b.REPO, "schemas")
    reg = Registry().with_contents([("./message.json", json.load(open(os.path.join(d, "message.json"))))])
    return jsonschema.Draft7Validator(json.load(open(os.path.join(d, "entry.json"))), registry=reg)


def cases(r, tier, shard, shards):
    def small():
        for n in (1, 2):
            for p in itertools.product(PARTS if n == 1 or tier != "quick" else PARTS[::3] + FEW, repeat=n):
                yield ("id", Entry(tuple(p), PatternMessage(["x"])))
        for p in itertools.product(FEW, repeat=3):
            yield ("id", Entry(tuple(p), PatternMessage([])))
        d = {"v": Expression("1")}
        vals = [PatternMessage([]), PatternMessage([""]), PatternMessage(["x"]), PatternMessage([], d),
                SelectMessage({"n": Expression(VariableRef("n"), "f")}, (VariableRef("n"),), {(CatchallKey(),): []})]
        props = [{}, {"p": PatternMessage([])}, {"p.q": PatternMessage(["y"]), "": PatternMessage([], d)}]
        metas = [[], [Metadata("k", "")], [Metadata("k", "1"), Metadata("", "2"), Metadata("k", "1")]]
        for v, p, c, m in itertools.product(vals, props, ["", " ", "c\n"], metas):
            yield ("member", Entry(("a", "b.c"), v, p, c, m))

    yield from cut(small(), shard, shards)
    while True:
        yield ("random", G(r).entry())
        a, b = G(r).id(), G(r).id()
        yield ("pair", a, b)


def nontrivial(case):
    e = case[1]
    return case[0] == "pair" or len(e.id) > 1 or bool(e.comment or e.meta or e.properties)


def from_witness(name, w):
    e = w.get("e") or w.get("entry")
    if not e.id:
        e.id = ("a",)
    return ("witness", e)


def check(case):
    if case[0] == "pair":
        a, b = (entry_to_json(Entry(x, PatternMessage([])))[0] for x in case[1:])
        if (a == b) != (case[1] == case[2]):
            return f"ids {case[1]!r} and {case[2]!r} both encode to {a!r}"
        return None
    e = case[1]
    e0 = snap(e)
    try:
        key, j = entry_to_json(e)
        if not same(e, e0):
            return f"entry_to_json changed its argument: {diff(e, e0)}"
        if not isinstance(key, str):
            return f"key {key!r}"
        want = set()
        if e.meta:
            want.add("@")
        if e.comment:
            want.add("#")
        if e.properties:
            want.add("+")
        if not e.properties or not isinstance(e.value, PatternMessage) or e.value.pattern or e.value.declarations:
            want.add("=")
        if set(j) != want:
            return f"members {sorted(j)} instead of {sorted(want)}"
        j = json.loads(json.dumps(j))
        err = next(validator().iter_errors(j), None)
        if err is not None:
            return f"encoding {j!r} does not have the shape of schemas/entry.json: {err.message}"
        b = entry_from_json(key, j)
    except Exception as x:
        return f"raised {exc(x)}"
    if not same(b, e):
        return f"decodes to another entry: {diff(b, e)}; key {key!r} encoding {j!r}"
