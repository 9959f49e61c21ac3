"""C08: metadata operations"""
import itertools
from moz.l10n.model import Entry, Metadata, PatternMessage, Resource, Section
from .common import cut, diff, exc, same, snap
from .gen import string

CONTRACTS = ["metadata"]
BUDGET = 5
LEVEL = "proof"
RULE = "all metadata lists of up to 4 items over 3 keys and 2 values, and all operations on them; then random histories of operations; non-trivial: list not empty"
EXPLANATION = "get_meta, has_meta, set_meta and del_meta meet their contracts on entries, sections and resources for all metadata lists, keys and values."


def holder(kind, items):
    ms = [Metadata(k, v) for k, v in items]
    if kind == "entry":
        return Entry(("a",), PatternMessage(["x"]), {"p": PatternMessage([])}, "c", ms)
    if kind == "section":
        return Section(("s",), [Entry(("a",), "v", meta=[Metadata("k", "inner")])], "c", ms)
    return Resource(None, [Section((), [], meta=[Metadata("k", "inner")])], "c", ms)


OPS = [("get", k) for k in "klz"] + [("has", k, v) for k in "klz" for v in (None, "", "1")] + [("set", k, v) for k in "klz" for v in ("", "2")] + [("del", k) for k in "klz"]


def cases(r, tier, shard, shards):
    def small():
        for n in range(5 if tier != "quick" else 4):
            for ks in itertools.product("kl", repeat=n):
                for vs in itertools.product(("", "1"), repeat=n):
                    for kind in ("entry", "section", "resource"):
                        for op in OPS:
                            yield ("small", kind, list(zip(ks, vs)), [op])

    yield from cut(small(), shard, shards)
    while True:
        pool = ["k", "l", "", "K", "k ", string(r)]
        items = [(r.choice(pool), string(r)) for _ in range(r.randint(0, 6))]
        ops = []
        for _ in range(r.randint(1, 8)):
            k = r.choice(pool)
            ops.append(r.choice([("get", k), ("has", k, r.choice([None, "", string(r)] + [v for _, v in items])), ("set", k, string(r)), ("del", k)]))
        yield ("history", r.choice(["entry", "section", "resource"]), items, ops)


def nontrivial(case):
    return bool(case[2])


def from_witness(name, w):
    s = w["self"]
    kind = type(s).__name__.lower()
    op = name.rsplit(".", 1)[-1].split("_")[0] if "." in name else name.rsplit("-", 1)[-1]
    o = {"get": ("get", w["key"]), "del": ("del", w["key"]), "has": ("has", w["key"], w.get("value")), "set": ("set", w["key"], w.get("value"))}[op]
    return ("witness", kind, [(m.key, m.value) for m in s.meta], [o])


def check(case):
    _, kind, items, ops = case
    h = holder(kind, items)
    want = holder(kind, items)
    model = [list(x) for x in items]
    for op in ops:
        k = op[1]
        first = next((i for i, x in enumerate(model) if x[0] == k), None)
        try:
            if op[0] == "get":
                got, exp = h.get_meta(k), None if first is None else model[first][1]
            elif op[0] == "has":
                got, exp = h.has_meta(k, op[2]), any(x[0] == k and (op[2] is None or x[1] == op[2]) for x in model)
                if op[2] is None and h.has_meta(k) is not exp:
                    return f"has_meta({k!r}) is not {exp}"
            elif op[0] == "set":
                got, exp = h.set_meta(k, op[2]), None
                if first is None:
                    model.append([k, op[2]])
                else:
                    model[first][1] = op[2]
            else:
                got, exp = h.del_meta(k), sum(1 for x in model if x[0] == k)
                model = [x for x in model if x[0] != k]
        except Exception as e:
            return f"{op} raised {exc(e)}"
        if type(got) is not type(exp) or got != exp:
            return f"{op} on {items!r} gave {got!r}, not {exp!r}"
        want.meta = [Metadata(a, b) for a, b in model]
        if not same(h, want):
            return f"after {op}: {diff(h, want)}"
