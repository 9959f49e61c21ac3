"""C03: MessageFormat 2 JSON data model"""
import copy, itertools, json
from moz.l10n.formats.mf2.from_json import mf2_from_json
from moz.l10n.formats.mf2.to_json import mf2_to_json
from moz.l10n.formats.mf2.validate import MF2ValidationError
from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef
from .common import cut, diff, exc, same, snap
from .gen import G, small_messages

CONTRACTS = ["mf2_json"]
BUDGET = 15
LEVEL = "other"
RULE = "all messages of a small grammar and every single change of their encodings (each member dropped, renamed, or replaced by each of 14 JSON values), then random messages, their encodings with up to 3 changes, and random JSON; non-trivial: the message or JSON is not empty"
EXPLANATION = "Encoder and decoder meet their contracts for all messages and the round trip is a lemma over these contracts (proved). That other JSON is reported with MF2ValidationError only is bounded: evaluated on changed encodings against a separate reader of the data model."
TECHNIQUE = "contracts on mf2_to_json, mf2_from_json and their helpers, discharged by z3 (pyvc); exception contract of mf2_from_json on arbitrary JSON evaluated at run time (bounded)"
JUNK = [None, True, False, 0, 1.5, "", "x", "input", "*", [], ["x"], {}, {"type": "literal", "value": "x"}, {"type": "variable", "name": "x"}]


class Bad(Exception):
    pass


def need(c):
    if not c:
        raise Bad()


# ---- the data model schema, read strictly; Bad: not a valid data model
def rd(d, typ, req, opt=()):
    need(isinstance(d, dict) and d.get("type") == typ and isinstance(d["type"], str))
    need(all(k in d for k in req) and set(d) <= {"type", *req, *opt})
    return d


def r_str(s):
    need(isinstance(s, str))
    return s


def r_lit(d):
    return r_str(rd(d, "literal", ["value"])["value"])


def r_var(d):
    return VariableRef(r_str(rd(d, "variable", ["name"])["name"]))


def r_value(d):
    need(isinstance(d, dict))
    return r_lit(d) if d.get("type") == "literal" else r_var(d)


def r_map(d, f):
    need(isinstance(d, dict))
    return {k: f(v) for k, v in d.items()}


def r_attr(d):
    return True if d is True else r_lit(d)


def r_expr(d):
    rd(d, "expression", [], ["arg", "function", "attributes"])
    arg = r_value(d["arg"]) if "arg" in d else None
    fn, opts = None, {}
    if "function" in d:
        f = rd(d["function"], "function", ["name"], ["options"])
        fn, opts = r_str(f["name"]), r_map(f.get("options", {}), r_value)
    need(arg is not None or fn is not None)
    return Expression(arg, fn, opts, r_map(d.get("attributes", {}), r_attr))


def r_markup(d):
    rd(d, "markup", ["kind", "name"], ["options", "attributes"])
    need(isinstance(d["kind"], str) and d["kind"] in ("open", "standalone", "close"))
    return Markup(d["kind"], r_str(d["name"]), r_map(d.get("options", {}), r_value), r_map(d.get("attributes", {}), r_attr))


def r_part(d):
    if isinstance(d, str):
        return d
    need(isinstance(d, dict))
    return r_markup(d) if d.get("type") == "markup" else r_expr(d)


def r_list(d, f):
    need(isinstance(d, list))
    return [f(x) for x in d]


def r_key(d):
    need(isinstance(d, dict))
    if d.get("type") == "literal":
        return r_lit(d)
    rd(d, "*", [], ["value"])
    return CatchallKey(r_str(d["value"]) if "value" in d else None)


def r_message(d):
    need(isinstance(d, dict))
    kind = d.get("type")
    rd(d, kind if kind in ("message", "select") else "message", ["declarations"] + (["selectors", "variants"] if kind == "select" else ["pattern"]))
    decl = {}
    need(isinstance(d["declarations"], list))
    for x in d["declarations"]:
        need(isinstance(x, dict))
        t = x.get("type")
        rd(x, t if t in ("input", "local") else "local", ["name", "value"])
        n, e = r_str(x["name"]), r_expr(x["value"])
        need(n not in decl)
        need(t == "local" or isinstance(e.arg, VariableRef) and e.arg.name == n)
        decl[n] = e
    if kind == "message":
        return PatternMessage(r_list(d["pattern"], r_part), decl)
    sels = tuple(r_list(d["selectors"], r_var))
    vs = {}
    need(isinstance(d["variants"], list))
    for v in d["variants"]:
        need(isinstance(v, dict) and set(v) == {"keys", "value"})
        ks = tuple(r_list(v["keys"], r_key))
        need(ks not in vs)
        vs[ks] = r_list(v["value"], r_part)
    return SelectMessage(decl, sels, vs)


def definitely_bad(d):
    """no message can be built from it: a member that is needed has a wrong value"""
    try:
        r_message(d)
        return False
    except Bad:
        pass
    # forgive what is merely surplus (members the data model does not have, an empty function), then read again
    try:
        r_message(forgive(d))
        return False
    except Bad:
        return True
    except Exception:
        return False


MEMBERS = {
    "message": {"declarations", "pattern"}, "select": {"declarations", "selectors", "variants"}, "input": {"name", "value"}, "local": {"name", "value"},
    "literal": {"value"}, "variable": {"name"}, "expression": {"arg", "function", "attributes"}, "function": {"name", "options"},
    "markup": {"kind", "name", "options", "attributes"}, "*": {"value"},
}


def forgive(d, where=None):
    if isinstance(d, list):
        return [forgive(x, "part") for x in d]
    if not isinstance(d, dict):
        return d
    if where in ("options", "attributes"):
        return {k: forgive(v, "v") for k, v in d.items()}
    t = d.get("type")
    if isinstance(t, str) and t in MEMBERS:
        keep = MEMBERS[t] | {"type"}
    elif "keys" in d and "value" in d:
        return {"keys": forgive(d["keys"], "keys"), "value": forgive(d["value"], "pattern")}
    else:
        return d
    out = {k: forgive(v, k) for k, v in d.items() if k in keep}
    if t == "expression" and not out.get("function"):
        out.pop("function", None)
    return out


def nodes(d, path=()):
    yield path
    if isinstance(d, dict):
        for k in d:
            yield from nodes(d[k], path + (k,))
    elif isinstance(d, list):
        for i, x in enumerate(d):
            yield from nodes(x, path + (i,))


def put(d, path, v):
    if not path:
        return v
    d = copy.deepcopy(d)
    x = d
    for p in path[:-1]:
        x = x[p]
    if v is DROP:
        del x[path[-1]]
    elif isinstance(v, tuple):
        if isinstance(x, dict):
            x[v[1]] = x.pop(path[-1])
        else:
            x.insert(path[-1], x[path[-1]])
    else:
        x[path[-1]] = v
    return d


DROP = object()


def changes(d):
    for p in nodes(d):
        for v in JUNK:
            yield put(d, p, v)
        if p:
            yield put(d, p, DROP)
            yield put(d, p, ("as", "zz"))


def cases(r, tier, shard, shards):
    def small():
        ms = list(small_messages())
        for m in ms:
            yield ("message", m)
        for m in ms[::7] if tier == "quick" else ms:
            try:
                j = mf2_to_json(m)
            except Exception:
                continue
            for c in changes(j):
                yield ("json", c)

    g = cut(small(), shard, shards)
    for k in itertools.count():
        m = G(r).message()
        yield ("random", m)
        try:
            j = mf2_to_json(m)
        except Exception:
            continue
        for _ in range(8):
            c = j
            for _ in range(r.randint(1, 3)):
                ns = list(nodes(c))
                p = r.choice(ns)
                v = r.choice(JUNK + ["open", "message", "select", "local", "literal", DROP, ("as", r.choice(["arg", "function", "value", "keys", "name"]))])
                if not p and (v is DROP or isinstance(v, tuple)):
                    continue
                try:
                    c = put(c, p, v)
                except Exception:
                    pass
            yield ("json", c)
        for _ in range(12):
            for x in itertools.islice(g, 1):
                yield x


def nontrivial(case):
    return bool(case[1])


def from_witness(name, w):
    for k in ("m", "message"):
        if k in w:
            return ("witness", w[k]) if isinstance(w[k], (PatternMessage, SelectMessage)) else None


def check(case):
    if case[0] != "json":
        m = case[1]
        m0 = snap(m)
        try:
            j = mf2_to_json(m)
            if not same(m, m0):
                return "mf2_to_json changed its argument"
            j = json.loads(json.dumps(j))
            try:
                if not same(r_message(j), m):
                    return f"encoding means another message: {diff(r_message(j), m)}"
            except Bad:
                return f"encoding is not a valid data model: {j!r}"
            j0 = snap(j)
            b = mf2_from_json(j)
            if not same(j, j0):
                return "mf2_from_json changed its argument"
        except Exception as e:
            return f"raised {exc(e)}"
        if not same(b, m):
            return f"decodes to another message: {diff(b, m)}; encoding {j!r}"
        return
    j = case[1]
    j0 = snap(j)
    try:
        want = r_message(j)
    except Bad:
        want = None
    try:
        got = mf2_from_json(j)
    except MF2ValidationError:
        got = None
    except Exception as e:
        return f"mf2_from_json raised {exc(e)} for {j!r}"
    if not same(j, j0):
        return "mf2_from_json changed its argument"
    if want is not None:
        if got is None:
            return f"valid data model refused: {j!r}"
        if not same(got, want):
            return f"decodes to another message: {diff(got, want)}; JSON {j!r}"
    elif got is not None and definitely_bad(j):
        return f"accepted as {got!r} though it is not a data model: {j!r}"
