"""C25: migrations"""
import os, tempfile
from moz.l10n.migrate import Migrate, copy, entry
from moz.l10n.migrate.utils import get_pattern, plural_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, SelectMessage, VariableRef
from moz.l10n.paths import L10nConfigPaths, L10nDiscoverPaths
from moz.l10n.resource import parse_resource, serialize_resource
from moz.l10n.formats import Format
from .c21 import EXT, FMT, IDS, put, read, text
from .common import exc, same, snap

CONTRACTS = ["migrate"]
BUDGET = 20
LEVEL = "other"
RULE = "random trees of 1-3 resources in eight formats for 1-3 locales (missing, unparseable, partly translated), random maps of up to 6 ids to constants, copies (whole entries, values, attributes, variants, with replaced placeholders), combined entries and functions which give nothing, with discovered and configured paths, and get_entry / insert_entry_after positions; non-trivial: all"
EXPLANATION = "for all inputs: plural_message, get_entry and get_pattern meet their contracts; in addition Migrate.apply is run on random trees of files and the files compared with an independent computation from the parsed resources: the values of the functions, the position of each added entry, and everything else left as it was"

KINDS = ["fluent", "properties", "ini", "dtd", "gettext", "android", "plain_json", "fluent", "ini"]
NEW = ["n1", "n2", "n3", "n4"]


def cases(r, tier, shard, shards):
    while True:
        lcs = r.sample(["fr", "de", "en-GB"], r.randrange(1, 4))
        kinds = [r.choice(KINDS) for _ in range(r.choice([1, 2, 2, 3]))]
        if r.random() < 0.5:
            kinds = [kinds[0]] * len(kinds)
        files = []
        for i, f in enumerate(kinds):
            name = r.choice(["", "", "d/"]) + f"f{i}" + EXT[f]
            ref = text(r, f, r.sample(IDS, r.randrange(1, 6)), "src")
            locs = {}
            for lc in lcs:
                k = r.random()
                if k < 0.15:
                    continue
                locs[lc] = text(r, f, r.sample(IDS + r.choice([[], NEW[:2]]), r.randrange(0, 6)), lc)
                if k < 0.25:
                    locs[lc] = {"fluent": "= x\n", "ini": "[s\n", "dtd": "x", "android": "<x", "plain_json": "{", "gettext": "msgfoo", "properties": "a = \\u1"}[f]
            files.append((f, name, ref, locs))
        spec = {}
        for i in r.sample(range(len(files)), r.choice([1, 1, len(files)])):
            f = files[i][0]
            ids = []
            for _ in range(r.choice([1, 2, 3, 6])):
                x = r.choice(NEW * 2 + IDS)
                x = ((r.choice(["s", "s", "t", "u"]), x) if f == "ini" else (x,) if r.random() < 0.5 else x)
                if x not in ids and (x,) not in ids and (isinstance(x, str) or len(x) > 1 or x[0] not in ids):
                    ids.append(x)
            spec[files[i][1]] = {x: action(r, f, files) for x in ids}
        yield ("apply", files, lcs, spec, r.random() < 0.25, r.choice(["discover", "config"]))


def anyid(r, f):
    x = r.choice(IDS + NEW[:1])
    if f not in ("ini", "gettext") and r.random() < 0.3:
        return x
    return (r.choice("stu"), x) if f == "ini" else (x, "ctx") if f == "gettext" and r.random() < 0.5 else (x,)


def action(r, f, files):
    """a description of a migration function"""
    k = r.random()
    if k < 0.2:
        return ("const", r.choice(["A new one", "x", PatternMessage(["in ", "parts"]), ""]))
    if k < 0.65:
        same_fmt = [n for g, n, _, _ in files if g == f]
        path = r.choice([None, None] + same_fmt)
        kw = {}
        if r.random() < 0.3:
            kw["value_only"] = True
        elif r.random() < 0.3:
            kw["property"] = r.choice("xyz")
        if r.random() < 0.25:
            kw["variant"] = r.choice(["one", "0", "zz", ("one",)])
        if r.random() < 0.25:
            kw["replace"] = True
        return ("copy", path, anyid(r, f), kw)
    if k < 0.8:
        return ("entry", r.choice([None, action(r, f, files), "text"]), {p: r.choice([action(r, f, files), "p", ("after", "v3", [anyid(r, f)])]) for p in r.sample("xyz", r.choice([0, 0, 1, 2]) if f == "fluent" else 0)}, r.random() < 0.4, r.choice([None, None, "new comment"]))
    if k < 0.85:
        return ("none",)
    if k < 0.9:
        return ("stop",)
    if k < 0.95:
        return ("after", r.choice(["v1", "v2"]), [anyid(r, f) for _ in range(r.choice([0, 1, 2, 3]))])
    return ("plural", r.choice([None, "one"]))


def repl(part):
    if isinstance(part, str):
        return part.replace("1", "one") if "1" in part else None
    if isinstance(part, Expression):
        return Expression(VariableRef("arg")) if part.arg == VariableRef("x") else None
    return ""


def build(a, pre=""):
    """the real migration function for a description"""
    if a[0] == "const":
        return lambda res, ctx: a[1] if not isinstance(a[1], str) else PatternMessage([a[1]] if a[1] else [])
    if a[0] == "copy":
        kw = dict(a[3])
        if kw.pop("replace", None):
            kw["replace"] = repl
        return copy(a[1] and pre + a[1], a[2], **kw)
    if a[0] == "entry":
        v = a[1]
        return entry(build(v, pre) if isinstance(v, tuple) else v, {k: build(p, pre) if isinstance(p, tuple) else p for k, p in a[2].items()}, allow_partial=a[3], comment=a[4])
    if a[0] == "none":
        return lambda res, ctx: None
    if a[0] == "stop":
        return lambda res, ctx: PatternMessage(get_pattern(res, "none", "such"))
    if a[0] == "after":
        return lambda res, ctx: (PatternMessage([a[1]]), set(a[2]))
    return lambda res, ctx: plural_message("n", one=["1"] if a[1] else None, other=["2"])


# ---------------------------------------------------------------- the independent computation
class Gone(Exception):
    pass


def find(res, i):
    for s in res.sections:
        if s.id == i[: len(s.id)]:
            for e in s.entries:
                if isinstance(e, Entry) and e.id == i[len(s.id) :]:
                    return e
    return None


def replaced(parts):
    out = []
    for p in parts:
        q = repl(p)
        out.append(p if q is None else q)
    return out


def value(a, res, other, tid):
    """-> None or (Entry or Message, ids after which it goes or None)"""
    if a[0] == "const":
        v = a[1]
        return (PatternMessage([v] if v else []) if isinstance(v, str) else snap(v)), None
    if a[0] == "none":
        return None
    if a[0] == "stop":
        raise Gone
    if a[0] == "after":
        return PatternMessage([a[1]]), {x if isinstance(x, tuple) else (x,) for x in a[2]}
    if a[0] == "plural":
        v = {("one",): ["1"]} if a[1] else {}
        v[(CatchallKey("other"),)] = ["2"]
        return SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), v), None
    if a[0] == "copy":
        _, path, i, kw = a
        r = res if not path else other(path)
        if r is None:
            return None
        i = (i,) if isinstance(i, str) else i
        e = find(r, i)
        if e is None:
            return None
        e = snap(e)
        var = kw.get("variant")
        if kw.get("property") is None and var is None:
            if kw.get("replace"):
                for m in [e.value, *e.properties.values()]:
                    if isinstance(m, PatternMessage):
                        m.pattern = replaced(m.pattern)
                    else:
                        m.variants = {k: replaced(p) for k, p in m.variants.items()}
            return (e.value if kw.get("value_only") else e), {i}
        m = e.value
        if kw.get("property") is not None:
            m = e.properties.get(kw["property"])
            if m is None:
                return None
        if isinstance(m, PatternMessage):
            p = m.pattern
        else:
            var = (var,) if isinstance(var, str) else var
            p = m.variants[var] if var in m.variants else next((q for k, q in m.variants.items() if all(isinstance(x, CatchallKey) for x in k)), None)
            if p is None:
                return None
        return PatternMessage(replaced(p) if kw.get("replace") else p), {i}
    _, v, props, partial, comment = a
    after, meta, com = set(), None, comment
    val = v
    if isinstance(v, tuple):
        x = value(v, res, other, tid)
        val = None
        if x is not None:
            val = x[0]
            after |= x[1] or set()
    if isinstance(val, Entry):
        com = val.comment if com is None else com
        meta = val.meta
        val = val.value
    if val is None and v is not None and not partial:
        return None
    if isinstance(val, str):
        val = PatternMessage([val])
    out = {}
    for k, p in props.items():
        if isinstance(p, tuple):
            x = value(p, res, other, tid)
            if x is None:
                if partial:
                    continue
                return None
            after |= x[1] or set()
            p = x[0]
        out[k] = PatternMessage([p]) if isinstance(p, str) else p.value if isinstance(p, Entry) else p
    if val is None and not out:
        return None
    return Entry(tid, PatternMessage([]) if val is None else val, out, com or "", meta or []), after


def insert(res, e, ids):
    fit = [s for s in res.sections if s.id == e.id[: len(s.id)]]
    if not fit:
        raise StopIteration
    full = e.id
    for s in reversed(fit):
        for j in range(len(s.entries) - 1, -1, -1):
            x = s.entries[j]
            if isinstance(x, Entry) and s.id + x.id in ids:
                e.id = full[len(s.id) :]
                s.entries.insert(j + 1, e)
                return
    e.id = full[len(fit[-1].id) :]
    fit[-1].entries.append(e)


def check(case):
    _, files, lcs, spec, dry, how = case
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        for f, n, ref, locs in files:
            put(os.path.join(d, "en-US", n), ref)
            for lc, t in locs.items():
                put(os.path.join(d, lc, n), t)
        for lc in lcs:
            os.makedirs(os.path.join(d, lc), exist_ok=True)
        if how == "config":
            put(os.path.join(d, "l10n.toml"), f'locales = {sorted(lcs)!r}\n[[paths]]\nreference = "en-US/**"\nl10n = "{{locale}}/**"\n'.replace("'", '"'))
            paths = L10nConfigPaths(os.path.join(d, "l10n.toml"))
        else:
            paths = L10nDiscoverPaths(d, ref_root=os.path.join(d, "en-US"))
        before = {os.path.relpath(os.path.join(a, x), d): read(os.path.join(a, x)) for a, _, xs in os.walk(d) for x in xs}
        by = {n: (f, ref, locs) for f, n, ref, locs in files}

        def parsed(p):
            try:
                return parse_resource(os.path.join(d, p), before[p]) if p in before else None
            except Exception:
                return None

        for n in spec:
            x = parsed(f"en-US/{n}")
            for p in [x] + [parsed(f"{lc}/{n}") for lc in lcs]:
                if p is not None:
                    ids = [s.id + e.id for s in p.sections for e in s.entries if isinstance(e, Entry)]
                    if len(ids) != len(set(ids)):
                        return None
        # expectation, per written file
        want, raises = {}, None
        disk = dict(before)
        order = list(spec)
        try:
            for n in order:
                for lc in sorted(lcs):  # independent of each other
                    p = f"{lc}/{n}"
                    cache = {}

                    def other(q):
                        if f"{lc}/{q}" not in disk:
                            return None
                        if q not in cache:
                            try:
                                cache[q] = parse_resource(os.path.join(d, lc, q), disk[f"{lc}/{q}"])
                            except Exception:
                                cache[q] = None
                        return cache[q]

                    res = other(n)
                    if res is None:
                        if p in disk:
                            continue
                        f = by[n][0]
                        src = parsed(f"en-US/{n}")
                        if src is None:
                            continue
                        if f == "ini":
                            res = src
                            for s in res.sections:
                                s.entries.clear()
                        else:
                            from moz.l10n.model import Resource, Section

                            res = Resource(src.format, [Section((), [])])
                    elif n in cache:
                        res = cache[n]
                    added, done = [], []
                    for i, a in spec[n].items():
                        tid = (i,) if isinstance(i, str) else i
                        if find(res, tid) is None:
                            try:
                                v = value(a, res, other, tid)
                            except Gone:
                                v = None
                            if v is not None:
                                m, after = v
                                if isinstance(m, Entry):
                                    ids = {m.id} if after is None else after
                                    e = Entry(tid, m.value, m.properties, m.comment, m.meta)
                                else:
                                    ids = {tid} if after is None else after
                                    e = Entry(tid, m)
                                insert(res, e, set(ids) | set(done))
                                added.append(e)
                        done.append(tid)
                    if added:
                        out = "".join(serialize_resource(res))
                        want[p] = (added, res, out)
                        if not dry:
                            disk[p] = out.encode()
        except Exception as e:  # noqa: BLE001
            raises = e
        pre = "en-US/" if how == "config" else ""
        real = {pre + n: {i: build(a, pre) for i, a in m.items()} for n, m in spec.items()}
        mig = Migrate(real, paths)
        try:
            got = mig.apply(dry_run=True) if dry else mig.apply()
        except Exception as e:  # noqa: BLE001
            got = e
        after_ = {os.path.relpath(os.path.join(a, x), d): read(os.path.join(a, x)) for a, _, xs in os.walk(d) for x in xs}
        if raises is not None or isinstance(got, Exception):
            if not (raises is not None and isinstance(got, Exception)):
                if raises is not None and dry:
                    return None
                return f"raised {exc(got) if isinstance(got, Exception) else None} instead of {raises and exc(raises)}"
            # the file that could not be written keeps its bytes; others hold what was expected of them
            for p in set(before) | set(after_):
                if after_.get(p) != before.get(p) and not (p.split("/", 1)[-1] in spec and p in after_ and parseable(d, p, after_[p])):
                    return f"{p} was damaged although the migration raised {exc(got)}: {after_.get(p)!r}"
            return None
        got = {os.path.relpath(os.path.join(d, p), d): v for p, v in got.items()}
        if sorted(got) != sorted(want):
            return f"changes reported for {sorted(got)} instead of {sorted(want)}"
        for p, (added, res, out) in want.items():
            if not same(list(got[p]), added):
                return f"{p}: added {got[p]} instead of {added}"
            if not dry and after_.get(p) != out.encode():
                return f"{p} holds {after_.get(p)!r} instead of {out!r}"
        for p in set(before) | set(after_):
            if (dry or p not in want) and after_.get(p) != before.get(p):
                return f"{p} was changed{' by a dry run' if dry else ''}"
        if not dry:
            # existing entries are still there with their data; doing it again adds nothing
            for p, (added, res, out) in want.items():
                n = p.split("/", 1)[1]
                a, b = parsed(p), parse_resource(os.path.join(d, p), after_[p])
                for s in a.sections if a else ():
                    for e in s.entries:
                        if isinstance(e, Entry):
                            x = find(b, s.id + e.id)
                            if x is None or (x.value, x.properties, x.meta) != (e.value, e.properties, e.meta):
                                return f"{p}: {e} became {x}"


def parseable(d, p, b):
    try:
        parse_resource(os.path.join(d, p), b)
        return True
    except Exception:
        return False
