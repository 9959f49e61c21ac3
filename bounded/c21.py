"""C21: build, build-file"""
import json, zlib, logging, os, tempfile
from click.testing import CliRunner
from moz.l10n.bin.build import cli as build_cli, write_target_file
from moz.l10n.bin.build_file import cli as file_cli
from moz.l10n.formats import Format
from moz.l10n.model import Comment, Entry, Expression, PatternMessage
from moz.l10n.resource import parse_resource
from .common import exc, same, snap
from .files import EXT

CONTRACTS = ["build"]
BUDGET = 20
LEVEL = "other"
RULE = "random reference and localized files of nine formats over few message ids (any overlap, order, sections, comments, Fluent attributes and terms, missing localization), through write_target_file, build-file and build with coverage; non-trivial: the reference has a message"
ASSUMPTIONS = ['parse_resource, serialize_resource, open and os.path.exists are replaced by functions which give any resource, and record what is serialized']
EXPLANATION = "write_target_file is run on random pairs of files and its output parsed and compared with an independent merge of the two parsed resources; the commands are run on random trees and their files and coverage counts compared in the same way"

KINDS = ["fluent", "properties", "ini", "dtd", "inc", "plain_json", "webext", "gettext", "android"]
IDS = ["a", "b", "c", "d1", "e"]


def text(r, f, ids, tag):
    """a file with these message ids, values which tell where they come from, and some comments"""
    c = lambda s: s if r.random() < 0.4 else ""  # noqa: E731
    v = lambda i: f"{tag} {i} {r.randrange(3)}"  # noqa: E731
    if f == "fluent":
        out = c(f"### res {tag}\n\n")
        for i in ids:
            if r.random() < 0.15:
                out += r.choice([f"## grp {tag}\n\n", f"\n# alone {tag}\n\n"])
            out += c(f"# com {tag}\n")
            attrs = r.sample("xyz", r.choice([0, 0, 0, 1, 1, 2, 3]))
            if i == "e":
                out += f"-e = {v(i)}\n"
            elif attrs and r.random() < 0.2:
                out += f"{i} =\n"
            elif r.random() < 0.2:
                out += f"{i} = {{ $n ->\n    [one] {v(i)}\n   *[other] {tag}\n  }}\n"
            else:
                out += f"{i} = {v(i)}\n"
            out += "".join(f"  .{a} = {v(i)}\n" for a in attrs)
        return out
    if f == "properties":
        return c(f"# res {tag}\n\n") + "".join(c(f"# com {tag}\n") + f"{i} = {v(i)}\n" + c("\n") + c(f"# alone {tag}\n\n") for i in ids)
    if f == "ini":
        out = ""
        secs = ["s", "t", "u"] if r.random() < 0.5 else ["s"]
        for n in secs:
            out += c(f"# sec {tag}\n") + f"[{n}]\n" + "".join(c(f"# com {tag}\n") + f"{i}={v(i)}\n" for i in ids if r.random() < 0.8)
        return out
    if f == "dtd":
        return c(f"<!-- res {tag} -->\n\n") + "".join(c(f"<!-- com {tag} -->\n") + f'<!ENTITY {i} "{v(i)}">\n' for i in ids)
    if f == "inc":
        return "".join(c(f"# com {tag}\n") + f"#define {i} {v(i)}\n" for i in ids)
    if f == "plain_json":
        return json.dumps({i: v(i) if r.random() < 0.6 else {k: v(i) for k in r.sample("pqr", r.randrange(1, 3))} for i in ids})
    if f == "webext":
        return json.dumps({i: {"message": v(i) + " $x$", "placeholders": {"x": {"content": "$1"}}, **({"description": f"com {tag}"} if r.random() < 0.4 else {})} for i in ids})
    if f == "gettext":
        out = c(f"# res {tag}\n") + f'msgid ""\nmsgstr ""\n"Language: {tag}\\n"\n\n'
        for i in ids:
            out += c(f"# com {tag}\n") + c(f"#: {tag}.c:1\n") + c("#, fuzzy\n")
            out += c('msgctxt "ctx"\n') + (f'msgid "{i}"\nmsgstr "{v(i)}"\n\n' if r.random() < 0.7 else f'msgid "{i}"\nmsgid_plural "{i}s"\nmsgstr[0] "{v(i)}"\nmsgstr[1] "{tag}"\n\n')
        return out
    out = "<resources>" + c(f"<!-- res {tag} -->\n\n")
    for i in ids:
        out += c(f"<!-- com {tag} -->")
        k = r.random()
        if k < 0.7:
            out += f'<string name="{i}">{v(i)} %1$s</string>\n'
        elif k < 0.85:
            out += f'<plurals name="{i}"><item quantity="one">{v(i)}</item><item quantity="other">{tag}</item></plurals>\n'
        else:
            out += f'<string-array name="{i}"><item>{v(i)}</item><item>{tag}</item></string-array>\n'
    return out + "</resources>"


def pair(r):
    f = r.choice(KINDS + ["fluent"] * 3)
    src = text(r, f, r.sample(IDS, r.randrange(0, 6)), "src")
    loc = None if r.random() < 0.12 else text(r, f, r.sample(IDS + ["z"], r.randrange(0, 6)), "loc")
    return f, src, loc


def cases(r, tier, shard, shards):
    while True:
        if r.random() < 0.75:
            yield ("file",) + pair(r)
        else:
            lcs = r.sample(["fr", "de", "en-GB"], r.randrange(1, 4))
            files = {}
            for i in range(r.randrange(1, 4)):
                f, src, loc = pair(r)
                files[r.choice(["", "d/"]) + f"f{i}" + EXT[f]] = (src, {lc: text(r, f, r.sample(IDS + ["z"], r.randrange(0, 6)), lc) for lc in lcs if r.random() < 0.8})
            if r.random() < 0.3:
                files["doc.txt"] = ("x", {lc: "y" for lc in lcs if r.random() < 0.6})
            yield ("tree", files, lcs, r.random() < 0.7)


def nontrivial(case):
    return case[0] == "tree" or any(isinstance(e, Entry) for s in parse(case[1], case[2]).sections for e in s.entries)


FMT = dict(fluent=Format.fluent, properties=Format.properties, ini=Format.ini, dtd=Format.dtd, inc=Format.inc, plain_json=Format.plain_json, webext=Format.webext, gettext=Format.gettext, android=Format.android)


def parse(f, t):
    return parse_resource(FMT[f], t)


def merge(src, loc):
    """[(section id, entry id, value, properties)], total, missing ids, delta"""
    have = {}
    if loc is not None:
        for s in loc.sections:
            for e in s.entries:
                if isinstance(e, Entry):
                    have[s.id + e.id] = e
    out, missing, total, delta = [], [], 0, 0
    ftl = src.format == Format.fluent
    for s in src.sections:
        for e in s.entries:
            if isinstance(e, Comment):
                continue
            total += 1
            i = s.id + e.id
            h = have.get(i)
            props = {}
            if h is not None:
                props = dict(h.properties)
                if ftl and e.id[0][0] != "-":
                    if any(k not in props for k in e.properties):
                        h = None
                    props = {k: v for k, v in props.items() if k in e.properties}
            if h is None:
                missing.append(i[0] if len(i) == 1 else list(i))
                delta += -1 if ftl else 1
                if not ftl:
                    out.append((s.id, e.id, e.value, e.properties))
            else:
                out.append((s.id, e.id, h.value, props))
    return out, total, missing, delta


def flat(res):
    return [(s.id, e.id, e.value, e.properties) for s in res.sections for e in s.entries if isinstance(e, Entry)]


def unique(x):
    ids = [s.id + e.id for s in x.sections for e in s.entries if isinstance(e, Entry)]
    return len(ids) == len(set(ids))


def written(f, src, loc, got, fallback):
    """the text of a built file against the merge; got: bytes"""
    try:
        res = parse_resource(FMT[f], got)
    except Exception as e:
        return f"the built file does not parse: {exc(e)}: {got!r}"
    want, total, missing, delta = merge(src, loc)
    if fallback:
        want = flat(src)
    a, b = flat(res), [(x, y, v, dict(sorted(p.items()))) for x, y, v, p in want]
    if f == "fluent":  # a message left without a value and attributes is written with an empty placeholder
        b = [(x, y, PatternMessage([Expression("")]) if same(v, PatternMessage([])) and not p else v, p) for x, y, v, p in b]
    a = [(x, y, v, dict(sorted(p.items()))) for x, y, v, p in a]
    if f == "plain_json":
        a, b = sorted(a, key=repr), sorted(b, key=repr)
    if [x[:2] for x in a] != [x[:2] for x in b]:
        return f"the built file has messages {[x[0] + x[1] for x in a]} instead of {[x[0] + x[1] for x in b]}"
    if not same(a, b):
        bad = next((x, y) for x, y in zip(a, b) if not same(x, y))
        return f"the built file has {bad[0]} instead of {bad[1]}"
    text_ = got.decode()
    for w in ("com ", "res ", "grp ", "alone ", "sec "):
        for t in ("src", "loc", "fr", "de", "en-GB"):
            if w + t in text_:
                return f"the built file has a comment {w + t!r}"
    if any(e.comment for s in res.sections for e in s.entries) or any(s.comment for s in res.sections) or res.comment:
        return f"the built file has a comment: {text_!r}"
    return None


def put(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8", newline="") as f:
        f.write(t)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def check(case):
    if case[0] == "tree":
        return check_tree(case)
    _, f, s, t = case
    src, loc = parse(f, s), None if t is None else parse(f, t)
    if not unique(src) or (loc is not None and not unique(loc)):
        return None
    want, total, missing, delta = merge(src, loc)
    with tempfile.TemporaryDirectory() as d:
        sp, lp, tp = (os.path.join(d, x, "f" + EXT[f]) for x in ("en", "fr", "out"))
        put(sp, s)
        if t is not None:
            put(lp, t)
        os.makedirs(os.path.join(d, "out"))
        arg = parse(f, s)
        try:
            r = write_target_file("f", arg, lp, tp)
        except Exception as e:
            return f"write_target_file raised {exc(e)}"
        if tuple(r) != (delta, total, missing):
            return f"reported {r} instead of {(delta, total, missing)}"
        e = written(f, src, loc, read(tp), False)
        if e:
            return e
        if read(sp) != s.encode() or (t is not None and read(lp) != t.encode()) or (t is None and os.path.exists(lp)):
            return "a source file was changed"
        # build-file
        first = read(tp)
        for use in (True, False):
            tp = os.path.join(d, "out2", "x", f"g{use}" + EXT[f])
            r = CliRunner().invoke(file_cli, ["--source", sp, "--target", tp, "--coverage-base", os.path.join(d, "out2")] + (["--l10n", lp] if use else []))
            if r.exception is not None:
                return f"build-file raised {exc(r.exception)}"
            if use and read(tp) != first:
                return "build-file writes another file than write_target_file"
            if not use:
                e = written(f, src, None, read(tp), True)
                if e:
                    return e
            cov = json.loads(read(os.path.join(d, "out2", "coverage.json")))
            k = f"x/g{use}" + EXT[f]
            w = {"total": total, "missing": missing if use else []}
            if cov.get(k) != w:
                return f"coverage {cov.get(k)} instead of {w}"
            if len(cov) != (1 if use else 2):
                return f"coverage of other files was changed: {cov}"


# the locales of a path entry
LISTS = [None, ["fr"], ["de", "en-GB"], ["fr", "de"]]


def check_tree(case):
    _, files, lcs, coverage = case
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        for n, (s, ts) in files.items():
            put(os.path.join(d, "en", n), s)
            for lc, t in ts.items():
                put(os.path.join(d, "base", lc, n), t)
        toml = 'locales = ["fr", "de", "en-GB"]\n'
        only = {n: LISTS[zlib.crc32(n.encode() + s.encode()) % len(LISTS)] for n, (s, _) in files.items()} if zlib.crc32(repr(files).encode()) % 2 else {}
        for n in only:
            toml += f'[[paths]]\nreference = "en/{n}"\nl10n = "{{locale}}/{n}"\n' + (f"locales = {json.dumps(only[n])}\n" if only[n] else "")
        if not only:
            toml += '[[paths]]\nreference = "en/**"\nl10n = "{locale}/**"\n'
        put(os.path.join(d, "l10n.toml"), toml)
        into = lambda n, lc: not only or not only[n] or lc in only[n]
        out = os.path.join(d, "out")
        log = []
        h = logging.Handler()
        h.emit = lambda x: log.append(x.getMessage())
        lg = logging.getLogger("moz.l10n.bin.build")
        lv = lg.level
        lg.addHandler(h)
        lg.setLevel(logging.INFO)
        prop = lg.propagate
        lg.propagate = False
        off = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        try:
            r = CliRunner().invoke(build_cli, ["--config", os.path.join(d, "l10n.toml"), "--base", os.path.join(d, "base"), "--target", out, "--locales", ",".join(lcs)] + (["--coverage"] if coverage else []))
        finally:
            logging.disable(off)
            lg.removeHandler(h)
            lg.setLevel(lv)
            lg.propagate = prop
        parsed = {}
        for n, (s, ts) in files.items():
            f = next((k for k in KINDS if n.endswith(EXT[k]) and k != "plain_json"), None)
            if n.endswith(".json"):
                f = parse_resource(os.path.join(d, "en", n)).format.name
            if f:
                parsed[n] = (f, parse(f, s), {lc: parse_resource(n, t) for lc, t in ts.items()})
                if not unique(parsed[n][1]) or not all(map(unique, parsed[n][2].values())):
                    return None
                if any(x.format != parsed[n][1].format for x in parsed[n][2].values()):
                    return None
        if r.exception is not None:
            return f"build raised {exc(r.exception)}"
        have = sorted(os.path.relpath(os.path.join(a, x), out) for a, _, xs in os.walk(out) for x in xs)
        expect = sorted([f"{lc}/{n}" for lc in lcs for n in files if into(n, lc)] + [f"{lc}/coverage.json" for lc in lcs if coverage])
        if have != expect:
            return f"build wrote {have} instead of {expect}"
        tail = []
        for lc in sorted(lcs):
            cov, neg, pos = {}, 0, 0
            for n, (s, ts) in files.items():
                if not into(n, lc):
                    continue
                got = read(os.path.join(out, lc, n))
                if n not in parsed:
                    if got != ts.get(lc, s).encode():
                        return f"{lc}/{n} was not copied"
                    continue
                f, src, locs = parsed[n]
                _, total, missing, delta = merge(src, locs.get(lc))
                e = written(f, src, locs.get(lc), got, False)
                if e:
                    return f"{lc}/{n}: {e}"
                cov[n] = {"total": total, "missing": missing}
                if delta < 0:
                    neg -= delta
                else:
                    pos += delta
            if coverage:
                c = json.loads(read(os.path.join(out, lc, "coverage.json")))
                if c != cov:
                    return f"coverage of {lc}: {c} instead of {cov}"
            if cov:
                tail += [f"{lc}:", f"  ftl_missing  {neg:>6}", f"  src_fallback {pos:>6}"]
        got_tail = log[log.index("----") + 1 :] if "----" in log else None
        if got_tail != tail:
            return f"summary {got_tail} instead of {tail}"
        for n, (s, ts) in files.items():
            if read(os.path.join(d, "en", n)) != s.encode() or any(read(os.path.join(d, "base", lc, n)) != t.encode() for lc, t in ts.items()):
                return "a source file was changed"
