"""C22: compare"""
import json, os, tempfile
from click.testing import CliRunner
from moz.l10n.bin.compare import cli, compare
from moz.l10n.formats import UnsupportedFormat
from moz.l10n.model import Entry
from moz.l10n.resource import parse_resource
from .common import cut, exc
from .files import EXT, SAMPLES, any_file

CONTRACTS = ["bin_tools"]
BUDGET = 15
LEVEL = "other"
RULE = "random source mappings and trees of up to 4 files over all formats for up to 3 locales, with missing, unparseable and unsupported files; source as JSON, directory or TOML configuration; text and JSON output, extension filters; non-trivial: all"
ASSUMPTIONS = ['parse_resource and files are replaced by functions with any outcome; the same arguments give the same outcome']
EXPLANATION = "compare meets its contract for every mapping and every outcome of reading the files; the report of the command line is checked on random trees"


def texts(r, f, ids):
    """a file with the given message ids"""
    if f == "fluent":
        return "".join(f"{i} = x\n" for i in ids)
    if f == "properties":
        return "".join(f"{i} = x\n" for i in ids)
    if f == "ini":
        return "[s]\n" + "".join(f"{i}=x\n" for i in ids)
    if f == "dtd":
        return "".join(f'<!ENTITY {i} "x">\n' for i in ids)
    if f == "inc":
        return "".join(f"#define {i} x\n" for i in ids)
    if f == "plain_json":
        return json.dumps({i: "x" for i in ids} if r.random() < 0.5 else {"n": {i: "x" for i in ids}})
    if f == "webext":
        return json.dumps({i: {"message": "x"} for i in ids})
    if f == "gettext":
        return 'msgid ""\nmsgstr ""\n\n' + "".join(f'msgid "{i}"\nmsgstr "x"\n\n' for i in ids)
    return "<resources>" + "".join(f'<string name="{i}">x</string>' for i in ids) + "</resources>"


KINDS = ["fluent", "properties", "ini", "dtd", "inc", "plain_json", "webext", "gettext", "android"]


def tree(r):
    ids = ["a", "b", "c", "d1", "e"]
    ref, locs = {}, {}
    lcs = r.sample(["fr", "de", "en-GB"], r.randrange(1, 4))
    for i in range(r.choice([1, 2, 3, 4])):
        f = r.choice(KINDS)
        n = r.choice(["", "x/", "x/y/"]) + f"f{i}" + EXT[f]
        ref[n] = texts(r, f, r.sample(ids, r.randrange(0, 5)))
        for lc in lcs:
            k = r.random()
            if k < 0.2:
                continue
            t = texts(r, f, r.sample(ids + ["z"], r.randrange(0, 5)))
            b = t.encode()
            if k < 0.3:
                b = r.choice([b"\xff", b"<", b"{", b"[[[", b"msgid", b"", b"#define", b'<!ENTITY a "'])
            locs[f"{lc}/{n}"] = b
    if r.random() < 0.3:
        ref["doc.txt"] = "x"
        if r.random() < 0.5:
            locs["fr/doc.txt"] = b"y"
    return ref, locs, lcs


def cases(r, tier, shard, shards):
    while True:
        ref, locs, lcs = tree(r)
        yield ("tree", ref, locs, lcs + (["none"] if r.random() < 0.2 else []), r.choice(["json", "dir", "reldir", "toml"]), r.choice([None, None, None, "ftl", "!ftl", "ftl,ini", "!.json,properties"]), r.choice([0, 1, 2]))


def ids_of(p):
    res = parse_resource(p)
    return {".".join(s.id + e.id) for s in res.sections for e in s.entries if isinstance(e, Entry)}


def expect(data, root):
    errors, missing = {}, {}
    for path, msgs in data.items():
        if not msgs:
            continue
        p = os.path.join(root, path)
        if not os.path.exists(p):
            missing[path] = sorted(msgs)
            continue
        try:
            have = ids_of(p)
        except Exception as e:
            errors[path] = str(e)
            continue
        m = sorted(x for x in msgs if x not in have)
        if m:
            missing[path] = m
    return errors, missing


def check(case):
    _, ref, locs, lcs, how, ext, verbose = case
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        for n, t in list(locs.items()) + [("en/" + n, t.encode()) for n, t in ref.items()]:
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(t)
        data = {}
        for n in ref:
            try:
                data[n] = ids_of(os.path.join(d, "en", n))
            except UnsupportedFormat:
                pass
        cwd = os.getcwd()
        os.chdir(d)
        try:
            for lc in lcs:
                root = os.path.join(d, lc)
                try:
                    errors, missing = compare({k: sorted(v) for k, v in data.items()}, root)
                except Exception as e:
                    return f"compare raised {exc(e)}"
                we, wm = expect(data, root)
                if errors != we:
                    return f"errors {errors} instead of {we}"
                if {k: sorted(v) for k, v in missing.items()} != wm:
                    return f"missing {dict(missing)} instead of {wm}"
            # the command
            lcs = [x for x in lcs if os.path.isdir(os.path.join(d, x))] + [x for x in lcs if not os.path.isdir(os.path.join(d, x))]
            if not lcs:
                return None
            if how == "json":
                with open("s.json", "w") as f:
                    json.dump({k: sorted(v) for k, v in data.items()}, f)
                src = "s.json"
            elif how == "toml":
                with open("l10n.toml", "w") as f:
                    f.write('locales = ["fr"]\n[[paths]]\nreference = "en/**"\nl10n = "{l10n_base}/{locale}/**"\n')
                src = "l10n.toml"
            else:
                src = "en" if how == "reldir" else os.path.join(d, "en")
            args = [os.path.join(d, x) for x in lcs] + ["--source", src] + (["--ext", ext] if ext else [])
            if ext:
                inc = tuple("." + x.lstrip(".") for x in ext.split(",") if not x.startswith("!"))
                exc_ = tuple("." + x[1:].lstrip(".") for x in ext.split(",") if x.startswith("!"))
                data = {k: v for k, v in data.items() if (not inc or k.endswith(inc)) and not (exc_ and k.endswith(exc_))}
            total = sum(map(len, data.values()))
            want = {lc: expect(data, os.path.join(d, lc)) for lc in lcs if os.path.isdir(os.path.join(d, lc))}
            r = CliRunner().invoke(cli, args + ["--json"])
            if how in ("dir", "reldir") and not any(k.endswith((".ftl", ".properties", ".ini", ".dtd", ".inc", ".json", ".po", ".xml")) for k in ref):
                return None
            if total == 0:
                return None if isinstance(r.exception, ValueError) else f"a source without messages gives {r.exception!r}, {r.output!r}"
            if r.exception is not None:
                return f"the command with source {src} raised {exc(r.exception)}"
            out = json.loads(r.output)
            w = {lc: dict(errors=e or None, missing=m or None) for lc, (e, m) in want.items()}
            g = {lc: dict(errors=x["errors"], missing=x["missing"] and {k: sorted(v) for k, v in x["missing"].items()}) for lc, x in out.items()}
            if g != w:
                return f"JSON report {g} instead of {w}"
            r = CliRunner().invoke(cli, args + ["-" + "v" * verbose] * bool(verbose))
            if r.exception is not None:
                return f"the command raised {exc(r.exception)}"
            lines = r.output.split("\n")[:-1]
            wl = [f"source: {total}"]
            for lc, (e, m) in want.items():
                wl.append(f"{lc}: {-sum(map(len, m.values()))}")
                wl += [x for p, x_ in e.items() for x in f"  !!! {p}: {x_}".split("\n")]
                if verbose:
                    for p, ms in m.items():
                        wl.append(f"  {p}: {-len(ms)}")
                        if verbose > 1:
                            wl += ["    " + x for x in ms]
            if sorted(lines) != sorted(wl):
                return f"report {lines} instead of {wl}"
        finally:
            os.chdir(cwd)
