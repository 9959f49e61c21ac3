"""C23: fix"""
import os, tempfile
from moz.l10n.bin.fix import Result, fix, fix_file
from moz.l10n.formats import UnsupportedFormat
from moz.l10n.resource import parse_resource, serialize_resource
from .common import cut, exc
from .files import EXT, SAMPLES, any_file

CONTRACTS = ["bin_tools"]
BUDGET = 15
LEVEL = "other"
RULE = "every sample under every extension, then random directories of up to 4 mutated files of all formats, with and without continue_on_error; non-trivial: all"
ASSUMPTIONS = ['parse_resource, serialize_resource, os.path and files are replaced by functions with any outcome; the same arguments give the same outcome; a file is its contents, read and written as a whole']
EXPLANATION = "fix_file writes exactly the serialization of the parsed bytes, or nothing, for every outcome of parser and serializer; the exit status and the number of files touched by fix follow"
NAMES = list(EXT.values()) + [".txt", "", ".pot"]


def cases(r, tier, shard, shards):
    def small():
        for f, ss in SAMPLES.items():
            for s in ss:
                for e in NAMES:
                    yield ("files", [("x" + e, s.encode())], False)
                yield ("files", [("x.dtd", b"<"), ("y" + EXT[f], s.encode()), ("z.ftl", b"a=b\n")], False)
                yield ("files", [("x.dtd", b"<!ENTITY"), ("y" + EXT[f], s.encode()), ("z.ftl", b"a=b\n")], True)
        for b in (b"", b"\xff", b"a\x00b", "ä".encode("latin-1")):
            for e in NAMES:
                yield ("files", [("x" + e, b)], False)
        yield ("files", [], False)

    yield from cut(small(), shard, shards)
    while True:
        fs = []
        for i in range(r.choice([1, 1, 2, 3, 4])):
            f, s = any_file(r)
            b = s.encode("utf-8", "replace")
            if r.random() < 0.05:
                b = b[: r.randrange(len(b) + 1)] + b"\xff" + b[r.randrange(len(b) + 1) :]
            fs.append((f"x{i}" + (EXT[f] if r.random() < 0.9 else r.choice(NAMES)), b))
        yield ("files", fs, r.random() < 0.5)


def check(case):
    _, files, cont = case
    with tempfile.TemporaryDirectory() as d:
        ps = [os.path.join(d, n) for n, _ in files]

        def put():
            for p, (n, b) in zip(ps, files):
                with open(p, "wb") as f:
                    f.write(b)

        def get(p):
            with open(p, "rb") as f:
                return f.read()

        want = []
        for p, (n, b) in zip(ps, files):
            try:
                new = "".join(serialize_resource(parse_resource(p, b))).encode("utf-8")
                want.append((Result.OK if new == b else Result.FIXED, new))
            except (UnsupportedFormat, UnicodeDecodeError):
                want.append((Result.UNSUPPORTED, b))
            except Exception:
                want.append((Result.FAIL, b))
        try:
            put()
            for p, (n, b), (res, new) in zip(ps, files, want):
                st = os.stat(p).st_mtime_ns
                g = fix_file(d, p)
                if g != res:
                    return f"fix_file of {n} gives {g} instead of {res}"
                if get(p) != new:
                    return f"fix_file of {n} wrote {get(p)!r} instead of {new!r}"
                if new == b and os.stat(p).st_mtime_ns != st:
                    return f"fix_file wrote {n} although nothing changes"
            put()
            status = fix(ps, None, cont)
        except Exception as e:
            return f"raised {exc(e)}"
        fails = [i for i, w in enumerate(want) if w[0] == Result.FAIL]
        ws = 2 if not files else 1 if fails else 0
        if status != ws:
            return f"fix returns {status} instead of {ws} for {[w[0] for w in want]}"
        stop = fails[0] if fails and not cont else len(want)
        for i, (p, (n, b), (res, new)) in enumerate(zip(ps, files, want)):
            w = new if i < stop else b
            if get(p) != w:
                return f"after fix, {n} is {get(p)!r} instead of {w!r}"
        if sorted(os.listdir(d)) != sorted(n for n, _ in files):
            return "files appeared or disappeared"
        if fails and not cont:
            return None
        # a second run changes nothing where the result of the first is canonical
        for p, (res, new) in zip(ps, want):
            if res in (Result.OK, Result.FIXED):
                try:
                    canon = "".join(serialize_resource(parse_resource(p, new))).encode("utf-8") == new
                except Exception:
                    continue
                if canon and (fix_file(d, p) != Result.OK or get(p) != new):
                    return f"a second run changes {p}"
