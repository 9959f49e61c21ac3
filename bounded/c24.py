"""C24: lint"""
import logging, os, tempfile
from moz.l10n.bin.lint import Result, lint, lint_file
from moz.l10n.formats import UnsupportedFormat, l10n_extensions
from moz.l10n.resource import parse_resource
from .common import cut, exc
from .files import EXT, SAMPLES, any_file, mutate

CONTRACTS = ["bin_tools"]
BUDGET = 12
LEVEL = "other"
RULE = "every sample under every extension, then random directories of up to 4 mutated files of all formats, with and without skip_unknown; non-trivial: all"
ASSUMPTIONS = ['parse_resource and os.path are replaced by functions with any outcome; the same arguments give the same outcome']
EXPLANATION = "lint_file and the exit status of lint meet their contracts for every outcome of the parser and every number of files"

NAMES = list(EXT.values()) + [".txt", "", ".JSON", ".pot", ".xlf"]


def cases(r, tier, shard, shards):
    def small():
        for f, ss in SAMPLES.items():
            for s in ss:
                for e in NAMES:
                    for skip in (False, True):
                        yield ("files", [("x" + e, s.encode())], skip)
        for b in (b"", b"\xff", b"a\x00b", "ä".encode("latin-1")):
            for e in NAMES:
                yield ("files", [("x" + e, b)], False)
        yield ("files", [], False)

    yield from cut(small(), shard, shards)
    while True:
        fs = []
        for i in range(r.choice([1, 1, 2, 3, 4])):
            f, s = any_file(r)
            b = s.encode("utf-8", "replace")
            if r.random() < 0.05:
                b = b[: r.randrange(len(b) + 1)] + b"\xff" + b[r.randrange(len(b) + 1) :]
            fs.append((f"x{i}" + (EXT[f] if r.random() < 0.85 else r.choice(NAMES)), b))
        yield ("files", fs, r.random() < 0.3)


def check(case):
    _, files, skip = case
    with tempfile.TemporaryDirectory() as d:
        ps = []
        for n, b in files:
            p = os.path.join(d, n)
            with open(p, "wb") as f:
                f.write(b)
            ps.append(p)
        want = []
        for p, (n, b) in zip(ps, files):
            if skip and os.path.splitext(n)[1] not in l10n_extensions:
                want.append(Result.SKIP)
                continue
            try:
                parse_resource(p)
                want.append(Result.OK)
            except (UnsupportedFormat, UnicodeDecodeError):
                want.append(Result.UNSUPPORTED)
            except Exception:
                want.append(Result.FAIL)
        try:
            got = [lint_file(d, p, skip) for p in ps]
            status = lint([os.path.join(d, n) for n, _ in files], skip_unknown=skip)
        except Exception as e:
            return f"raised {exc(e)}"
        if got != want:
            return f"lint_file gives {got} instead of {want}"
        ws = 2 if not files else 1 if any(x in (Result.FAIL, Result.UNSUPPORTED) for x in want) else 0
        if status != ws:
            return f"lint returns {status} instead of {ws} for {want}"
        for p, (n, b) in zip(ps, files):
            with open(p, "rb") as f:
                if f.read() != b:
                    return f"{n} was changed"
        if sorted(os.listdir(d)) != sorted(n for n, _ in files):
            return "files appeared or disappeared"
