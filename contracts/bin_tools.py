"""C22, C23, C24: contracts of the command line tools, over assumed contracts of the parsers, serializers and files"""
from __future__ import annotations
from dataclasses import dataclass
from typing import Literal
from pyvc.contract import Contract
from pyvc.world import abstract, raising, unsupported
from moz.l10n.bin import fix as fix_mod, lint as lint_mod
from moz.l10n.formats import UnsupportedFormat

FIX, LINT = "moz.l10n.bin.fix:", "moz.l10n.bin.lint:"


class Res:
    """a parsed resource, of which nothing is known"""

    token: str


# ---------------------------------------------------------------- assumed: parsers, serializers
parse_outcome = abstract("parse_outcome", Literal["ok", "unsupported", "decode", "fail"])
parsed = abstract("parsed", Res)
serialize_ok = abstract("serialize_ok", bool)
lines = abstract("lines", list[str])
relpath_ok = abstract("relpath_ok", bool)
rel = abstract("relpath", str)
absolute = abstract("abspath", str)
extension = abstract("extension", str)
stem = abstract("stem", str)


def s_parse_resource(w, input, source=None, *, android_ascii_spaces=False, android_literal_quotes=False, gettext_plurals=None,
                     gettext_skip_obsolete=False, properties_printf_placeholders=False, xliff_source_entries=False):
    """is a function of its arguments; raises UnsupportedFormat, UnicodeDecodeError or some other exception"""
    w.parsed.append(input)
    a = (input, source, android_ascii_spaces, android_literal_quotes, gettext_plurals, gettext_skip_obsolete, properties_printf_placeholders, xliff_source_entries)
    o = parse_outcome(a)
    if o == "unsupported":
        raise UnsupportedFormat("?")
    if o == "decode":
        raise UnicodeDecodeError("?")
    if o == "fail":
        raise Exception("?")
    return parsed(a)


DEFAULTS = (False, False, None, False, False, False)


def s_serialize_resource(w, resource, format=None, trim_comments=False, *, fluent_escape_syntax=True, gettext_plurals=None, xliff_source_entries=False):
    """an iterator over lines that may raise an exception after any of them"""
    a = (resource, format, trim_comments, fluent_escape_syntax, gettext_plurals, xliff_source_entries)
    if serialize_ok(a):
        return lines(a)
    return raising(lines(a), Exception("?"))


def s_relpath(w, path, start):
    if relpath_ok(path, start):
        return rel(path, start)
    raise ValueError("?")


def s_abspath(w, path):
    return absolute(path)


def s_splitext(w, path):
    return (stem(path), extension(path))


# ---------------------------------------------------------------- assumed: a file opened for reading and writing
@dataclass
class Disk:
    content: bytes
    exists: bool
    rest: bool  # content is followed by what is left of older content
    parsed: list


class File:
    def __init__(self, w):
        self.w = w
        self.pos = "start"

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return None

    def read(self):
        if self.pos != "start" or self.w.rest:
            unsupported("read of a part of a file")
        self.pos = "end"
        return self.w.content

    def seek(self, n):
        if n != 0:
            unsupported("seek")
        self.pos = "start"

    def write(self, b):
        if self.pos == "start":
            self.w.rest = self.w.content != b""
            self.w.content = b
            self.pos = "after"
        elif self.pos == "end" and not self.w.rest:
            self.w.content = self.w.content + bytes(b)
        else:
            unsupported("write in parts")

    def truncate(self, n=None):
        if n == 0 or n is None and self.pos == "start":
            self.w.content = b""
            self.w.rest = False
        elif n is None:
            self.w.rest = False
        else:
            unsupported("truncate")


def s_open(w, path, mode="r"):
    if mode not in ("+rb", "rb+", "r+b"):
        unsupported("mode")
    if not w.exists:
        raise FileNotFoundError("?")
    return File(w)


STUBS = {
    "builtins:open": s_open,
    "moz.l10n.resource:parse_resource": s_parse_resource,
    "moz.l10n.resource:serialize_resource": s_serialize_resource,
    "os.path:relpath": s_relpath,
    "os.path:abspath": s_abspath,
    "os.path:splitext": s_splitext,
}


# ---------------------------------------------------------------- C23
def fix_world(root, path, before, exists):
    return Disk(before, exists, False, [])


def fix_output(path, before, exists):
    """-> (result, new content)"""
    if not exists:
        return ("FAIL", before)
    a = (path, before) + DEFAULTS
    o = parse_outcome(a)
    if o == "unsupported" or o == "decode":
        return ("UNSUPPORTED", before)
    if o == "fail":
        return ("FAIL", before)
    b = (parsed(a), None, False, True, None, False)
    try:
        text = "".join(lines(b)).encode("utf-8")
    except UnicodeEncodeError:
        return ("FAIL", before)
    if not serialize_ok(b):
        return ("FAIL", before)
    if text == before:
        return ("OK", before)
    return ("FIXED", text)


def x_fix_file(root, path, before, exists):
    r = fix_output(path, before, exists)[0]
    return fix_mod.Result.OK if r == "OK" else fix_mod.Result.FIXED if r == "FIXED" else fix_mod.Result.FAIL if r == "FAIL" else fix_mod.Result.UNSUPPORTED


def fix_args(root, path, before, exists):
    return [root, path]


def fix_observe(w):
    return (bytes(w.content), w.rest)


def fix_effects(root, path, before, exists):
    return (bytes(fix_output(path, before, exists)[1]), False)


Contract(
    FIX + "fix_file", dict(root=str, path=str, before=bytes, exists=bool), result=x_fix_file, args=fix_args,
    stubs=STUBS, world=fix_world, observe=fix_observe, effects=fix_effects,
    prop="C23", public=True,
)

# the tool over all files
@dataclass
class Calls:
    paths: list


def no_calls(paths, config, flag):
    return Calls([])


def calls(w):
    return w.paths


has_paths = abstract("has_paths", bool)
some_paths = abstract("some_paths", list[str])
root_dir = abstract("root_dir", str)
fixed = abstract("fix_file", fix_mod.Result)


def s_handle_paths(w, config_path, file_paths, log):
    if has_paths():
        return (some_paths(), root_dir())
    return (None, "")


def s_fix_file(w, root, path):
    w.paths.append(path)
    return fixed(root, path)


def x_fix(paths, config, cont):
    if not has_paths():
        return 2
    return 1 if any(fixed(root_dir(), p) == fix_mod.Result.FAIL for p in some_paths()) else 0


def x_fix_calls(paths, config, cont):
    out = []
    if has_paths():
        for p in some_paths():
            out.append(p)
            if fixed(root_dir(), p) == fix_mod.Result.FAIL and not cont:
                break
    return out


Contract(
    FIX + "fix", dict(paths=list[str], config=str | None, cont=bool), result=x_fix,
    stubs={"moz.l10n.bin.utils:handle_paths": s_handle_paths, FIX + "fix_file": s_fix_file}, world=no_calls,
    observe=calls, effects=x_fix_calls, prop="C23", public=True,
)

# ---------------------------------------------------------------- C24
KNOWN_EXTENSIONS = (".dtd", ".ftl", ".inc", ".ini", ".json", ".po", ".pot", ".properties", ".xlf", ".xliff", ".xml")


def x_lint_file(root, path, skip_unknown):
    if skip_unknown and extension(path) not in KNOWN_EXTENSIONS:
        return lint_mod.Result.SKIP
    o = parse_outcome((path, None) + DEFAULTS)
    return lint_mod.Result.OK if o == "ok" else lint_mod.Result.FAIL if o == "fail" else lint_mod.Result.UNSUPPORTED


def lint_world(root, path, skip_unknown):
    return Disk(b"", True, False, [])


def lint_observe(w):
    return w.parsed


def lint_effects(root, path, skip_unknown):
    return [] if x_lint_file(root, path, skip_unknown) == lint_mod.Result.SKIP else [path]


Contract(
    LINT + "lint_file", dict(root=str, path=str, skip_unknown=bool), result=x_lint_file, stubs=STUBS,
    world=lint_world, observe=lint_observe, effects=lint_effects, prop="C24", public=True,
)

linted = abstract("lint_file", lint_mod.Result)


def s_lint_file(w, root, path, skip_unknown):
    w.paths.append(path)
    return linted(root, path, skip_unknown)


def x_lint(paths, config, skip_unknown):
    if not has_paths():
        return 2
    return 1 if any(linted(root_dir(), p, skip_unknown) in (lint_mod.Result.FAIL, lint_mod.Result.UNSUPPORTED) for p in some_paths()) else 0


def lint_args(paths, config, skip_unknown):
    return [paths]


def lint_kwargs(paths, config, skip_unknown):
    return {"config_path": config, "skip_unknown": skip_unknown}


def lint_calls(paths, config, skip_unknown):
    return list(some_paths()) if has_paths() else []


Contract(
    LINT + "lint", dict(paths=list[str], config=str | None, skip_unknown=bool), result=x_lint,
    args=lint_args, kwargs=lint_kwargs,
    stubs={"moz.l10n.bin.utils:handle_paths": s_handle_paths, LINT + "lint_file": s_lint_file}, world=no_calls, observe=calls, effects=lint_calls, prop="C24", public=True,
)


# ---------------------------------------------------------------- C22
COMPARE = "moz.l10n.bin.compare:"
read_outcome = abstract("msg_ids", Literal["ok", "absent", "fail"])
read_error = abstract("msg_ids_error", str)
has_id = abstract("msg_ids_has", bool)
joined = abstract("join", str)


@dataclass
class Ids:
    path: str

    def __contains__(self, x):
        return has_id(self.path, x)


def s_join(w, a, b):
    return joined(a, b)


def s_msg_ids(w, path):
    """raises FileNotFoundError or another exception, or gives a collection of strings"""
    o = read_outcome(path)
    if o == "absent":
        raise FileNotFoundError("?")
    if o == "fail":
        raise Exception(read_error(path))
    return Ids(path)


def x_compare(source_data, root):
    def lacks(path):
        p = joined(root, path)
        o = read_outcome(p)
        return [m for m in source_data[path] if o == "absent" or (o == "ok" and not has_id(p, m))]

    errors = {p: read_error(joined(root, p)) for p, ms in source_data.items() if ms and read_outcome(joined(root, p)) == "fail"}
    missing = {p: lacks(p) for p in source_data if lacks(p)}
    return errors, missing


Contract(
    COMPARE + "compare", dict(source_data=dict[str, list[str]], root=str), result=x_compare, stubs={"os.path:join": s_join, COMPARE + "msg_ids": s_msg_ids},
    prop="C22", public=True,
)
