"""Assumed contracts of what the code under contract depends on (other tools, files, parsers), and bytes.

A contract may name `stubs`: functions outside its proof, each with a specification function that stands for it. It is
called with the contract's `world` first (a specification object which records effects) and is executed like code."""
from __future__ import annotations
import logging, re
import z3
from . import types as T
from .values import *

S, B = z3.StringSort(), z3.BoolSort()


class abstract:
    """an unknown pure function: equal arguments give equal results, nothing else is known"""

    def __init__(self, name, result):
        self.name, self.result = name, result
        self.__name__ = name

    def __call__(self, *args):
        raise NotImplementedError("only in specifications")

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return self is o


def call_abstract(vm, f, args):
    zs = []
    for a in args:
        zs += key_terms(vm, a)
    # a fresh object every time: one result may be changed without the others changing
    vm.abstract_calls += 1
    ns, vm.ns = vm.ns, f"abs{vm.abstract_calls}"
    try:
        return vm.materialize(T.of(f.result), "abs." + f.name, tuple(zs))
    finally:
        vm.ns = ns


def key_terms(vm, a):
    """terms that determine the value"""
    if isinstance(a, SAny) and any(isinstance(t, (T.TCls, T.TList, T.TTupleV, T.TDict, T.TUnion, T.TJson)) for t in a.opts):
        return [py_to_z3_str(re.sub(r"(\|\d+)+$", "", a.path))] + list(a.args)
    a = vm.resolve(a)
    if isinstance(a, SBytes):
        a = a.s
    if vm.isstr(a):
        return [vm.zstr(a)]
    if isinstance(a, (bool, SBool)):
        from .engine import tb

        return [tb(a) if not isinstance(a, bool) else z3.BoolVal(a)]
    if isinstance(a, (int, SInt)):
        return [vm.zint(a)]
    if isinstance(a, tuple):
        return [t for x in a for t in key_terms(vm, x)]
    if a is None:
        return [py_to_z3_str("None")]
    if hasattr(a, "name") and type(type(a)).__name__ == "EnumType":
        return [py_to_z3_str(str(a))]
    if isinstance(a, Heap) and a.origin is not None and not getattr(a, "dirty", False):
        return [py_to_z3_str(re.sub(r"(\|\d+)+$", "", a.origin[0]))] + list(a.origin[1])
    raise Unsupported(f"abstract function of {type(a).__name__}")


class raising:
    """raising(items, exc): an iterator that gives the items and then raises"""

    def __call__(self, items, exc):
        raise NotImplementedError


raising = raising()


def unsupported(why):
    """in a specification of a dependency: a use of it that is not described"""
    raise NotImplementedError


class SBytes(Sym):
    """Bytes, represented by their decoding with errors="surrogateescape" (which is one-to-one); `s`: str or SStr."""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return f"SBytes({self.s!r})"


def text_of(b):
    return b.decode("utf-8", "surrogateescape")


def scalar(vm, s):
    """the text can be encoded (there are no surrogates in it): bool or z3 Bool"""
    from .engine import zand

    parts = [s] if isinstance(s, str) else s.pieces
    out = []
    for p in parts:
        if isinstance(p, str):
            if re.search("[\ud800-\udfff]", p):
                return False
            continue
        if isinstance(p, JoinPiece) and isinstance(p.sep, str) and not re.search("[\ud800-\udfff]", p.sep):
            out.append(all_scalar(vm, p.chunk))
            continue
        t = vm.zstr(SStr((p,)))
        out.append(vm.uf("encodable", (t,), B))
    return zand(out)


def all_scalar(vm, chunk):
    from .engine import tb, zand, zimp

    var, guard, alts = vm.chunk_generic(chunk)
    parts = []
    for pc, items in alts:
        parts.append(zimp(pc, zand([tb(all_scalar(vm, x.chunk) if isinstance(x, Nested) else scalar(vm, vm.resolve(x))) for x in items])))
    body = zand(parts)
    return body if z3.is_true(body) else z3.ForAll([var], zimp(guard, body))


UTF8 = (None, "utf-8", "utf8", "UTF-8", "utf_8")


def enc_arg(vm, args, kwargs):
    a = list(args) + ([kwargs["encoding"]] if "encoding" in kwargs else [])
    if len(a) > 1 or a and a[0] not in UTF8 or set(kwargs) - {"encoding"}:
        raise Unsupported("encoding")


def encode(vm, s, args, kwargs):
    enc_arg(vm, args, kwargs)
    if not vm.branch(scalar(vm, s)):
        vm.raise_(UnicodeEncodeError, "utf-8")
    return SBytes(s)


def as_text(vm, v):
    """the text of a bytes or bytearray value, or None"""
    if isinstance(v, SBytes):
        return v.s
    if isinstance(v, (bytes, bytearray)):
        return text_of(bytes(v))
    if isinstance(v, LSeq) and v.kind == "bytearray":
        from .strings import join

        vm.note_read(v.stamp, ("heap", id(v)))
        return join(vm, "", LSeq("iter", list(v.chunks)))
    return None


def bytes_method(vm, o, name, args, kwargs):
    t = as_text(vm, o) if not (isinstance(o, LSeq) and name in ("extend", "clear", "__iadd__")) else None
    if name == "decode":
        enc_arg(vm, args, kwargs)
        if not vm.branch(scalar(vm, t)):
            vm.raise_(UnicodeDecodeError, "utf-8")
        return t
    if isinstance(o, LSeq):
        if name in ("extend", "__iadd__"):
            x = as_text(vm, vm.resolve(args[0]))
            if x is None:
                raise Unsupported("bytearray.extend")
            vm.seq_append(o, ("item", x))
            return None
        if name == "clear":
            vm.seq_replace(o, [])
            return None
    if name == "join" and t == "":
        from .strings import join

        return SBytes(join(vm, "", args[0], lambda x: as_text(vm, x)))
    if name in ("startswith", "endswith"):
        from .strings import str_method

        a = vm.resolve(args[0])
        x = as_text(vm, a) if not isinstance(a, tuple) else tuple(as_text(vm, y) for y in a)
        return str_method(vm, t, name, [x], {})
    raise Unsupported(f"bytes.{name}")


def install(vm):
    M = vm.models

    def m_bytearray(vm, a, k):
        r = LSeq("bytearray")
        if a:
            x = as_text(vm, vm.resolve(a[0]))
            if x is None:
                raise Unsupported("bytearray")
            if x != "":
                r.chunks.append(("item", x))
        return r

    def m_bytes(vm, a, k):
        if not a:
            return SBytes("")
        x = as_text(vm, vm.resolve(a[0]))
        if x is None:
            raise Unsupported("bytes")
        return SBytes(x)

    def m_raising(vm, a, k):
        return LSeq("iter", vm.chunks_of(a[0]) + [("raise", a[1])])

    def m_unsupported(vm, a, k):
        raise Unsupported(f"dependency: {a[0]}")

    M[unsupported] = m_unsupported
    M[bytearray] = m_bytearray
    M[bytes] = m_bytes
    M[raising] = m_raising


def stub_call(vm, f, args, kwargs):
    """-> result of the specification function that stands for f, or NotImplemented"""
    if not vm.stubs or vm.in_stub:
        return NotImplemented
    try:
        g = vm.stubs.get(f, NotImplemented)
    except TypeError:
        return NotImplemented
    if g is NotImplemented:
        return NotImplemented
    vm.used_models.add(f"{getattr(f, '__module__', '')}:{getattr(f, '__qualname__', f)} stands for {g.__module__}:{g.__qualname__}")
    vm.in_stub = True
    try:
        return vm.run_function(g, [vm.world] + list(args), dict(kwargs))
    finally:
        vm.in_stub = False


def is_log(f):
    return isinstance(getattr(f, "__self__", None), logging.Logger)
