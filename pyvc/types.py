"""Type descriptors, read mechanically from the annotations of the real code."""
from __future__ import annotations
import dataclasses, enum, types as pytypes, typing
from collections import abc
from typing import Any, Literal, TypeVar, Union, get_args, get_origin, get_type_hints


class T:
    def __repr__(self):
        return self.__class__.__name__ + repr(getattr(self, "__dict__", ""))


class TStr(T):
    pass


class TBytes(T):
    pass


class TInt(T):
    pass


class TBool(T):
    pass


class TFloat(T):
    pass


class TLit(T):
    def __init__(self, value):
        self.value = value


class TCls(T):
    def __init__(self, cls, over=None):
        self.cls = cls
        self.over = over or {}


class TUnion(T):
    def __init__(self, opts):
        self.opts = opts


class TList(T):
    def __init__(self, e):
        self.e = e


class TTupleV(T):
    def __init__(self, e):
        self.e = e


class TTuple(T):
    def __init__(self, es):
        self.es = es


class TDict(T):
    def __init__(self, k, v):
        self.k, self.v = k, v


class TSet(T):
    def __init__(self, e):
        self.e = e


class TJson(T):
    """Any JSON value (expanded lazily)."""


class TConst(T):
    """A fixed engine value."""

    def __init__(self, make):
        self.make = make


def union(opts):
    flat = []
    for o in opts:
        if isinstance(o, TUnion):
            flat += o.opts
        else:
            flat.append(o)
    return flat[0] if len(flat) == 1 else TUnion(flat)


_hints: dict = {}


def field_types(cls):
    if cls not in _hints:
        h = get_type_hints(cls)
        _hints[cls] = h
    return _hints[cls]


def of(ann, over=None) -> T:
    """annotation -> descriptor"""
    if isinstance(ann, T):
        return ann
    if ann is str:
        return TStr()
    if ann is bytes:
        return TBytes()
    if ann is int:
        return TInt()
    if ann is bool:
        return TBool()
    if ann is float:
        return TFloat()
    if ann is None or ann is type(None):
        return TLit(None)
    if ann is Any:
        return TJson()
    if isinstance(ann, TypeVar):
        if ann.__bound__ is not None:
            return of(ann.__bound__)
        raise TypeError(f"unbound type variable {ann}")
    org = get_origin(ann)
    args = get_args(ann)
    if org is Literal:
        return union([TLit(a) for a in args])
    if org is Union or org is pytypes.UnionType:
        return union([of(a) for a in args])
    if org in (list, abc.Iterable, abc.Iterator, abc.Sequence):
        return TList(of(args[0]))
    if org is tuple:
        if len(args) == 2 and args[1] is Ellipsis:
            return TTupleV(of(args[0]))
        return TTuple([of(a) for a in args])
    if org in (dict, abc.Mapping):
        return TDict(of(args[0]), of(args[1]))
    if org in (set, frozenset):
        return TSet(of(args[0]))
    if isinstance(org, type):  # Generic dataclass
        if args:
            params = getattr(org, "__parameters__", ())
            return TCls(org, {p.__name__: of(a) for p, a in zip(params, args) if not isinstance(a, TypeVar)})
        return TCls(org)
    if isinstance(ann, type):
        if issubclass(ann, enum.Enum):
            return union([TLit(m) for m in ann])
        return TCls(ann)
    raise TypeError(f"annotation {ann!r}")


def field_type(tcls: TCls, name: str) -> T:
    if name in tcls.over:
        return of(tcls.over[name])
    ann = field_types(tcls.cls)[name]
    return _subst_tv(ann, tcls)


def _subst_tv(ann, tcls):
    """annotation -> descriptor, with the type variables of a generic class filled in"""
    if isinstance(ann, TypeVar):
        if ann.__name__ in tcls.over:
            return tcls.over[ann.__name__]
        return of(ann)
    org, args = get_origin(ann), get_args(ann)
    if org in (list,):
        return TList(_subst_tv(args[0], tcls))
    if org in (dict,):
        return TDict(_subst_tv(args[0], tcls), _subst_tv(args[1], tcls))
    if org is Union or org is pytypes.UnionType:
        return union([_subst_tv(a, tcls) for a in args])
    if isinstance(org, type) and dataclasses.is_dataclass(org):
        params = getattr(org, "__parameters__", ())
        return TCls(org, {p.__name__: _subst_tv(a, tcls) for p, a in zip(params, args)})
    return of(ann)
