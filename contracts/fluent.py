"""C14: formats/fluent: variant keys, names of default variants, escaped starts and texts"""
from __future__ import annotations
from dataclasses import dataclass
from re import fullmatch
from fluent.syntax import ast as ftl
from pyvc import types as T
from pyvc.contract import Contract, Relation
from pyvc.loops import Loop
from moz.l10n.formats.fluent.serialize import identifier, number
from moz.l10n.model import CatchallKey, Pattern, SelectMessage

S = "moz.l10n.formats.fluent.serialize:"
P = "moz.l10n.formats.fluent.parse:"


# ---------------------------------------------------------------- keys
def shown(key, other):
    return (key.value or other) if isinstance(key, CatchallKey) else key


def key_node(res, key, other):
    s = shown(key, other)
    return (
        isinstance(res, ftl.NumberLiteral) and res.value == s and number.fullmatch(s) is not None
        or isinstance(res, ftl.Identifier) and res.name == s and fullmatch(identifier, s) is not None
    )


def no_key(exc, key, other):
    s = shown(key, other)
    return number.fullmatch(s) is None and fullmatch(identifier, s) is None


Relation(S + "variant_key", dict(key=str | CatchallKey, other=str), ensures=key_node, returns=object, raises={ValueError: ({}, no_key)}, prop="C14", public=True, name="variant_key")


def read_key(name, is_default):
    return CatchallKey(name) if is_default else name


def key_args(name, numeric, is_default):
    return ((name, numeric, is_default),)


def read(name, numeric, is_default):
    return read_key(name, is_default)


Contract(P + "message_key", dict(name=str, numeric=bool, is_default=bool), args=key_args, result=read, prop="C14", public=True, name="message_key")


# ---------------------------------------------------------------- the name of the default variant
def tried(message, i, key):
    return i >= 0, key == "other" if i == 0 else key == f"other{i}"


Loop(S + "fallback_name", 0, tried, {"i": int, "key": str})


def free(res, message):
    return res.startswith("other"), not any(any(res == str(k) for k in keys) for keys in message.variants)


Relation(S + "fallback_name", dict(message=SelectMessage), ensures=free, returns=str, prop="C14", public=True, name="fallback_name")
