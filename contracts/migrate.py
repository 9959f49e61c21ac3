"""C25: migrate/utils.py: plural messages, lookup of entries and patterns"""
from __future__ import annotations
from dataclasses import dataclass
from pyvc.contract import Contract, Relation
from moz.l10n.formats import Format
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Message, Pattern, PatternMessage, Resource, Section, SelectMessage, VariableRef

U = "moz.l10n.migrate.utils:"


# ---------------------------------------------------------------- plural messages
def plural_args(var_name, zero, one, two, few, many, other):
    return (var_name,)


def plural_kwargs(var_name, zero, one, two, few, many, other):
    return dict(zero=zero, one=one, two=two, few=few, many=many, other=other)


def plural(var_name, zero, one, two, few, many, other):
    """a variant for each category that is given, and the default one"""
    variants = {}
    if zero is not None:
        variants[("zero",)] = zero
    if one is not None:
        variants[("one",)] = one
    if two is not None:
        variants[("two",)] = two
    if few is not None:
        variants[("few",)] = few
    if many is not None:
        variants[("many",)] = many
    variants[(CatchallKey("other"),)] = other
    return SelectMessage({var_name: Expression(VariableRef(var_name), "number")}, (VariableRef(var_name),), variants)


P = Pattern | None
Contract(U + "plural_message", dict(var_name=str, zero=P, one=P, two=P, few=P, many=P, other=Pattern), args=plural_args, kwargs=plural_kwargs, result=plural, prop="C25", public=True, name="plural_message")


# ---------------------------------------------------------------- lookup
@dataclass
class Sec:
    """a section without an id or with one of one part, and its contents"""

    id: str | None
    body: list[Entry[Message] | Comment]


def resource(sections):
    return Resource(Format.fluent, [Section(() if s.id is None else (s.id,), s.body) for s in sections])


def found(s, a, b):
    """the entries of a section with the id"""
    return [e for e in s.body if isinstance(e, Entry) and (e.id == (a, b) if s.id is None else s.id == a and e.id == (b,))]


def entry_args(sections, a, b):
    return resource(sections), a, b


def first_found(sections, a, b):
    for s in sections:
        for e in s.body:
            if isinstance(e, Entry) and (e.id == (a, b) if s.id is None else s.id == a and e.id == (b,)):
                return e
    return None


Contract(U + "get_entry", dict(sections=list[Sec], a=str, b=str), args=entry_args, result=first_found, prop="C25", public=True, name="get_entry")


# ---------------------------------------------------------------- patterns
def pattern_args(sections, a, b, property, default, variant):
    return resource(sections), a, b


def pattern_kwargs(sections, a, b, property, default, variant):
    return dict(property=property, default=default, variant=variant)


def message_of(sections, a, b, property):
    e = first_found(sections, a, b)
    return None if e is None else e.value if property is None else e.properties.get(property)


def fallbacks(msg):
    return [p for keys, p in msg.variants.items() if all(isinstance(k, CatchallKey) for k in keys)]


def there(sections, a, b, property, default, variant):
    """there is something to be found"""
    msg = message_of(sections, a, b, property)
    if msg is None:
        return default is not None and first_found(sections, a, b) is None
    return isinstance(msg, PatternMessage) or (variant,) in msg.variants or any(all(isinstance(k, CatchallKey) for k in keys) for keys in msg.variants)


def pattern(sections, a, b, property, default, variant):
    msg = message_of(sections, a, b, property)
    if msg is None:
        return default
    if isinstance(msg, PatternMessage):
        return msg.pattern
    if (variant,) in msg.variants:
        return msg.variants[(variant,)]
    for keys, p in msg.variants.items():
        if all(isinstance(k, CatchallKey) for k in keys):
            return p
    return None


Contract(
    U + "get_pattern", dict(sections=list[Sec], a=str, b=str, property=str | None, default=Pattern | None, variant=str), args=pattern_args, kwargs=pattern_kwargs,
    requires=there, result=pattern, prop="C25", public=True, name="get_pattern",
)
