"""C21: contracts of the build tools, over assumed contracts of the parsers, serializers and files"""
from __future__ import annotations
from dataclasses import dataclass
from pyvc.contract import Contract
from moz.l10n.formats import Format
from moz.l10n.model import Comment, Entry, Resource, Section

B = "moz.l10n.bin.build:"
SMALL = "write_target_file counts and collects from within a nested comprehension: no invariant within the engine's reach"


class Sec:
    """a section with any id, with any messages"""

    id: str
    ids: list[str]


class Plain:
    """a section without id, with any messages"""

    ids: list[str]


class Ftl:
    """a Fluent message with any attributes"""

    id: str
    attrs: list[str]


@dataclass
class Disk:
    there: bool
    localized: Resource
    serialized: list


def s_exists(w, path):
    if path != "l10n/file":
        raise NotImplementedError
    return w.there


def s_parse_resource(w, path):
    if not w.there:
        raise NotImplementedError
    return w.localized


def s_serialize_resource(w, resource, trim_comments=False):
    w.serialized.append((resource.format, [(s.id, s.entries) for s in resource.sections], trim_comments))
    return []


class File:
    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return None

    def write(self, s):
        return None


def s_open(w, path, mode="r", encoding=None):
    return File()


STUBS = {
    "builtins:open": s_open,
    "os.path:exists": s_exists,
    "moz.l10n.resource:parse_resource": s_parse_resource,
    "moz.l10n.resource:serialize_resource": s_serialize_resource,
}


def section(s, mark):
    return Section((s.id,), [Comment("note")] + [Entry((i,), mark, comment="") for i in s.ids])


def plain(s, mark):
    return Section((), [Entry((i,), mark) for i in s.ids])


def ftl(m, mark):
    return Entry((m.id,), mark, properties={a: mark for a in m.attrs})


def seen(w):
    return w.serialized


# ---------------------------------------------------------------- formats other than Fluent: one section on each side
def args1(there, source, loc):
    return "file", Resource(Format.ini, [section(source, "ref")]), "l10n/file", "out/file"


def world1(there, source, loc):
    return Disk(there, Resource(Format.ini, [section(loc, "loc")]), [])


def has(there, loc, sid, i):
    return there and loc.id == sid and i in loc.ids


def effects1(there, source, loc):
    return [(Format.ini, [((source.id,), [Entry((i,), "loc" if has(there, loc, source.id, i) else "ref", comment="") for i in source.ids])], True)]


def result1(there, source, loc):
    missing = [[source.id, i] for i in source.ids if not has(there, loc, source.id, i)]
    return len(missing), len(source.ids), missing


Contract(
    B + "write_target_file", dict(there=bool, source=Sec, loc=Sec), args=args1, stubs=STUBS, world=world1, observe=seen,
    effects=effects1, result=result1, prop="C21", public=True, name=B + "write_target_file/section", bound=2, small=SMALL,
)


# ---------------------------------------------------------------- two sections on each side, some without id
def args2(source, more, loc, other):
    return "file", Resource(Format.ini, [plain(source, "ref"), section(more, "ref")]), "l10n/file", "out/file"


def world2(source, more, loc, other):
    return Disk(True, Resource(Format.ini, [section(loc, "loc"), plain(other, "loc")]), [])


def effects2(source, more, loc, other):
    return [(Format.ini, [
        ((), [Entry((i,), "loc" if i in other.ids else "ref") for i in source.ids]),
        ((more.id,), [Entry((i,), "loc" if has(True, loc, more.id, i) else "ref", comment="") for i in more.ids]),
    ], True)]


def result2(source, more, loc, other):
    missing = [i for i in source.ids if i not in other.ids]
    missing += [[more.id, i] for i in more.ids if not has(True, loc, more.id, i)]
    return len(missing), len(source.ids) + len(more.ids), missing


Contract(
    B + "write_target_file", dict(source=Plain, more=Sec, loc=Sec, other=Plain), args=args2, stubs=STUBS, world=world2,
    observe=seen, effects=effects2, result=result2, prop="C21", public=True, name=B + "write_target_file/sections", bound=1, small=SMALL,
)


# ---------------------------------------------------------------- Fluent
def args3(there, a, b, x):
    return "file", Resource(Format.fluent, [Section((), [Comment("note"), ftl(a, "ref"), ftl(b, "ref")])]), "l10n/file", "out/file"


def world3(there, a, b, x):
    return Disk(there, Resource(Format.fluent, [Section((), [ftl(x, "loc"), Comment("mine")])]), [])


def requires3(there, a, b, x):
    return a.id != "" and b.id != "" and x.id != "" and a.id != b.id


def translated(there, m, x):
    if not there or m.id != x.id:
        return False
    return m.id[0] == "-" or all(i in x.attrs for i in m.attrs)


def localized(m, x):
    if m.id[0] == "-":
        return ftl(x, "loc")
    return Entry((m.id,), "loc", properties={i: "loc" for i in x.attrs if i in m.attrs})


def effects3(there, a, b, x):
    return [(Format.fluent, [((), [localized(m, x) for m in [a, b] if translated(there, m, x)])], True)]


def result3(there, a, b, x):
    missing = [m.id for m in [a, b] if not translated(there, m, x)]
    return -len(missing), 2, missing


Contract(
    B + "write_target_file", dict(there=bool, a=Ftl, b=Ftl, x=Ftl), requires=requires3, args=args3, stubs=STUBS, world=world3,
    observe=seen, effects=effects3, result=result3, prop="C21", public=True, name=B + "write_target_file/fluent", bound=2, small=SMALL,
)
