"""C26: contracts of format detection and of the choice of parsers and serializers"""
from __future__ import annotations
from dataclasses import dataclass
from json import JSONDecodeError
from typing import Any, Literal
from pyvc.contract import Contract
from pyvc.world import abstract, raising, unsupported
from moz.l10n.formats import Format, UnsupportedFormat

try:
    from lxml.etree import XMLSyntaxError
except ImportError:
    XMLSyntaxError = Exception

F, P, Z = "moz.l10n.formats:", "moz.l10n.resource.parse_resource:", "moz.l10n.resource.serialize_resource:"

# ---------------------------------------------------------------- shapes of JSON values
# the least predicates with these unfoldings (the code is recursive)
strings_inside = abstract("is_object_of_strings", bool)


def s_strings_inside(w, obj):
    return isinstance(obj, dict) and strings_inside(obj)


def x_object_of_strings(obj):
    if not isinstance(obj, dict):
        return False
    return all((strings_inside(v) if isinstance(v, dict) else isinstance(v, str)) for v in obj.values())


Contract(
    F + "is_object_of_strings", dict(obj=Any), result=x_object_of_strings, stubs={F + "is_object_of_strings": s_strings_inside},
    prop="C26", public=True,
)


def x_webext_message(obj):
    return (
        isinstance(obj, dict)
        and "message" in obj
        and all(k in ("message", "description", "placeholders") for k in obj)
        and all(k != "placeholders" or isinstance(v, dict) for k, v in obj.items())
    )


Contract(F + "is_webext_message", dict(obj=Any), result=x_webext_message, prop="C26", public=True)

# ---------------------------------------------------------------- assumed: file names, json, lxml
extension = abstract("extension", str)
stem = abstract("stem", str)
json_outcome = abstract("json_outcome", Literal["valid", "commented", "bad", "undecodable"])
json_value = abstract("json_value", Any)
webext_message = abstract("is_webext_message", bool)
xml_ok = abstract("xml_ok", bool)
xml_ns = abstract("xml_ns", str | None)
xml_tag = abstract("xml_tag", str)


@dataclass
class NsMap:
    ns: Any

    def get(self, key, default=None):
        if key is not None:
            unsupported("namespace with a prefix")
        return default if self.ns is None else self.ns


@dataclass
class Root:
    nsmap: NsMap
    tag: Any


def s_splitext(w, path):
    return (stem(path), extension(path))


def s_json(w, source):
    o = json_outcome(source)
    if o == "bad":
        raise JSONDecodeError("?")
    if o == "undecodable":
        raise UnicodeDecodeError("?")
    return (json_value(source), o == "valid")


def s_bytesio(w, source):
    return source


def s_iterparse(w, source, events=("end",)):
    if events != ("start",):
        unsupported("iterparse")
    if not xml_ok(source):
        return raising([], XMLSyntaxError("?"))
    return iter([("start", Root(NsMap(xml_ns(source)), xml_tag(source)))])


def s_webext_message(w, obj):
    return webext_message(obj)


BY_NAME = {
    ".dtd": "dtd", ".ftl": "fluent", ".po": "gettext", ".pot": "gettext", ".inc": "inc", ".ini": "ini", ".properties": "properties",
    ".xlf": "xliff", ".xliff": "xliff",
}
XLIFF = ("urn:oasis:names:tc:xliff:document:1.0", "urn:oasis:names:tc:xliff:document:1.1", "urn:oasis:names:tc:xliff:document:1.2")


def x_detect(name, source):
    ext = extension(name) if name else None
    for e, f in BY_NAME.items():
        if ext == e:
            return Format[f]
    if source is None:
        return None
    if ext != ".xml":
        o = json_outcome(source)
        if o == "valid" or o == "commented":
            v = json_value(source)
            if isinstance(v, dict) and strings_inside(v):
                if all(webext_message(m) for m in v.values()):
                    return Format.webext
                return Format.plain_json if o == "valid" else None
            if v is not None or o == "valid":
                return None
    if isinstance(source, str):
        try:
            bs = source.encode()
        except UnicodeEncodeError:
            return None
    else:
        bs = source
    if not xml_ok(bs):
        return None
    ns = xml_ns(bs)
    if ns:
        return Format.xliff if ns in XLIFF else None
    return Format.android if xml_tag(bs) == "resources" else None


Contract(
    F + "detect_format", dict(name=str | None, source=bytes | str | None), result=x_detect,
    stubs={
        "os.path:splitext": s_splitext, F + "json_linecomment_loads": s_json, F + "is_object_of_strings": s_strings_inside,
        F + "is_webext_message": s_webext_message, "io:BytesIO": s_bytesio, "lxml.etree:iterparse": s_iterparse,
    },
    prop="C26", public=True, budget=120,
)

# ---------------------------------------------------------------- choice of the parser
detected = abstract("detect_format", Format | None)
file_ok = abstract("file_exists", bool)
file_bytes = abstract("file_bytes", bytes)


class ReadOnly:
    def __init__(self, data):
        self.data = data

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        return None

    def read(self):
        return self.data


def s_open(w, path, mode="r"):
    if mode != "rb":
        unsupported("mode")
    if not file_ok(path):
        raise FileNotFoundError("?")
    return ReadOnly(file_bytes(path))


def s_detect(w, name, source=None):
    return detected(name, source)


def s_dtd(w, source):
    return ("dtd", source)


def s_fluent(w, source, **options):
    return ("fluent", source, options)


def s_gettext(w, source, plurals=None, skip_obsolete=False):
    return ("gettext", source, plurals, skip_obsolete)


def s_inc(w, source):
    return ("inc", source)


def s_ini(w, source):
    return ("ini", source)


def s_plain_json(w, source):
    return ("plain_json", source)


def s_properties(w, source, *, printf_placeholders=False):
    return ("properties", source, printf_placeholders)


def s_webext(w, source):
    return ("webext", source)


def s_android(w, source, *, ascii_spaces=False, literal_quotes=False):
    return ("android", source, ascii_spaces, literal_quotes)


def s_xliff(w, source, *, source_entries=False):
    return ("xliff", source, source_entries)


def x_parse(input, source, a1, a2, g1, g2, p1, x1):
    """what the parser of the format returns, which is called with the source and its options"""
    isfile = source is None
    if isfile:
        if not isinstance(input, str):
            raise TypeError("source")
        if not file_ok(input):
            raise FileNotFoundError("?")
        source = file_bytes(input)
    f = input if isinstance(input, Format) else detected(input, source)
    if f is None:
        raise UnsupportedFormat("?")
    if f == Format.fluent:
        return ("fluent", source, {})
    if f == Format.gettext:
        return ("gettext", input if isfile else source, g1, g2)
    if f == Format.properties:
        return ("properties", source, p1)
    if f == Format.android:
        return ("android", source, a1, a2)
    if f == Format.xliff:
        return ("xliff", source, x1)
    for n in ("dtd", "inc", "ini", "plain_json", "webext"):
        if f == Format[n]:
            return (n, source)
    raise UnsupportedFormat("?")


def parse_args(input, source, a1, a2, g1, g2, p1, x1):
    return [input, source]


def parse_kwargs(input, source, a1, a2, g1, g2, p1, x1):
    return {"android_ascii_spaces": a1, "android_literal_quotes": a2, "gettext_plurals": g1, "gettext_skip_obsolete": g2,
            "properties_printf_placeholders": p1, "xliff_source_entries": x1}


Contract(
    P + "parse_resource",
    dict(input=Format | str | None, source=str | bytes | None, a1=bool, a2=bool, g1=list[str] | None, g2=bool, p1=bool, x1=bool),
    args=parse_args, kwargs=parse_kwargs, result=x_parse, prop="C26", public=True, budget=120,
    stubs={
        "builtins:open": s_open, P + "detect_format": s_detect, P + "dtd_parse": s_dtd, P + "fluent_parse": s_fluent, P + "gettext_parse": s_gettext,
        P + "inc_parse": s_inc, P + "ini_parse": s_ini, P + "plain_json_parse": s_plain_json, P + "properties_parse": s_properties,
        P + "webext_parse": s_webext, P + "android_parse": s_android, P + "xliff_parse": s_xliff,
    },
)


# ---------------------------------------------------------------- choice of the serializer
@dataclass
class Res:
    format: Format | None


def z_dtd(w, resource, *, trim_comments=False):
    return ("dtd", resource, trim_comments)


def z_fluent(w, resource, serialize_metadata=None, *, escape_syntax=True, trim_comments=False):
    return ("fluent", resource, serialize_metadata, escape_syntax, trim_comments)


def z_gettext(w, resource, *, plurals=None, trim_comments=False):
    return ("gettext", resource, plurals, trim_comments)


def z_inc(w, resource, trim_comments=False):
    return ("inc", resource, trim_comments)


def z_ini(w, resource, trim_comments=False):
    return ("ini", resource, trim_comments)


def z_plain_json(w, resource, trim_comments=False):
    return ("plain_json", resource, trim_comments)


def z_properties(w, resource, encoding="utf-8", trim_comments=False):
    return ("properties", resource, encoding, trim_comments)


def z_webext(w, resource, trim_comments=False):
    return ("webext", resource, trim_comments)


def z_android(w, resource, trim_comments=False):
    return ("android", resource, trim_comments)


def z_xliff(w, resource, trim_comments=False, *, source_entries=False):
    return ("xliff", resource, trim_comments, source_entries)


def x_serialize(resource, format, trim, f1, g1, x1):
    f = format if format is not None else resource.format
    if f is None:
        raise ValueError("?")
    if f == Format.fluent:
        return ("fluent", resource, None, f1, trim)
    if f == Format.gettext:
        return ("gettext", resource, g1, trim)
    if f == Format.properties:
        return ("properties", resource, "utf-8", trim)
    if f == Format.xliff:
        return ("xliff", resource, trim, x1)
    for n in ("dtd", "inc", "ini", "plain_json", "webext", "android"):
        if f == Format[n]:
            return (n, resource, trim)
    raise ValueError("?")


def serialize_args(resource, format, trim, f1, g1, x1):
    return [resource, format, trim]


def serialize_kwargs(resource, format, trim, f1, g1, x1):
    return {"fluent_escape_syntax": f1, "gettext_plurals": g1, "xliff_source_entries": x1}


Contract(
    Z + "serialize_resource", dict(resource=Res, format=Format | None, trim=bool, f1=bool, g1=list[str] | None, x1=bool),
    args=serialize_args, kwargs=serialize_kwargs, result=x_serialize, prop="C26", public=True, budget=120,
    stubs={
        Z + "dtd_serialize": z_dtd, Z + "fluent_serialize": z_fluent, Z + "gettext_serialize": z_gettext, Z + "inc_serialize": z_inc,
        Z + "ini_serialize": z_ini, Z + "plain_json_serialize": z_plain_json, Z + "properties_serialize": z_properties, Z + "webext_serialize": z_webext,
        Z + "android_serialize": z_android, Z + "xliff_serialize": z_xliff,
    },
)
