"""C17: paths/android_locale.py"""
import re
from pyvc.contract import Contract, lemma, pred
from moz.l10n.paths.android_locale import get_android_locale, parse_android_locale

M = "moz.l10n.paths.android_locale:"
LANG = re.compile("[a-z]{2,3}")
SUBTAG = re.compile("[0-9A-Za-z]{1,8}")
REGION = re.compile("[A-Z]{2}")
QUALIFIER = re.compile(r"[a-z]{2,3}(?:-r[A-Z]{2})?|b(?:\+[0-9A-Za-z]{1,8})+")


def legacy(lang):
    return "iw" if lang == "he" else "in" if lang == "id" else "ji" if lang == "yi" else lang


def current(lang):
    return "he" if lang == "iw" else "id" if lang == "in" else "yi" if lang == "ji" else lang


@pred
def is_code(lang, subtags):
    return LANG.fullmatch(lang) is not None and all(SUBTAG.fullmatch(x) is not None for x in subtags)


def qualifier(lang, subtags):
    lc = legacy(lang)
    if not subtags:
        return lc
    if len(subtags) == 1 and REGION.fullmatch(subtags[0]) is not None:
        return lc + "-r" + subtags[0]
    return "b+" + lc + "+" + "+".join(subtags)


P = dict(prop="C17", public=True)
Contract(M + "get_android_locale", dict(lang=str, subtags=list[str]), requires=is_code, args=lambda lang, subtags: ("-".join([lang, *subtags]),), result=qualifier, name="get_android_locale", **P)


def nothing(alocale):
    return None


def no_qualifier(alocale):
    return QUALIFIER.fullmatch(alocale) is None


Contract(M + "parse_android_locale", dict(alocale=str), requires=no_qualifier, result=nothing, name="parse_android_locale/refuses", **P)


@pred
def are_subtags(lang, subtags):
    return SUBTAG.fullmatch(lang) is not None and all(SUBTAG.fullmatch(x) is not None for x in subtags)


def code(lang, subtags):
    return "-".join([current(lang), *subtags])


Contract(M + "parse_android_locale", dict(lang=str, subtags=list[str]), requires=are_subtags, args=lambda lang, subtags: ("b+" + "+".join([lang, *subtags]),), result=code, name="parse_android_locale/b+", **P)


def with_region(lang, region):
    return (lang + "-r" + region,)


def code_region(lang, region):
    return current(lang) + "-" + region


def is_lang(lang):
    return LANG.fullmatch(lang) is not None


def is_region(lang, region):
    return LANG.fullmatch(lang) is not None and REGION.fullmatch(region) is not None


Contract(M + "parse_android_locale", dict(lang=str, region=str), requires=is_region, args=with_region, result=code_region, name="parse_android_locale/region", **P)
Contract(M + "parse_android_locale", dict(lang=str), requires=is_lang, result=current, name="parse_android_locale/language", **P)


def round_trip(lang, subtags):
    return parse_android_locale(get_android_locale("-".join([lang, *subtags]))) == "-".join([current(lang), *subtags])


lemma("android-locale/round-trip", dict(lang=str, subtags=list[str]), round_trip, requires=is_code, prop="C17")
