"""C17: Android locale codes"""
import itertools, re
from moz.l10n.paths import get_android_locale, parse_android_locale
from .common import cut, exc

CONTRACTS = ["android_locale"]
BUDGET = 8
LEVEL = "proof"
RULE = "codes from all combinations of a set of languages, scripts, regions and up to 2 variants, all strings of up to 4 characters over an alphabet of 8, random strings; non-trivial: all"
EXPLANATION = "get_android_locale and parse_android_locale meet their contracts for every string of the four shapes; the round trip is a lemma over language, script, region and any number of variants"

LEGACY = {"iw": "he", "in": "id", "ji": "yi"}
LANG = r"[a-z]{2,3}"
CODE = re.compile(LANG + r"(-[A-Z][a-z]{3})?(-([A-Z]{2}|[0-9]{3}))?(-([0-9a-z]{5,8}|[0-9][0-9a-z]{3}))*")
QUAL = re.compile(r"[a-z]{2,3}(-r[A-Z]{2})?|b(\+[0-9A-Za-z]{1,8})+")


def cases(r, tier, shard, shards):
    def codes():
        for l in ["en", "he", "id", "yi", "iw", "in", "ji", "fil", "sr", "zh", "hei", "ind", "es", "br", "b", "haw"]:
            for s in ["", "-Latn", "-Hebr", "-Cyrl"]:
                for g in ["", "-GB", "-419", "-IL", "-ID", "-IN", "-RR", "-AA"]:
                    for v in ["", "-valencia", "-1901", "-1694acad", "-oxendict-1994", "-iwiwi"]:
                        yield ("code", l + s + g + v)
        for n in range(0, 4):
            for t in itertools.product("ber+-AI1", repeat=n):
                yield ("string", "".join(t))
        for q in ["b+", "b+en", "b++en", "b+en+", "b+ en", "b+en+x\n", "en-rUS\n", "en-rus", "en-rUSA", "values", "b+iw", "b+iw+IL", "iw-rIL", "B+en", "en_US", "EN", "he", "b+he", "b+en+ü", "b+en-US", "en-r12"]:
            yield ("string", q)

    yield from cut(codes(), shard, shards)
    while True:
        if r.random() < 0.5:
            c = "".join(r.choice("abcdefhijnwyz") for _ in range(r.choice([2, 3])))
            if r.random() < 0.2:
                c = r.choice(["he", "id", "yi", "iw", "in", "ji"])
            if r.random() < 0.4:
                c += "-" + r.choice("ABL") + "".join(r.choice("abcr") for _ in range(3))
            if r.random() < 0.5:
                c += "-" + r.choice([r.choice("ABIR") + r.choice("ABLR"), "%03d" % r.randrange(1000)])
            for _ in range(r.choice([0, 0, 1, 2, 3])):
                c += "-" + r.choice(["".join(r.choice("abir1") for _ in range(r.randrange(5, 9))), "1" + "".join(r.choice("ab1") for _ in range(3))])
            yield ("code", c)
        else:
            yield ("string", "".join(r.choice("abeinrw+-+-rAB1 \nß") for _ in range(r.randrange(0, 9))))


def from_witness(name, w):
    for k in ("locale", "alocale", "s"):
        if isinstance(w.get(k), str):
            return ("string", w[k])


def check(case):
    s = case[1]
    try:
        if CODE.fullmatch(s):
            a = get_android_locale(s)
            if not QUAL.fullmatch(a):
                return f"get_android_locale({s!r}) is {a!r}, which is not a resource qualifier"
            l, _, rest = s.partition("-")
            want = LEGACY.get(l, l) + _ + rest
            b = parse_android_locale(a)
            if b != want:
                return f"parse_android_locale(get_android_locale({s!r})) is {b!r}, through {a!r}"
            l2 = re.split(r"[-+]", a.removeprefix("b+"))[0]
            if l2 in LEGACY.values():
                return f"get_android_locale({s!r}) is {a!r} without the legacy code"
        b = parse_android_locale(s)
        if QUAL.fullmatch(s):
            if s.startswith("b+"):
                l, *rest = s[2:].split("+")
            else:
                l, *rest = s.split("-r")
            want = "-".join([LEGACY.get(l, l), *rest])
        else:
            want = None
        if b != want:
            return f"parse_android_locale({s!r}) is {b!r} instead of {want!r}"
    except Exception as e:
        return f"{s!r} raised {exc(e)}"
