"""C04: MF2 serializer"""
import itertools
from moz.l10n.formats.mf2.message_parser import mf2_parse_message
from moz.l10n.formats.mf2.serialize import mf2_serialize_message, mf2_serialize_pattern
from moz.l10n.formats.mf2.validate import MF2ValidationError, mf2_validate_message
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.formats import Format
from moz.l10n.model import CatchallKey, Expression, Markup, PatternMessage, SelectMessage, VariableRef as V
from .common import cut, diff, exc, same, snap
from .c06 import valid
from .gen import G, S_EXPR, S_MARKUP, small_messages
from .mf2ref import BIDI, WS, ref_parse

CONTRACTS = ["mf2_serialize"]
BUDGET = 20
LEVEL = "other"
RULE = "all messages of a small grammar; all texts of up to 4 characters over the syntax alphabet as pattern, literal, option and key; all pairs of placeholders and short texts; then random valid messages; non-trivial: not the empty message"
EXPLANATION = 'Each function of the serializer (literals, options, attributes, expressions, markup, patterns, declarations, variants) is proved to produce exactly the text that its grammar rule spells, for all inputs; with the parser contracts of C05 this covers quoting, escaping and the choice between simple and complex messages. That parsing the text gives back the message is bounded: run on enumerated and random messages.'
ALPHA = ["{", "}", "\\", "|", ".", "\u2066", " ", "a", "1", "-"]


def has_nul(m):
    return "\0" in repr(m) or "\\x00" in repr(m)


def small(tier):
    yield from small_messages()
    for n in range(0, 5):
        for cs in itertools.product(ALPHA if n < 4 else ALPHA[:7], repeat=n):
            s = "".join(cs)
            yield PatternMessage([s])
            yield PatternMessage([s], {"a": Expression("1", "f")})
            if n < 4:
                yield PatternMessage([Expression(s, None, {}, {"t": s})])
                yield PatternMessage([Expression(s, "f", {"o": s, "p": s}, {"t": True, "u": s})])
                yield PatternMessage([Markup("standalone", "m", {"o": s}, {"t": s})])
                yield SelectMessage({"a": Expression(s, "f")}, (V("a"),), {(s,): [s], (CatchallKey(s),): []})
    texts = ["", " ", ".", "x", "\u200e", "\n.", "a.", "{", "."]
    for a, b, c in itertools.product(texts, S_EXPR[::5] + S_MARKUP[::4], texts):
        yield PatternMessage([a, b, c])
        yield PatternMessage([b, a, b])
    for ts in itertools.product(["", " ", ".", "\u2069", ".a", "b"], repeat=3):
        yield PatternMessage(list(ts))
    nums = ["0", "-0", "01", "1.", "1.5", ".5", "1e5", "1E-5", "1e", "-", "--1", "1x5", "+1", "1.5.2", "00", "-1.0e+2", "a-1", "1a", "a:b", "é", "\u0301", "_", "a\u0301", "9" * 30]
    for s in nums:
        yield PatternMessage([Expression(s)])
        yield SelectMessage({"a": Expression(s, "f", {"o": s})}, (V("a"),), {(s,): [s], (CatchallKey(),): []})


def cases(r, tier, shard, shards):
    g = cut(small(tier), shard, shards)
    while True:
        for x in itertools.islice(g, 30):
            yield ("small", x)
        yield ("random", G(r, valid=True).message())


def nontrivial(case):
    m = case[1]
    return not isinstance(m, PatternMessage) or bool(m.pattern)


def from_witness(name, w):
    for v in w.values():
        if isinstance(v, (PatternMessage, SelectMessage)):
            return ("witness", v)
        if isinstance(v, (Expression, Markup)):
            return ("witness", PatternMessage([v]))
        if isinstance(v, list):
            return ("witness", PatternMessage(v))


def canon(m):
    m = snap(m)

    def pat(p):
        out = []
        for x in p:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "":
                out.append(x)
        return out

    m.declarations = dict(sorted(m.declarations.items()))
    if isinstance(m, PatternMessage):
        m.pattern = pat(m.pattern)
    else:
        m.variants = {tuple(CatchallKey() if isinstance(k, CatchallKey) else k for k in ks): pat(p) for ks, p in m.variants.items()}
    return m


def check(case):
    m = snap(case[1])
    if not valid(m) or has_nul(m):
        return None
    try:
        mf2_validate_message(m)
    except MF2ValidationError:
        return None
    m0 = snap(m)
    try:
        src = mf2_serialize_message(m)
        if not isinstance(src, str):
            src = "".join(src)
        if not same(m, m0):
            return f"serializing changed the message: {diff(m, m0)}"
        got = mf2_parse_message(src)
    except Exception as e:
        return f"raised {exc(e)} for {m0!r}"
    if not same(canon(got), canon(m0)):
        return f"{src!r} parses to another message: {diff(canon(got), canon(m0))}"
    if isinstance(m, PatternMessage) and not m.declarations and not (src.lstrip(BIDI + WS).startswith((".", "{{"))):
        # a pattern on its own
        s2 = "".join(mf2_serialize_pattern(m.pattern))
        if s2 != src:
            return f"pattern text {s2!r} is not the message text {src!r}"
    # the grammar itself reads the same from it
    ref = ref_parse(src)
    if ref is None or not same(canon(ref), canon(m0)):
        return f"{src!r} is not MessageFormat 2 for {m0!r} (grammar: {ref!r})"
