"""C05: MF2 parser"""
import itertools
from moz.l10n.formats.mf2.message_parser import MF2ParseError, mf2_parse_message
from moz.l10n.formats.mf2.serialize import mf2_serialize_message
from moz.l10n.formats.mf2.validate import MF2ValidationError, mf2_validate_message
from moz.l10n.model import PatternMessage, SelectMessage
from .common import cut, diff, exc, same, snap
from .gen import G
from .mf2ref import ref_parse

CONTRACTS = ["mf2_parser"]
BUDGET = 20
LEVEL = "other"
RULE = "all sequences of up to 4 tokens of a placeholder, declaration and matcher alphabet inside each kind of message, then serialized random messages with space and bidi marks varied and up to 3 characters changed; non-trivial: contains a brace, a backslash or a dot"
EXPLANATION = 'Every method of MF2Parser and mf2_parse_message is proved, for every source string, to keep the position inside the source and never move it back, to terminate (loop variants; the loop over a chain of selector declarations excepted), to raise nothing but MF2ParseError, with a position inside the source, and to give results of the declared types. That no source character is discarded and that the result is valid is bounded: serialize-and-compare on token sequences.'

T_PLACE = ["$a", ":f", "|x|", "1", "a", "@t", "=", "o=1", "o=$b", "/", "#m", " ", "\u2067", "||", "|\\", "}", "-0.5e3", "1x5"]
T_TEXT = ["a", " ", "{", "}", "\\", "\\{", ".", "{{", "}}", "{$a}", "\0", "\u200e", "\n", "|", "\\n"]
T_DECL = [".input", ".local", ".match", "{$a :f}", "{$b}", "{1 :f}", "$a", "$b", "=", " ", "{{x}}", "*", "k", "\u200f", "{:f o=$a}"]
SPACES = ["", " ", "\n", "\u3000", "\u200e", " \u2066", "\u200f ", "  "]
JUNK = list("{}|\\$:@=/#*. \n\0a1-") + ["\u200e", "\u2069", "\u3000", "é", "{{", "}}", ".match", ".input", "\U0001f600", "\ud800", "\u061c", "$a", ":f", "1.5", "\\\\", "\\|"]


def small(tier):
    n = 4 if tier == "quick" else 5
    for k in range(0, n + 1):
        for ts in itertools.product(T_PLACE if k < 4 else T_PLACE[:13], repeat=k):
            yield "{" + "".join(ts) + "}"
    for k in range(0, n + 1):
        for ts in itertools.product(T_TEXT, repeat=k):
            yield "".join(ts)
    for k in range(1, n + 1):
        for ts in itertools.product(T_DECL if k < 4 else T_DECL[:12], repeat=k):
            yield "".join(ts)
            if k < 4:
                yield ".input{$a :f}" + "".join(ts)
                yield ".input{$a :f}.match $a" + "".join(ts)
                yield ".input{$a :f}.match $a $a * *{{}}" + "".join(ts)


def mutate(r, s):
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        i = r.randint(0, len(s))
        k = r.randrange(4)
        if k == 0:
            s = s[:i] + r.choice(JUNK) + s[i:]
        elif k == 1:
            s = s[:i] + s[i + 1 :]
        elif k == 2:
            s = s[:i] + r.choice(JUNK) + s[i + 1 :]
        else:
            j = r.randint(0, len(s))
            s = s[:i] + s[min(i, j) : max(i, j)] + s[i:]
    return s


def cases(r, tier, shard, shards):
    g = cut(small(tier), shard, shards)
    while True:
        for x in itertools.islice(g, 40):
            yield ("tokens", x)
        m = G(r, valid=True).message()
        try:
            s = "".join(mf2_serialize_message(m))
        except Exception:
            s = ".input {$a :f} .match $a one {{x}} * {{y {$a @t}}}"
        yield ("text", s)
        for _ in range(6):
            t = s
            if r.random() < 0.6:
                t = "".join(r.choice(SPACES) if c in " \n" and r.random() < 0.3 else c for c in t)
            if r.random() < 0.3:
                t = "".join(r.choice(["\u200e", "\u2068"]) + c if c in ":=@${}" and r.random() < 0.2 else c for c in t)
            yield ("changed", mutate(r, t))


def nontrivial(case):
    return any(c in case[1] for c in "{}.\\")


def from_witness(name, w):
    for v in w.values():
        if isinstance(v, str):
            return ("witness", v)


def check(case):
    src = case[1]
    want = ref_parse(src)
    try:
        got = mf2_parse_message(src)
    except MF2ParseError as e:
        if not isinstance(e.pos, int) or not 0 <= e.pos <= len(src):
            return f"error position {e.pos!r} is outside the source {src!r}"
        return None if want is None else f"refused ({str(e).splitlines()[0]}): {src!r} means {want!r}"
    except Exception as e:
        return f"raised {exc(e)} for {src!r}"
    if want is None:
        return f"accepted as {got!r} though it is not in the grammar: {src!r}"
    if not same(got, want):
        return f"{src!r} parses to another message: {diff(got, want)}"
    try:
        mf2_validate_message(snap(got))
    except MF2ValidationError as e:
        return f"{src!r} parses to a message that is not valid: {e}"
