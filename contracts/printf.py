"""C09: util/printf.py: the text of the parts is the text that was parsed"""
from pyvc.contract import Contract, pred
from pyvc.loops import Loop
from moz.l10n.model import Expression, Pattern

P = "moz.l10n.util.printf:parse_printf_pattern"


def part_text(x):
    """the source of a part of a pattern: the text, or the source attribute of a placeholder"""
    if isinstance(x, str):
        return x
    s = x.attributes.get("source")
    return s if isinstance(s, str) else ""


def texts(parts):
    return "".join([part_text(x) for x in parts])


def scanned(src, pos, _i, _it, _yields):
    return (
        0 <= pos <= len(src),
        pos == (_it[_i - 1].end() if _i > 0 else 0),
        texts(_yields) + src[pos:] == src,
    )


Loop(P, 0, scanned, {"pos": int, "_yields": list[str | Expression]})


def lossless(res, src):
    return texts(res) == (src or "")


Contract(P, dict(src=str | None), ensures=lossless, prop="C09", public=True, name="parse_printf_pattern/loses-nothing", budget=200)
