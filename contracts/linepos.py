"""C28: lines of positions in a source: formats/fluent/parse.py LinePosMapper, formats/properties/parse.py PropertiesParser"""
from re import fullmatch

from pyvc import types as T
from pyvc.contract import Contract, Relation, lemma
from pyvc.loops import Loop
from moz.l10n.formats.fluent.parse import LinePosMapper
from moz.l10n.formats.properties.parse import LineKind, PropertiesParser
from moz.l10n.model import LinePos

F = "moz.l10n.formats.fluent.parse:LinePosMapper."
MAPPER = T.TCls(LinePosMapper, {"_newlines": list[int]})


def lines_before(res, self, char_idx):
    """one more than the number of ends of lines up to the position"""
    n = self._newlines
    return 1 <= res <= len(n) + 1 and (res > len(n) or n[res - 1] > char_idx) and all(i >= res - 1 or x <= char_idx for i, x in enumerate(n))


Relation(F + "get_line", dict(self=MAPPER, char_idx=int), ensures=lines_before, returns=int, prop="C28", name="get_line")


def lines_of(res, self, start, key, value, end):
    return res == LinePos(self.get_line(start), self.get_line(key), self.get_line(value), self.get_line(end))


Contract(F + "get_linepos", dict(self=MAPPER, start=int, key=int, value=int, end=int), ensures=lines_of, prop="C28", name="get_linepos")

P = "moz.l10n.formats.properties.parse:PropertiesParser."
SELF = T.TCls(PropertiesParser, {"source": str, "pos": int, "line_pos": int, "at_value": bool, "done": bool})


def inside(self):
    return 0 <= self.pos <= len(self.source)


def at_break(res, self, pre_self__pos, pre_self__line_pos):
    rest = self.source[pre_self__pos:]
    n = 2 if rest.startswith("\r\n") else 1 if rest.startswith(("\r", "\n")) else 0
    return res == (n > 0), self.pos == pre_self__pos + n, self.line_pos == pre_self__line_pos + (1 if n else 0)


Relation(P + "nl", dict(self=SELF), requires=inside, ensures=at_break, returns=bool, havoc={"self.pos": int, "self.line_pos": int}, prop="C28", name="nl")


def spaces(self, _i, pre_self__pos):
    return self.pos == pre_self__pos + _i, fullmatch(r"[ \t\f]*", self.source[pre_self__pos : self.pos]) is not None


def past_spaces(res, self, pre_self__pos):
    return (
        pre_self__pos <= self.pos <= len(self.source),
        fullmatch(r"[ \t\f]*", self.source[pre_self__pos : self.pos]) is not None,
        self.source[self.pos : self.pos + 1] not in (" ", "\t", "\f"),
    )


Loop(P + "ws", 0, spaces, {"self.pos": int})
Relation(P + "ws", dict(self=SELF), requires=inside, ensures=past_spaces, returns=None, havoc={"self.pos": int}, prop="C28", name="ws")


def scanned(idx, _i, self, start):
    return idx == _i - 1, self.pos == start


def scanned_value(idx, _i, self, start, line_start, at_escape, pre_self__line_pos):
    return idx == _i - 1, self.pos == start, start <= line_start, line_start <= start + _i, self.line_pos >= pre_self__line_pos, not at_escape or _i > 0


Loop(P + "__next__", 0, scanned_value, {"idx": int, "ch": str, "at_escape": bool, "at_cr": bool, "lines": list[str], "line_start": int, "end": int, "self.line_pos": int})
Loop(P + "__next__", 1, scanned, {"idx": int, "ch": str})
Loop(P + "__next__", 2, scanned, {"idx": int, "ch": str, "at_escape": bool})


def going_on(self):
    return 0 <= self.pos <= len(self.source), not self.done


def forward(res, self, pre_self__pos, pre_self__line_pos):
    return (
        res[1] == pre_self__line_pos,
        self.done or pre_self__pos < self.pos or self.at_value,
        self.pos <= len(self.source),
        pre_self__pos <= self.pos,
        pre_self__line_pos <= self.line_pos,
        not self.done or self.pos == len(self.source),
        res[0] != LineKind.KEY or self.line_pos == pre_self__line_pos and self.at_value,
        res[0] == LineKind.KEY or not self.at_value or self.done,
        res[0] != LineKind.VALUE or self.line_pos > pre_self__line_pos,
        res[0] != LineKind.EMPTY or self.line_pos == pre_self__line_pos + (0 if self.done else 1),
        res[0] != LineKind.COMMENT or self.line_pos == pre_self__line_pos + 1 or self.pos == len(self.source),
    )


Relation(
    P + "__next__", dict(self=SELF), requires=going_on, ensures=forward, returns=tuple[LineKind, int, str],
    havoc={"self.pos": int, "self.line_pos": int, "self.at_value": bool, "self.done": bool}, prop="C28", name="next",
)
