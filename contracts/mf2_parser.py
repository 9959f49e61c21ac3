"""C05: formats/mf2/message_parser.py: every method keeps the position inside the source, moves it forward only, and raises only
MF2ParseError with a position inside the source"""
from typing import Literal
from pyvc import types as T
from pyvc.contract import Contract, Relation
from pyvc.loops import Loop
from moz.l10n.formats.mf2.message_parser import MF2ParseError, MF2Parser
from moz.l10n.model import CatchallKey, Expression, Markup, Message, Pattern, PatternMessage, SelectMessage, VariableRef

M = "moz.l10n.formats.mf2.message_parser:"
P = M + "MF2Parser."
SELF = T.TCls(MF2Parser, {"source": str, "pos": int})


def inside(self):
    return 0 <= self.pos <= len(self.source)


def here(self, *start):
    """the rest of the source starts with the text"""
    return self.source.startswith(start[0], self.pos)


def forward(res, self, pre_self__pos):
    return pre_self__pos <= self.pos <= len(self.source)


def further(res, self, pre_self__pos):
    return pre_self__pos < self.pos <= len(self.source)


def error(exc, self):
    return 0 <= exc.pos <= len(self.source)


def char_at(self):
    return self.source[self.pos : self.pos + 1]


def unmoved(res, self, pre_self__pos):
    return self.pos == pre_self__pos and res == self.source[self.pos : self.pos + 1]


def method(name, returns, ensures=forward, requires=inside, raises=True, public=True, havoc=True, **ghosts):
    Relation(
        P + name, dict(self=SELF, **ghosts), requires=requires, ensures=ensures, returns=returns,
        havoc={"self.pos": int} if havoc else {}, raises={MF2ParseError: ({"pos": int}, error)} if raises else {},
        prop="C05", name=name, public=public, budget=200,
    )


method("char", str, ensures=unmoved, raises=False, havoc=False)


def at_char(self, ch, pre_self__pos):
    return pre_self__pos <= self.pos <= len(self.source), ch == self.source[self.pos : self.pos + 1]


def left(self):
    return len(self.source) - self.pos


def at_res(res, self, pre_self__pos):
    return pre_self__pos <= self.pos <= len(self.source), res == self.source[self.pos : self.pos + 1]


Loop(P + "skip_bidi", 0, at_char, {"self.pos": int, "ch": str}, decreases=left)
Loop(P + "skip_opt_space", 0, at_char, {"self.pos": int, "ch": str}, decreases=left)
Loop(P + "req_space", 0, at_char, {"self.pos": int, "ch": str}, decreases=left)
method("skip_bidi", str, ensures=at_res, raises=False)
method("skip_opt_space", str, ensures=at_res, raises=False)


def spaced(res, self, pre_self__pos):
    return (self.pos == pre_self__pos, ) if not res else (pre_self__pos < self.pos <= len(self.source),)


method("req_space", bool, ensures=spaced, raises=False)


def one_char(self, exp, char):
    return inside(self), len(exp) == 1, char == "" or char == self.source[self.pos : self.pos + 1]


def at_text(self, text):
    return self.pos <= len(self.source)


method("expect", None, ensures=further, requires=one_char, exp=str, char=str)


def name_start(self, offset):
    return 0 <= offset, 0 <= self.pos, self.pos + offset <= len(self.source)


method("name", str, ensures=further, requires=name_start, offset=int)
method("identifier", str, ensures=further, requires=name_start, offset=int)
method("unquoted_literal", str, ensures=further)


def at_bar(self):
    return inside(self), self.source[self.pos : self.pos + 1] == "|"


def at_dollar(self):
    return inside(self), self.source[self.pos : self.pos + 1] == "$"


def each_char(self, _i, pre_self__pos):
    return (self.pos == pre_self__pos + _i,)


Loop(P + "quoted_literal", 0, each_char, {"self.pos": int, "value": str, "at_esc": bool})
method("quoted_literal", str, ensures=further, requires=at_bar)
method("literal", str, ensures=further)
method("variable", VariableRef, ensures=further, requires=at_dollar)


def opt_loop(self, opt_end, pre_self__pos):
    return pre_self__pos <= opt_end <= self.pos <= len(self.source)


def attr_loop(self, attr_end, pre_self__pos):
    return pre_self__pos <= attr_end <= self.pos <= len(self.source)


Loop(P + "options", 0, opt_loop, {"self.pos": int, "opt_end": int, "options": dict[str, str | VariableRef]}, decreases=left)
Loop(P + "attributes", 0, attr_loop, {"self.pos": int, "attr_end": int, "attributes": dict[str, str | Literal[True]]}, decreases=left)
method("options", dict[str, str | VariableRef])
method("attributes", dict[str, str | Literal[True]])


def at_ch(self, ch):
    return inside(self), ch == self.source[self.pos : self.pos + 1]


def at_slot(self, ch):
    return inside(self), ch == self.source[self.pos : self.pos + 1], ch == "#" or ch == "/"


method("expression_body", Expression, requires=at_ch, ch=str)
method("markup_body", Markup, requires=at_slot, ch=str)
method("expression_or_markup", Expression | Markup, ensures=further)


def at_text(self):
    ch = self.source[self.pos : self.pos + 1]
    return inside(self), ch != "", ch != "{", ch != "}"


Loop(P + "text", 0, each_char, {"self.pos": int, "text": str, "at_esc": bool})
method("text", str, ensures=further, requires=at_text)
Loop(P + "pattern", 0, at_char, {"self.pos": int, "ch": str, "pattern": list[str | Expression | Markup]}, decreases=left)
method("pattern", list[str | Expression | Markup])
method("quoted_pattern", list[str | Expression | Markup], ensures=further)


def at_keyword(word):
    def at_word(self):
        return inside(self), self.source.startswith(word, self.pos)

    return at_word


def at_input(self):
    return inside(self), self.source[self.pos : self.pos + 6] == ".input"


def at_local(self):
    return inside(self), self.source[self.pos : self.pos + 6] == ".local"


def at_match(self):
    return inside(self), self.source[self.pos : self.pos + 6] == ".match"


method("input_declaration", tuple[str, Expression], ensures=further, requires=at_input)
method("local_declaration", tuple[str, Expression], ensures=further, requires=at_local)


def names_so_far(self, pre_self__pos):
    return pre_self__pos <= self.pos <= len(self.source)


Loop(P + "match_statement", 0, names_so_far, {"self.pos": int, "names": list[str]}, decreases=left)
method("match_statement", tuple[VariableRef, ...], ensures=further, requires=at_match)


def variant_start(self, num_sel):
    return inside(self)


Loop(P + "variant", 0, at_char, {"self.pos": int, "ch": str, "keys": list[str | CatchallKey]}, decreases=left)
method("variant", tuple[tuple[str | CatchallKey, ...], list[str | Expression | Markup]], ensures=further, requires=variant_start, num_sel=int)


def at_dot(self):
    return inside(self), self.source[self.pos : self.pos + 1] == "."


def moved(self, pre_self__pos):
    return pre_self__pos <= self.pos <= len(self.source)


def declared_names(self, declarations, declared, pre_self__pos):
    return pre_self__pos <= self.pos <= len(self.source), all(name in declared for name in declarations)


DECLS = dict[str, Expression]
VARIANTS = dict[tuple[str | CatchallKey, ...], list[str | Expression | Markup]]


def anything(self):
    return True


Loop(P + "complex_message", 0, declared_names, {"self.pos": int, "declarations": DECLS, "declared": set[str]}, decreases=left)
Loop(P + "complex_message", 3, anything, {"sel_name": str, "sel_expr": Expression | None})
Loop(P + "complex_message", 4, moved, {"self.pos": int, "variants": VARIANTS}, decreases=left)
method("complex_message", PatternMessage | SelectMessage, ensures=further, requires=at_dot)


def at_start(self):
    return self.pos == 0


def at_end(res, self):
    return self.pos == len(self.source)


method("parse", PatternMessage | SelectMessage, ensures=at_end, requires=at_start)


def error_in(exc, source):
    return 0 <= exc.pos <= len(source)


Relation(
    M + "mf2_parse_message", dict(source=str), returns=PatternMessage | SelectMessage, raises={MF2ParseError: ({"pos": int}, error_in)},
    prop="C05", name="mf2_parse_message", public=True, budget=60,
)
