"""C07: util/normalize.py and the normalize methods"""
from __future__ import annotations
from dataclasses import dataclass
from moz.l10n.util.normalize import _normalize_declarations
from pyvc.loops import Fold, folded
from pyvc.contract import Contract, lemma, pred
from moz.l10n.model import Expression, Markup, Pattern, PatternMessage, SelectMessage, VariableRef

M = "moz.l10n.util.normalize:"


def refs(x):
    """names of the variables that a placeholder refers to, in order"""
    out = []
    if isinstance(x, Expression) and isinstance(x.arg, VariableRef):
        out.append(x.arg.name)
    for v in x.options.values():
        if isinstance(v, VariableRef):
            out.append(v.name)
    return out


def add_part(out, x):
    if isinstance(x, str) and x == "":
        return out
    if isinstance(x, str) and out and isinstance(out[-1], str):
        return out[:-1] + [out[-1] + x]
    return out + [x]


def add_refs(used, x):
    return set(used) if isinstance(x, str) else set(used) | set(refs(x))


Part = str | Expression | Markup
joined = folded("joined", add_part, Part)
all_refs = folded("all_refs", add_refs, str, set)


def start(pattern, var_refs):
    return [], set(var_refs)


def place(out, used, left):
    return {"pattern": out + left, "var_refs": used, "i": len(out), "at_str": bool(out) and isinstance(out[-1], str)}


def result(out, used):
    return {"pattern": out, "var_refs": used}


Fold(M + "_normalize_pattern", 0, "pattern", {"pattern": joined, "var_refs": all_refs}, start, place, result)


def final(pattern, used):
    return joined([], pattern), all_refs(set(used), pattern)


Contract(M + "_normalize_pattern", dict(pattern=Pattern, used=set[str]), modifies=True, final=final, prop="C07", public=True, budget=100, bound=1)


class Ref:
    """a placeholder that refers to one variable"""

    name: str

    def variable_refs(self):
        yield VariableRef(self.name)


@dataclass
class Msg:
    """a message of which only the declarations matter"""

    declarations: dict[str, Ref]


def kept(declarations, used):
    now = list(used)
    for _ in declarations:
        for n, x in declarations.items():
            if n in now:
                now.append(x.name)
    return {n: x for n, x in declarations.items() if n in now}


def run(declarations, used):
    m = Msg(declarations)
    _normalize_declarations(m, set(used))
    return m.declarations, kept(declarations, used)


lemma("normalize/declarations", dict(declarations=dict[str, Ref], used=list[str]), run, prop="C07", budget=100, small="recursion over an arbitrary graph of declarations")


def same_refs(x):
    return [v.name for v in x.variable_refs()], refs(x)


lemma("Expression.variable_refs", dict(x=Expression), same_refs, prop="C07")
lemma("Markup.variable_refs", dict(x=Markup), same_refs, prop="C07")
