"""Engine values: concrete Python constants, symbolic leaves, ropes, heap objects, sequences with symbolic chunks."""
from __future__ import annotations
import itertools
import z3


class Unsupported(Exception):
    """The code left the subset the verifier understands (never a violation)."""


class NeedInvariant(Unsupported):
    pass


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, value):
        super().__init__(str(value))
        self.value = value  # an Obj whose cls is an exception class


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


_stamp = itertools.count(1)


def new_stamp():
    return next(_stamp)


class Sym:
    __slots__ = ()


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class JoinPiece:
    """''.join of a symbolic sequence: concatenation over `chunk` of ropes, with `sep` between consecutive ones."""

    __slots__ = ("sep", "chunk", "_t")

    def __init__(self, sep, chunk):
        self.sep, self.chunk = sep, chunk
        self._t = None

    def __repr__(self):
        return f"Join({self.sep!r},{self.chunk!r})"


class SStr(Sym):
    """Rope: tuple of native str | z3 String term | JoinPiece"""

    __slots__ = ("pieces", "_t")

    def __init__(self, pieces):
        self.pieces = pieces
        self._t = None

    def __repr__(self):
        return f"SStr{self.pieces!r}"


def mkstr(pieces):
    out = []
    for p in pieces:
        if isinstance(p, SStr):
            sub = p.pieces
        else:
            sub = (p,)
        for q in sub:
            if z3.is_expr(q) and z3.is_string_value(q):
                q = z3_to_py_str(q)
            if isinstance(q, str):
                if q == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


def z3_to_py_str(q):
    s = q.as_string()
    # z3 escapes non printable characters as \u{..}
    import re

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def py_to_z3_str(s):
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch != "\\":
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return z3.StringVal("".join(out))


class SAny(Sym):
    """Value of a union type, identified by its access path; resolved to one option by forking on its tag."""

    __slots__ = ("path", "args", "opts")

    def __init__(self, path, args, opts):
        self.path, self.args, self.opts = path, args, opts

    def __repr__(self):
        return f"SAny({self.path}{list(self.args)})"


class SApp(Sym):
    """An application of a specification function, not expanded until its structure is looked at."""

    __slots__ = ("fn", "args", "exp", "ns")

    def __init__(self, fn, args, ns):
        self.fn, self.args, self.ns = fn, args, ns
        self.exp = None

    def __repr__(self):
        return f"{self.fn.__name__}({', '.join(map(repr, self.args))[:200]})"


class Opaque(Sym):
    """A value nothing is known about."""

    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Opaque({self.why})"


class Heap:
    __slots__ = ("stamp", "origin", "ghost")


class Obj(Heap):
    """Instance of a class of the real code. Lazily materialised when origin is set."""

    __slots__ = ("cls", "fields", "tcls", "dirty")

    def __init__(self, cls, fields=None, origin=None, tcls=None, stamp=None):
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.origin = origin
        self.tcls = tcls
        self.stamp = 0 if origin is not None else (stamp or new_stamp())
        self.ghost = None
        self.dirty = False

    def __repr__(self):
        o = f"@{self.origin[0]}" if self.origin else ""
        return f"<{self.cls.__name__}{o} {self.fields!r}>"


class LSeq(Heap):
    """list / variadic tuple / iterator: a list of chunks.
    chunk = ('item', v) | SymChunk"""

    __slots__ = ("kind", "chunks", "dirty")

    def __init__(self, kind, chunks=None, origin=None):
        self.kind = kind
        self.chunks = chunks if chunks is not None else []
        self.origin = origin
        self.stamp = 0 if origin is not None else new_stamp()
        self.ghost = None
        self.dirty = False

    def __repr__(self):
        return f"{self.kind}{self.chunks!r}"

    def concrete(self):
        return all(isinstance(c, tuple) for c in self.chunks)

    def items(self):
        return [c[1] for c in self.chunks]


class LDict(Heap):
    """dict as a log of insertions: ('item', k, v) | SymChunk whose items are (k, v) tuples"""

    __slots__ = ("chunks", "dirty", "removed", "factory")

    def __init__(self, chunks=None, origin=None):
        self.factory = None
        self.chunks = chunks if chunks is not None else []
        self.origin = origin
        self.stamp = 0 if origin is not None else new_stamp()
        self.ghost = None
        self.dirty = False

    def __repr__(self):
        return f"dict{self.chunks!r}"

    def concrete(self):
        return all(isinstance(c, tuple) for c in self.chunks)


class DDRef(Sym):
    """d[k] of a defaultdict(list) which is being filled in a loop"""

    __slots__ = ("d", "k")

    def __init__(self, d, k):
        self.d, self.k = d, k


class DDVal(Sym):
    """in the log of a loop: the value is appended to the list at the key"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class LSet(Heap):
    """set: ('item', v) | SymChunk"""

    __slots__ = ("chunks", "dirty")

    def __init__(self, chunks=None, origin=None):
        self.chunks = chunks if chunks is not None else []
        self.origin = origin
        self.stamp = 0 if origin is not None else new_stamp()
        self.ghost = None
        self.dirty = False

    def __repr__(self):
        return f"set{self.chunks!r}"

    def concrete(self):
        return all(isinstance(c, tuple) for c in self.chunks)

    def items(self):
        return [c[1] for c in self.chunks]


class Base:
    """A symbolic finite sequence: kind 'list' (index var) or 'dict' (key var, string keys) or 'idict' (index var, arbitrary keys)."""

    __slots__ = ("kind", "path", "args", "k", "v", "ns")

    def __init__(self, kind, path, args, k, v, ns):
        self.kind, self.path, self.args, self.k, self.v = kind, path, args, k, v
        self.ns = ns

    def key(self):
        return (self.kind, self.path, tuple(a.get_id() for a in self.args))

    def __repr__(self):
        return f"Base({self.path}{list(self.args)})"


class SymChunk:
    """alts = [(pc, [values])] over the generic element `var` of `base`; alts=None: the base's own elements."""

    __slots__ = ("base", "var", "alts", "upto")

    def __init__(self, base, var=None, alts=None, upto=None):
        self.base, self.var, self.alts, self.upto = base, var, alts, upto

    def __repr__(self):
        return f"Sym({self.base!r},{self.var},{self.alts!r})"


class Closure(Heap):
    __slots__ = ("node", "env", "module", "name", "defaults", "kwdefaults", "isgen", "qualname")

    def __init__(self, node, env, module, name, defaults, kwdefaults, isgen, qualname=None):
        self.node, self.env, self.module, self.name = node, env, module, name
        self.defaults, self.kwdefaults, self.isgen = defaults, kwdefaults, isgen
        self.qualname = qualname or name
        self.stamp = new_stamp()
        self.origin = None
        self.ghost = None

    def __repr__(self):
        return f"<fn {self.name}>"


class BoundM:
    __slots__ = ("self_", "func", "name")

    def __init__(self, self_, func, name=None):
        self.self_, self.func, self.name = self_, func, name


class Env:
    __slots__ = ("vars", "parent", "globals", "stamp", "yields", "nonlocals")

    def __init__(self, parent, globals_):
        self.vars = {}
        self.parent = parent
        self.globals = globals_
        self.stamp = new_stamp()
        self.yields = None
        self.nonlocals = set()


class Poison:
    def __init__(self, name):
        self.name = name


MISSING = object()


class Nested:
    """a symbolic chunk appended inside a loop (list of lists flattened)"""

    __slots__ = ("chunk",)

    def __init__(self, chunk):
        self.chunk = chunk

    def __repr__(self):
        return f"Nested({self.chunk!r})"
