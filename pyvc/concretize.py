"""The verifier's counterexamples: from a model to Python objects, and the contract run on them with the real code."""
from __future__ import annotations
import copy, dataclasses, inspect
import z3
from . import types as T
from .values import py_to_z3_str

LIMIT = 40
S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()


class NoValue(Exception):
    pass


def z3_text(v):
    """z3 string value -> str"""
    out, s, i = [], v.as_string(), 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            n = int(s[i + 3 : j], 16)
            if n > 0x10FFFF:
                raise NoValue("character")
            out.append(chr(n))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


class Reader:
    def __init__(self, m):
        self.m = m
        self.count = 0

    def val(self, name, args, sort):
        f = z3.Function(name, *[a.sort() for a in args], sort)(*args) if args else z3.Const(name, sort)
        return self.m.eval(f, model_completion=True)

    def str(self, name, args):
        v = self.val(name, args, S)
        if not z3.is_string_value(v):
            raise NoValue(name)
        return z3_text(v)

    def int(self, name, args):
        v = self.val(name, args, I)
        if not z3.is_int_value(v):
            raise NoValue(name)
        return v.as_long()

    def read(self, t, path, args=()):
        self.count += 1
        if self.count > 5000:
            raise NoValue("size")
        if isinstance(t, T.TStr):
            return self.str(path, args)
        if isinstance(t, T.TBytes):
            return self.str(path, args).encode("utf-8", "surrogateescape")
        if isinstance(t, T.TInt):
            return self.int(path, args)
        if isinstance(t, T.TBool):
            return z3.is_true(self.val(path, args, B))
        if isinstance(t, T.TFloat):
            return 0.5
        if isinstance(t, T.TLit):
            return t.value
        if isinstance(t, T.TJson):
            t = T.TUnion([T.TLit(None), T.TBool(), T.TInt(), T.TFloat(), T.TStr(), T.TList(t), T.TDict(T.TStr(), t)])
        if isinstance(t, T.TUnion):
            n = self.int(path + ".tag", args)
            if not 0 <= n < len(t.opts):
                n = 0
            o = t.opts[n]
            return o.value if isinstance(o, T.TLit) else self.read(o, f"{path}|{n}", args)
        if isinstance(t, T.TCls):
            o = object.__new__(t.cls)
            for name in T.field_types(t.cls):
                object.__setattr__(o, name, self.read(T.field_type(t, name), f"{path}.{name}", args))
            return o
        if isinstance(t, T.TTuple):
            return tuple(self.read(e, f"{path}.{i}", args) for i, e in enumerate(t.es))
        if isinstance(t, (T.TList, T.TTupleV)):
            xs = [self.read(t.e, path + "[]", args + (z3.IntVal(i),)) for i in range(self.length(path, args))]
            return xs if isinstance(t, T.TList) else tuple(xs)
        if isinstance(t, T.TSet):
            return {self.read(t.e, path + "[]", args + (z3.IntVal(i),)) for i in range(self.length(path, args))}
        if isinstance(t, T.TDict):
            return self.dict(t, path, args)
        raise NoValue(f"{t}")

    def length(self, path, args):
        n = self.int(path + ".len", args)
        if n > LIMIT:
            raise NoValue("length")
        return max(n, 0)

    def dict(self, t, path, args):
        n = self.length(path, args)
        if not isinstance(t.k, T.TStr):
            return {self.read(t.k, path + ".key", args + (z3.IntVal(i),)): self.read(t.v, path + ".val", args + (z3.IntVal(i),)) for i in range(n)}
        keys = []
        if any(d.name() == path + ".key" for d in self.m.decls()):  # bounded
            keys = [self.str(path + ".key", args + (z3.IntVal(i),)) for i in range(n)]
        else:
            # the keys that the model says are there
            for c in self.strings():
                if z3.is_true(self.val(path + ".has", args + (c,), B)):
                    keys.append(z3_text(c))
        return {k: self.read(t.v, path + "{}", args + (py_to_z3_str(k),)) for k in keys}

    def strings(self):
        if not hasattr(self, "_strings"):
            out = {}

            def walk(e):
                if z3.is_string_value(e):
                    out[e.as_string()] = e
                for c in e.children():
                    walk(c)

            for d in self.m.decls():
                x = self.m[d]
                if isinstance(x, z3.FuncInterp):
                    for k in range(x.num_entries()):
                        e = x.entry(k)
                        for a in range(e.num_args()):
                            walk(e.arg_value(a))
                        walk(e.value())
                elif isinstance(x, z3.ExprRef):
                    walk(x)
            self._strings = list(out.values())[:200]
        return self._strings


def concretize(rep):
    """-> ("ok", {ghost: value}) of a failed report with a model"""
    m, ghosts, vm = rep.witness
    r = Reader(m)
    return ("ok", {n: r.read(t if isinstance(t, T.T) else T.of(t), n) for n, t in ghosts.items()})


def same(a, b):
    """bounded.common.same, and objects of the specifications' own classes by their attributes"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a.items(), b.items()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if dataclasses.is_dataclass(a):
        return all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a) if f.name != "linepos")
    if type(a).__module__.startswith("contracts."):
        return same(vars(a), vars(b))
    return a == b


def replay(c, w):
    """run the contract on the real code with these values: None if it holds, or is not decided; else what fails"""
    from .contract import Relation

    if isinstance(c, Relation) or c.stubs:
        return None
    ins, olds = copy.deepcopy(w), copy.deepcopy(w)
    try:
        if c.requires is not None and not c.requires(*copy.deepcopy(olds).values()):
            return None
    except Exception:
        return None
    if c.is_lemma:
        try:
            res = c.result(*ins.values())
        except Exception as e:
            return f"{c.name}: raised {type(e).__name__}: {e}"
        ok = same(res[0], res[1]) if isinstance(res, tuple) and len(res) == 2 else bool(res)
        return None if ok else f"{c.name}: {res!r}"[:3000]
    f = c.find()
    f = f.fget if isinstance(f, property) else f
    if f is None:
        return None
    exc = eexc = expected = res = None
    try:
        args = list(ins.values()) if c.args is None else list(c.args(*ins.values()))
        kw = {} if c.kwargs is None else c.kwargs(*ins.values()) if callable(c.kwargs) else dict(c.kwargs)
        if c.result is not None:
            try:
                expected = c.result(*copy.deepcopy(olds).values())
            except Exception as e:
                eexc = e
    except Exception:
        return None
    try:
        res = f(*args, **kw)
        if c.text and not isinstance(res, str):
            res = "".join(res)
        elif inspect.isgenerator(res):
            res = list(res)
    except Exception as e:
        exc = e
    if exc is not None:
        if eexc is not None and isinstance(exc, type(eexc)) or any(isinstance(exc, k) for k in c.may_raise):
            return None
        return f"{c.target} raised {type(exc).__name__}: {exc}"
    if eexc is not None:
        return f"{c.target} gave {res!r} instead of raising {type(eexc).__name__}"[:3000]
    if c.result is not None and not same(res, expected):
        return f"{c.target} gave {res!r} instead of {expected!r}"[:3000]
    if c.ensures is not None:
        try:
            if not c.ensures(res, *copy.deepcopy(olds).values()):
                return f"{c.target} gave {res!r}"[:3000]
        except Exception:
            return None
    if c.final is not None:
        fin = c.final(*copy.deepcopy(olds).values())
        fin = fin if isinstance(fin, tuple) else (fin,)
        if not same(tuple(args), fin):
            return f"{c.target} left {args!r} instead of {fin!r}"[:3000]
    return None
