"""Statements, expressions and calls of the Python subset."""
from __future__ import annotations
import ast, builtins, dataclasses, enum, sys, types as pytypes
import z3
from .values import *

INTERPRETED = ("moz.l10n", "contracts", "specs", "fluent.syntax.ast")


def interpreted(modname):
    return modname is not None and any(modname == m or modname.startswith(m + ".") for m in INTERPRETED)


from .loops import Fold, Loops, folded
from .world import abstract, as_text, bytes_method, call_abstract, is_log, stub_call, SBytes


class Interp(Loops):
    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, SAny):
            f = self.resolve(f)
        if self.stubs:
            got = stub_call(self, f, args, kwargs)
            if got is not NotImplemented:
                return got
        if isinstance(f, abstract):
            return call_abstract(self, f, args)
        if isinstance(f, folded):
            return self.call_folded(f, args)
        if isinstance(f, BoundM):
            if f.func is not None:
                return self.call(f.func, [f.self_] + list(args), kwargs)
            return self.method(f.self_, f.name, list(args), kwargs)
        if isinstance(f, Closure):
            return self.run_closure(f, list(args), kwargs)
        if isinstance(f, pytypes.FunctionType):
            return self.call_function(f, list(args), kwargs)
        if isinstance(f, pytypes.MethodType):
            if is_log(f):
                return None
            return self.call(f.__func__, [self.from_native(f.__self__)] + list(args), kwargs)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, list(args), kwargs)
        if isinstance(f, type):
            return self.construct(f, list(args), kwargs)
        if isinstance(f, Obj):
            c = self.class_attr_m(f.cls, "__call__")
            if c is not None:
                return self.call(BoundM(f, c), args, kwargs)
            self.raise_(TypeError, "not callable")
        if isinstance(f, (Sym, Heap)):
            self.raise_(TypeError, "not callable")
        return self.native_call(f, args, kwargs)

    def class_attr_m(self, cls, name):
        from .values import MISSING

        a = self.class_attr(cls, name)
        return None if a is MISSING else a

    def native_call(self, f, args, kwargs):
        nm = getattr(f, "__qualname__", None) or repr(f)
        slf = getattr(f, "__self__", None)
        import re

        if is_log(f):
            return None

        if isinstance(slf, re.Pattern):
            from .strings import pattern_method

            return pattern_method(self, slf, f.__name__, args, kwargs)
        try:
            na = [self.to_native(a) for a in args]
            nk = {k: self.to_native(v) for k, v in kwargs.items()}
        except Unsupported as e:
            raise Unsupported(f"call of {nm} with symbolic arguments ({e})")
        try:
            return self.from_native(f(*na, **nk))
        except (RecursionError, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            self.raise_(type(e), *e.args)

    def call_function(self, f, args, kwargs):
        if self.stubs:
            got = stub_call(self, f, args, kwargs)
            if got is not NotImplemented:
                return got
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, args, kwargs)
        if f in self.opaque:
            return self.opaque_call(f, args)
        if getattr(f, "__pred__", False):
            return self.pred_call(f, args, kwargs)
        if getattr(f, "__ghost__", False) and not kwargs:
            return SApp(f, tuple(args), self.ns)
        c = self.contracts.get(f)
        if c is not None and f not in self.excluded:
            got = c.apply(self, args, kwargs)
            if got is not NotImplemented:
                self.used_contracts.add(c.name)
                return got
        if not interpreted(f.__module__):
            return self.native_call(f, args, kwargs)
        if f.__module__.startswith("moz.l10n"):
            self.inlined.add(f"{f.__module__}:{f.__qualname__}")
        return self.run_function(f, args, kwargs)

    def opaque_call(self, f, args):
        """a predicate (or text function) on an unmodified input, used as an uninterpreted symbol"""
        import re
        from .engine import B

        name, zargs = f"pred:{f.__name__}", ()
        for a in args:
            if isinstance(a, SAny):
                path, az = a.path, a.args
            elif isinstance(a, Heap) and a.origin is not None and not a.dirty and not self.touched(a.origin[0], a.origin[2]):
                path, az = a.origin[:2]
            elif getattr(f, "__text__", False):
                return self.run_function(f, args, {})
            else:
                raise Unsupported(f"opaque predicate {f.__name__} of {a!r}"[:200])
            name += ":" + re.sub(r"(\|\d+)+$", "", path)
            zargs += tuple(az)
        if getattr(f, "__text__", False):
            return SStr((self.uf("text" + name[4:], zargs, z3.StringSort()),))
        return SBool(self.uf(name, zargs, B))

    def kw(self, f, ins):
        if f is None:
            return {}
        d = self.call_function(f, ins, {})
        return {k: v for _, k, v in d.chunks}

    def call_function_body(self, f, args, kwargs=None):
        """the real body of the function under verification"""
        if isinstance(f, property):
            f = f.fget
        return self.run_function(f, args, kwargs or {})

    def run_function(self, f, args, kwargs):
        if getattr(f, "__wrapped__", None) is not None:
            import contextlib, functools

            if type(f).__name__ == "_lru_cache_wrapper":
                f = f.__wrapped__
        from .engine import func_ast, is_gen

        node = func_ast(f)
        clo = Closure(
            node, None, sys.modules[f.__module__], f.__name__,
            [self.from_native(d) for d in (f.__defaults__ or ())],
            {k: self.from_native(v) for k, v in (f.__kwdefaults__ or {}).items()},
            is_gen(node) if not isinstance(node, ast.Lambda) else False, f.__qualname__,
        )
        if f.__closure__:
            env = Env(None, f.__globals__)
            for n, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    env.vars[n] = self.from_native(cell.cell_contents)
                except ValueError:
                    pass
            clo.env = env
        return self.run_closure(clo, args, kwargs, f.__globals__)

    def bind(self, clo, args, kwargs):
        a = clo.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_(TypeError, "too many arguments")
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[: len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(names, args):
            out[n] = v
        nd = len(clo.defaults)
        for i, n in enumerate(names):
            if n in out and n in kwargs:
                self.raise_(TypeError, f"multiple values for {n}")
            if n not in out:
                if n in kwargs:
                    out[n] = kwargs.pop(n)
                elif i >= len(names) - nd:
                    out[n] = clo.defaults[i - (len(names) - nd)]
                else:
                    self.raise_(TypeError, f"missing argument {n}")
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                out[x.arg] = kwargs.pop(x.arg)
            elif x.arg in clo.kwdefaults:
                out[x.arg] = clo.kwdefaults[x.arg]
            else:
                self.raise_(TypeError, f"missing argument {x.arg}")
        if a.kwarg is not None:
            out[a.kwarg.arg] = LDict([("item", k, v) for k, v in kwargs.items()])
        elif kwargs:
            self.raise_(TypeError, f"unexpected arguments {list(kwargs)}")
        return out

    def run_closure(self, clo, args, kwargs, globals_=None):
        self.depth += 1
        if self.depth > 80:
            self.depth -= 1
            raise Unsupported("recursion without a contract")
        try:
            env = Env(clo.env, globals_ if globals_ is not None else (clo.env.globals if clo.env else vars(clo.module)))
            env.vars.update(self.bind(clo, args, kwargs))
            if isinstance(clo.node, ast.Lambda):
                return self.ev(clo.node.body, env)
            if clo.isgen:
                env.yields = LSeq("iter")
                try:
                    self.block(clo.node.body, env)
                except ReturnEx:
                    pass
                return env.yields
            try:
                self.block(clo.node.body, env)
            except ReturnEx as e:
                return e.value
            return None
        finally:
            self.depth -= 1

    def pred_call(self, f, args, kwargs):
        """A specification predicate: all its paths are merged into one formula."""
        from .engine import zand, zor, tb

        def run():
            r = self.resolve(self.run_function(f, args, kwargs))
            if not isinstance(r, (bool, SBool)):
                raise Unsupported("predicate result is not boolean")
            return r

        outs = self.explore(run)
        alts = []
        for o in outs:
            if o.kind != "normal":
                raise Unsupported(f"predicate {f.__name__} {o.kind}s {getattr(o.value, 'cls', '')}")
            if o.events:
                raise Unsupported("predicate with effects")
            alts.append(zand([o.pc, tb(o.value)]))
        r = zor(alts)
        r = z3.simplify(r) if not isinstance(r, bool) else r
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SBool(r)

    def construct(self, cls, args, kwargs):
        if issubclass(cls, enum.Enum):
            return self.native_call(cls, args, kwargs)
        if issubclass(cls, BaseException):
            a = self.class_attr_m(cls, "__init__")
            o = Obj(cls, {"args": tuple(args), "_given": True})
            if isinstance(a, pytypes.FunctionType) and interpreted(a.__module__ or ""):
                self.call_function(a, [o] + args, kwargs)
            return o
        if not interpreted(cls.__module__):
            return self.native_call(cls, args, kwargs)
        if dataclasses.is_dataclass(cls) and "__init__" in cls.__dict__ and cls.__dict__["__init__"].__qualname__.startswith("__create_fn__") or dataclasses.is_dataclass(cls):
            fs = [f for f in dataclasses.fields(cls) if f.init]
            o = Obj(cls, {})
            if len(args) > len(fs):
                self.raise_(TypeError, "too many arguments")
            vals = {f.name: v for f, v in zip(fs, args)}
            for k, v in kwargs.items():
                if k in vals or k not in {f.name for f in fs}:
                    self.raise_(TypeError, f"bad argument {k}")
                vals[k] = v
            for f in fs:
                if f.name in vals:
                    o.fields[f.name] = vals[f.name]
                elif f.default is not dataclasses.MISSING:
                    o.fields[f.name] = self.from_native(f.default)
                elif f.default_factory is not dataclasses.MISSING:
                    o.fields[f.name] = self.call(f.default_factory, [], {})
                else:
                    self.raise_(TypeError, f"missing argument {f.name}")
            return o
        if issubclass(cls, tuple):
            return self.native_call(cls, args, kwargs)
        o = Obj(cls, {})
        init = self.class_attr_m(cls, "__init__")
        if init is not None:
            self.call_function(init, [o] + args, kwargs)
        return o

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")
        m(s, env)

    def st_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def st_Pass(self, s, env):
        pass

    def st_Return(self, s, env):
        raise ReturnEx(self.ev(s.value, env) if s.value is not None else None)

    def st_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def fenv(self, env, name):
        """the environment an assignment to name goes to"""
        e = env
        while getattr(e, "nonlocals", None) is COMP:
            e = e.parent
        if isinstance(e.nonlocals, set) and name in e.nonlocals:
            e2 = e.parent
            while e2 is not None and name not in e2.vars:
                e2 = e2.parent
            if e2 is None:
                raise Unsupported(f"global {name} written")
            return e2
        return e

    def assign(self, t, v, env, comp=False):
        if isinstance(t, ast.Name):
            e = env if comp else self.fenv(env, t.id)
            self.set_var(e, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, comp)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.resolve(self.ev(t.value, env))
            self.setitem(o, self.ev_index(t.slice, env), v)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def unpack(self, v, elts):
        v = self.resolve(v)
        n = len(elts)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, LSeq):
            if not v.concrete():
                if star is None and len(v.chunks) == 1 and v.chunks[0].alts is None and v.chunks[0].upto is None:
                    base = v.chunks[0].base
                    if self.branch(self.blen(base) == n):
                        return [self.seq_index(v, i) for i in range(n)]
                    self.raise_(ValueError, "unpack")
                if star is not None and star == n - 1 and all(isinstance(c, tuple) for c in v.chunks[:star]):
                    self.note_read(v.stamp, ("heap", id(v)))
                    return [c[1] for c in v.chunks[:star]] + [LSeq("list", v.chunks[star:])]
                raise Unsupported("unpacking a symbolic sequence")
            self.note_read(v.stamp, ("heap", id(v)))
            items = v.items()
        elif isinstance(v, (str, SStr)):
            raise Unsupported("unpacking a string")
        elif isinstance(v, (Sym, Heap)) or v is None or isinstance(v, (int, bool)):
            self.raise_(TypeError, "cannot unpack")
        else:
            items = [self.from_native(x) for x in v]
        if star is None:
            if len(items) != n:
                self.raise_(ValueError, "unpack")
            return items
        if len(items) < n - 1:
            self.raise_(ValueError, "unpack")
        tail = n - star - 1
        mid = items[star : len(items) - tail]
        return items[:star] + [LSeq("list", [("item", x) for x in mid])] + (items[len(items) - tail :] if tail else [])

    def st_AugAssign(self, s, env):
        t = s.target
        op = BINOPS.get(type(s.op))
        val = self.ev(s.value, env)
        if isinstance(t, ast.Name):
            e = self.fenv(env, t.id)
            if e.vars.get(t.id, MISSING) is MISSING:
                cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            else:
                cur = e.vars[t.id]
            self._aug(cur, op, val, e, t.id, ("var", id(e), t.id), e.stamp, lambda v: self.set_var(e, t.id, v))
        elif isinstance(t, ast.Attribute):
            o = self.resolve(self.ev(t.value, env))
            if not isinstance(o, Obj):
                raise Unsupported("attribute assignment")
            self.getfield(o, t.attr) if t.attr not in o.fields else None
            cur = o.fields.get(t.attr, MISSING)
            if cur is MISSING:
                self.raise_(AttributeError, t.attr)
            self._aug(cur, op, val, o, t.attr, ("attr", id(o), t.attr), o.stamp, lambda v: self.setattr(o, t.attr, v))
        else:
            o = self.resolve(self.ev(t.value, env))
            ix = self.ev_index(t.slice, env)
            cur = self.getitem(o, ix)
            cur = self.resolve(cur)
            if op == "+" and isinstance(cur, LSeq) and cur.kind == "list":
                self.extend(cur, val)
                return
            self.setitem(o, ix, self.arith(op, cur, val))

    def _aug(self, cur, op, val, owner, name, key, stamp, setter):
        cur = self.resolve(cur)
        val = self.resolve(val)
        if op == "+" and isinstance(cur, LSeq) and cur.kind == "list":
            self.extend(cur, val)
            return
        if op == "+" and isinstance(cur, LSeq) and cur.kind == "bytearray":
            bytes_method(self, cur, "extend", [val], {})
            return
        if op == "|" and isinstance(cur, LSet):
            self.iterate(val, lambda x: self.set_add(cur, x))
            return
        if op == "|" and isinstance(cur, LDict):
            self.method(cur, "update", [val], {})
            return
        if isinstance(cur, Poison):
            raise NeedInvariant(name)
        new = self.arith(op, cur, val)
        in_loop = any(stamp < lc.stamp for lc in self.loops)
        if op == "+" and in_loop and (self.isint(cur) or self.isstr(cur)):
            store = owner.vars if isinstance(owner, Env) else owner.fields
            old = store[name]
            store[name] = new
            if not isinstance(owner, Env):
                self.mark_dirty(owner)

            def undo():
                store[name] = old

            self.trail.append(("add", stamp, (owner, name), val, undo))
            for lc in self.loops:
                if stamp < lc.stamp:
                    lc.writes.add(key)
            return
        self.note_read(stamp, key)
        setter(new)

    def st_If(self, s, env):
        if self.istrue(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def st_For(self, s, env):
        it = self.ev(s.iter, env)
        lp = self.loop_of(s) if self.bounded is None else None
        if lp is not None and self.inv_loop(s, env, lp, it):
            return

        def body(v):
            self.assign(s.target, v, env)
            self.block(s.body, env)

        try:
            self.iterate(it, body)
        except BreakEx:
            return
        self.block(s.orelse, env)

    def st_While(self, s, env):
        lp = self.loop_of(s) if self.bounded is None else None
        if isinstance(lp, Fold):
            self.fold_loop(s, env, lp)
            return
        if lp is not None:
            self.inv_loop(s, env, lp)
            return
        n = 0
        while True:
            t = self.truth(self.ev(s.test, env))
            if not self.branch(t):
                break
            n += 1
            if n > 64 or (n > (self.bounded or 0) * 3 + 40):
                raise Unsupported("while loop without an invariant")
            if not isinstance(t, bool):
                self.sym_iters = getattr(self, "sym_iters", 0) + 1
                if self.bounded is None and n > 12:
                    raise Unsupported("while loop without an invariant")
            try:
                self.block(s.body, env)
            except ContinueEx:
                continue
            except BreakEx:
                return
        self.block(s.orelse, env)

    def st_Break(self, s, env):
        raise BreakEx()

    def st_Continue(self, s, env):
        raise ContinueEx()

    def st_FunctionDef(self, s, env):
        from .engine import is_gen

        if s.decorator_list:
            raise Unsupported("decorated local function")
        e = env
        clo = Closure(
            s, env, None, s.name, [self.ev(d, env) for d in s.args.defaults],
            {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}, is_gen(s),
        )
        self.set_var(self.fenv(env, s.name), s.name, clo)

    def st_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def st_Import(self, s, env):
        for a in s.names:
            mod = __import__(a.name)
            self.set_var(env, (a.asname or a.name).split(".")[0], sys.modules[a.name] if a.asname else mod)

    def st_ImportFrom(self, s, env):
        import importlib

        g = env.globals
        mod = importlib.import_module("." * s.level + (s.module or ""), g.get("__package__"))
        for a in s.names:
            self.set_var(env, a.asname or a.name, getattr(mod, a.name))

    def st_Assert(self, s, env):
        if not self.istrue(self.ev(s.test, env)):
            self.raise_(AssertionError)

    def st_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, "handling", [])
            if cur:
                raise PyRaise(cur[-1])
            raise Unsupported("bare raise")
        v = self.ev(s.exc, env)
        if isinstance(v, type):
            v = self.construct(v, [], {})
        if s.cause is not None:
            self.ev(s.cause, env)
        raise PyRaise(v)

    def st_Try(self, s, env):
        def main():
            try:
                self.block(s.body, env)
            except PyRaise as e:
                v = e.value
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ht = self.ev(h.type, env)
                        hts = ht if isinstance(ht, tuple) else (ht,)
                        ok = any(issubclass(v.cls, c) for c in hts)
                    if ok:
                        if h.name:
                            self.set_var(self.fenv(env, h.name), h.name, v)
                        if not hasattr(self, "handling"):
                            self.handling = []
                        self.handling.append(v)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.handling.pop()
                        return
                raise
            self.block(s.orelse, env)

        if not s.finalbody:
            return main()
        try:
            main()
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody, env)
            raise
        self.block(s.finalbody, env)

    def st_With(self, s, env):
        exits = []
        for it in s.items:
            cm = self.ev(it.context_expr, env)
            v = self.call(self.getattr(cm, "__enter__"), [], {})
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.block(s.body, env)
        except (PyRaise,) as e:
            for cm in reversed(exits):
                r = self.call(self.getattr(cm, "__exit__"), [e.value.cls, e.value, None], {})
                if r is True:
                    return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            for cm in reversed(exits):
                self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
            raise
        for cm in reversed(exits):
            self.call(self.getattr(cm, "__exit__"), [None, None, None], {})

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.resolve(self.ev(t.value, env)), self.ev_index(t.slice, env))
            else:
                raise Unsupported("del of a name or attribute")

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} line {e.lineno}")
        return m(e, env)

    def ev_Constant(self, e, env):
        return e.value

    def ev_Name(self, e, env):
        x = env
        n = e.id
        while x is not None:
            if n in x.vars:
                v = x.vars[n]
                self.note_read(x.stamp, ("var", id(x), n))
                if isinstance(v, Poison):
                    raise NeedInvariant(f"{n} after a loop")
                return v
            x = x.parent
        g = env.globals
        if n in g:
            return self.from_global(g[n])
        if hasattr(builtins, n):
            return getattr(builtins, n)
        self.raise_(NameError, n)

    def from_global(self, v):
        """module-level values; mutable ones are shared and frozen"""
        if isinstance(v, (dict, list, set)) and not isinstance(v, type):
            key = ("global", id(v))
            if key not in self.mat:
                x = self.from_native(v)
                x.stamp = 0
                self.mat[key] = x
            return self.mat[key]
        return v

    def ev_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def super_method(self, name, env):
        e = env
        while e is not None and "__class__" not in e.vars:
            e = e.parent
        if e is None:
            raise Unsupported("super() outside a method")
        cls = e.vars["__class__"]
        slf = self.first_arg(env)
        mro = slf.cls.__mro__
        for c in mro[mro.index(cls) + 1 :]:
            if name in c.__dict__:
                f = c.__dict__[name]
                if isinstance(f, pytypes.FunctionType):
                    return BoundM(slf, f)
                if name == "__init__" and issubclass(c, BaseException):
                    return ("exc-init", slf)
                if name == "__init__" and c is object:
                    return ("object-init", slf)
                break
        raise Unsupported(f"super().{name}")

    def first_arg(self, env):
        while env is not None:
            if "self" in env.vars:
                return self.resolve(env.vars["self"])
            env = env.parent
        raise Unsupported("super() without self")

    def ev_Call(self, e, env):
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super" and not e.func.value.args:
            f = self.super_method(e.func.attr, env)
            if isinstance(f, tuple) and f[0] == "object-init":
                if e.args:
                    self.raise_(TypeError, "object.__init__")
                return None
            if isinstance(f, tuple):
                self.set_attr_raw(f[1], "args", tuple(self.ev(a, env) for a in e.args))
                return None
        else:
            f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.resolve(self.ev(a.value, env))
                if isinstance(v, tuple):
                    args += list(v)
                elif isinstance(v, LSeq) and v.concrete():
                    args += v.items()
                elif self.is_native(v):
                    args += [self.from_native(x) for x in v]
                else:
                    raise Unsupported("star argument of unknown length")
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.resolve(self.ev(k.value, env))
                if isinstance(v, LDict) and v.concrete():
                    for _, kk, vv in v.chunks:
                        kwargs[self.to_native(kk)] = vv
                else:
                    raise Unsupported("** argument of unknown keys")
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kwargs)

    def ev_List(self, e, env):
        s = LSeq("list")
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s.chunks += self.chunks_of(self.ev(x.value, env))
            else:
                s.chunks.append(("item", self.ev(x, env)))
        return s

    def ev_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            s = LSeq("tuple")
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    s.chunks += self.chunks_of(self.ev(x.value, env))
                else:
                    s.chunks.append(("item", self.ev(x, env)))
            return tuple(s.items()) if s.concrete() else s
        return tuple(self.ev(x, env) for x in e.elts)

    def ev_Set(self, e, env):
        s = LSet()
        for x in e.elts:
            self.set_add(s, self.ev(x, env))
        return s

    def ev_Dict(self, e, env):
        d = LDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.resolve(self.ev(v, env))
                self.method(d, "update", [src], {})
            else:
                kk = self.ev(k, env)
                self.setitem(d, kk, self.ev(v, env))
        return d

    def ev_JoinedStr(self, e, env):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(v.value)
            else:
                x = self.resolve(self.ev(v.value, env))
                if v.conversion == 114:
                    ps.append(self.repr_(x))
                    continue
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                    if self.is_native(x) and isinstance(spec, str):
                        ps.append(format(x, spec))
                        continue
                    ps.append(SStr((self.fresh("format", z3.StringSort()),)))
                    continue
                ps.append(self.str_(x))
        return mkstr(ps)

    def repr_(self, x):
        if self.is_native(x):
            return repr(x)
        return SStr((self.fresh("repr", z3.StringSort()),))

    def str_(self, x):
        x = self.resolve(x)
        if isinstance(x, (str, SStr)):
            return x
        if isinstance(x, Obj):
            m = self.class_attr_m(x.cls, "__str__")
            if isinstance(m, pytypes.FunctionType):
                return self.call(BoundM(x, m), [], {})
            if issubclass(x.cls, BaseException) and x.cls.__str__ is BaseException.__str__ and x.fields.get("_given"):
                a = x.fields["args"]
                if len(a) < 2:
                    return self.str_(a[0]) if a else ""
            return SStr((self.fresh("str", z3.StringSort()),))
        if isinstance(x, SInt):
            return SStr((z3.If(x.t >= 0, z3.IntToStr(x.t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-x.t))),))
        if self.is_native(x):
            return str(x)
        return SStr((self.fresh("str", z3.StringSort()),))

    def ev_IfExp(self, e, env):
        return self.ev(e.body if self.istrue(self.ev(e.test, env)) else e.orelse, env)

    def ev_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.istrue(v)
            if t != isand:
                return v
        return v

    def ev_UnaryOp(self, e, env):
        from .engine import znot

        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else SBool(znot(t))
        v = self.resolve(v)
        if isinstance(e.op, ast.USub):
            if self.is_native(v):
                return -v
            return SInt(-self.zint(v))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def ev_BinOp(self, e, env):
        a = self.resolve(self.ev(e.left, env))
        b = self.resolve(self.ev(e.right, env))
        return self.arith(BINOPS.get(type(e.op)), a, b)

    def arith(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if op is None:
            raise Unsupported("operator")
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise NeedInvariant("value after a loop")
        if op == "+" and self.isstr(a) and self.isstr(b):
            return mkstr([a, b])
        if op == "+" and isinstance(a, (SBytes, bytes)) and isinstance(b, (SBytes, bytes)) and not (isinstance(a, bytes) and isinstance(b, bytes)):
            return SBytes(mkstr([as_text(self, a), as_text(self, b)]))
        a, b = self.as_set(a), self.as_set(b)
        if isinstance(a, LSeq) or isinstance(b, LSeq) or (isinstance(a, tuple) and isinstance(b, tuple)):
            if op == "+":
                ka, kb = self._seqkind(a), self._seqkind(b)
                if ka != kb:
                    self.raise_(TypeError, "concatenation")
                ch = list(self._seqchunks(a)) + list(self._seqchunks(b))
                if ka == "tuple" and all(isinstance(c, tuple) for c in ch):
                    return tuple(c[1] for c in ch)
                return LSeq(ka, ch)
            if op == "*" and isinstance(a, LSeq) and isinstance(b, SInt) and a.concrete() and len(a.chunks) == 1:
                return self.repeat(a, b)
            if op == "*" and isinstance(a, LSeq) and isinstance(b, int) and a.concrete():
                return LSeq(a.kind, a.chunks * b)
            raise Unsupported(f"sequence operator {op}")
        if isinstance(a, LSet) and isinstance(b, LSet):
            if a.concrete() and b.concrete():
                try:
                    na, nb = self.to_native(a), self.to_native(b)
                    return self.from_native({"-": na - nb, "|": na | nb, "&": na & nb, "^": na ^ nb}[op])
                except Unsupported:
                    pass
            return self.set_op(op, a, b)
        if op == "/" and isinstance(a, Obj):
            m = self.class_attr_m(a.cls, "__truediv__")
            if m is not None:
                return self.call(BoundM(a, m), [b], {})
        if op == "*" and isinstance(b, SInt) and (isinstance(a, tuple) and len(a) == 1 or isinstance(a, LSeq) and a.concrete() and len(a.chunks) == 1):
            return self.repeat(a, b)
        if self.is_native(a) and self.is_native(b):
            try:
                return self.from_native(NATIVE[op](a, b))
            except Exception as x:  # noqa: BLE001
                self.raise_(type(x), *x.args)
        if op == "%" and isinstance(a, str):
            raise Unsupported("% formatting")
        if self.isint(a) and self.isint(b):
            x, y = self.zint(a), self.zint(b)
            if op == "+":
                return SInt(x + y)
            if op == "-":
                return SInt(x - y)
            if op == "*":
                return SInt(x * y)
            if op in ("//", "%") and z3.is_int_value(y) and y.as_long() > 0:
                return SInt(x / y if op == "//" else x % y)
        if op == "*" and self.isstr(a) and isinstance(b, int):
            return mkstr([a] * b)
        if op == "*" and isinstance(a, str) and self.isint(b):
            n = self.zint(b)
            r = z3.Function(f"repeat[{a!r}]", z3.IntSort(), z3.StringSort())(n)
            self.axiom(z3.Length(r) == z3.If(n > 0, n * len(a), z3.IntVal(0)))
            return SStr((r,))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("arithmetic on an opaque value")
        if (self.isstr(a) or a is None or self.isint(a)) and (self.isstr(b) or b is None or self.isint(b)) and op == "+":
            self.raise_(TypeError, "unsupported operand")
        raise Unsupported(f"{op} on {type(a).__name__}, {type(b).__name__}")

    def ev_Compare(self, e, env):
        from .engine import zand, tb

        left = self.ev(e.left, env)
        acc = []
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            c = self.compare(op, left, right)
            if i == len(e.ops) - 1 and not acc:
                return c if isinstance(c, bool) else SBool(tb(c))
            if i < len(e.ops) - 1:
                if not self.branch(c if isinstance(c, bool) else tb(c)):
                    return False
            else:
                return c if isinstance(c, bool) else SBool(tb(c))
            left = right
            acc = []

    def compare(self, op, a, b):
        from .engine import znot, tb

        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else (not r if isinstance(r, bool) else znot(r))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.py_eq(a, b)
            if isinstance(op, ast.NotEq):
                r = (not r) if isinstance(r, bool) else znot(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                r = (not r) if isinstance(r, bool) else znot(r)
            return r
        a, b = self.resolve(a), self.resolve(b)
        if self.is_native(a) and self.is_native(b):
            try:
                return bool(CMP[type(op)](a, b))
            except TypeError as x:
                self.raise_(TypeError, *x.args)
        if self.isint(a) and self.isint(b):
            return CMP[type(op)](self.zint(a), self.zint(b))
        if self.isstr(a) and self.isstr(b):
            x, y = self.zstr(a), self.zstr(b)
            if isinstance(op, ast.Lt):
                return x < y
            if isinstance(op, ast.LtE):
                return x <= y
            if isinstance(op, ast.Gt):
                return y < x
            return y <= x
        a, b = self.as_set(a), self.as_set(b)
        if isinstance(a, LSet) and isinstance(b, LSet):
            return self.set_cmp(type(op), a, b)
        raise Unsupported(f"comparison {type(op).__name__} of {type(a).__name__}, {type(b).__name__}")

    def is_(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return True
        if isinstance(a, SBool) and isinstance(b, bool):
            return a.t if b else z3.Not(a.t)
        if isinstance(b, SBool) and isinstance(a, bool):
            return b.t if a else z3.Not(b.t)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return False
        if isinstance(a, enum.Enum) or isinstance(b, enum.Enum) or isinstance(a, type) or isinstance(b, type):
            return a is b
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.origin and b.origin and a.origin[0] == b.origin[0]:
                from .engine import zand

                return zand([x == y for x, y in zip(a.origin[1], b.origin[1])])
            if a.origin and b.origin or True:
                return False
        if isinstance(a, (LSeq, LDict)) and isinstance(b, (LSeq, LDict)):
            if a.origin and b.origin:
                raise Unsupported("identity of input containers")
            return False
        if self.isstr(a) and self.isstr(b) or self.isint(a) and self.isint(b):
            raise Unsupported("identity of strings or numbers")
        return False

    def ev_Subscript(self, e, env):
        o = self.resolve(self.ev(e.value, env))
        return self.getitem(o, self.ev_index(e.slice, env))

    def ev_index(self, sl, env):
        if isinstance(sl, ast.Slice):
            return slice(*[self.resolve(self.ev(x, env)) if x is not None else None for x in (sl.lower, sl.upper, sl.step)])
        return self.ev(sl, env)

    def ev_Lambda(self, e, env):
        return Closure(e, env, None, "<lambda>", [self.ev(d, env) for d in e.args.defaults],
                       {a.arg: self.ev(d, env) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None}, False)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ev_Starred(self, e, env):
        raise Unsupported("starred")

    def comp(self, gens, env, emit):
        def rec(i, env):
            if i == len(gens):
                emit(env)
                return
            g = gens[i]
            it = self.ev(g.iter, env)

            def body(v):
                sub = Env(env, env.globals)
                sub.nonlocals = COMP
                sub.yields = None
                self.assign(g.target, v, sub, comp=True)
                for c in g.ifs:
                    if not self.istrue(self.ev(c, sub)):
                        return
                rec(i + 1, sub)

            self.iterate(it, body)

        rec(0, env)

    def ev_ListComp(self, e, env):
        out = LSeq("list")
        self.comp(e.generators, env, lambda en: self.seq_append(out, ("item", self.ev(e.elt, en))))
        return out

    def ev_GeneratorExp(self, e, env):
        out = LSeq("iter")
        self.comp(e.generators, env, lambda en: self.seq_append(out, ("item", self.ev(e.elt, en))))
        return out

    def ev_SetComp(self, e, env):
        out = LSet()
        self.comp(e.generators, env, lambda en: self.set_add(out, self.ev(e.elt, en)))
        return out

    def ev_DictComp(self, e, env):
        out = LDict()

        def emit(en):
            k = self.ev(e.key, en)
            self.dict_put(out, k, self.ev(e.value, en))

        self.comp(e.generators, env, emit)
        return out

    def ev_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        self.seq_append(self.yenv(env).yields, ("item", v))
        return None

    def yenv(self, env):
        while env.yields is None:
            env = env.parent
        return env

    def ev_YieldFrom(self, e, env):
        v = self.ev(e.value, env)
        self.extend(self.yenv(env).yields, v)
        return None

    # ------------------------------------------------------------ containers
    def extend(self, seq, it):
        for c in self.chunks_of(it):
            self.seq_append(seq, c)

    def in_sym_loop(self, stamp):
        return any(stamp < lc.stamp for lc in self.loops)

    def dict_put(self, d, k, v):
        """d[k] = v"""
        k = self.resolve(k) if not isinstance(k, SAny) else self.resolve(k)
        if isinstance(k, (LSeq, LDict, LSet)) and not (isinstance(k, LSeq) and k.kind == "tuple"):
            self.raise_(TypeError, "unhashable")
        if self.in_sym_loop(d.stamp):
            self.dict_append(d, ("item", k, v))
            return
        # overwrite in place where the key is known to be there
        for i, c in enumerate(d.chunks):
            if isinstance(c, tuple):
                e = self.py_eq(c[1], k)
                if e is False:
                    continue
                if self.branch(e):
                    ch = list(d.chunks)
                    ch[i] = ("item", c[1], v)
                    self.dict_replace(d, ch)
                    return
            else:
                p = self.chunk_has(c, k)
                if p is False:
                    continue
                if self.branch(p):
                    raise Unsupported("overwriting an entry of a symbolic dict")
        self.dict_append(d, ("item", k, v))

    def setitem(self, o, k, v):
        if isinstance(o, LDict):
            return self.dict_put(o, k, v)
        if isinstance(o, LSeq) and o.kind == "list":
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    self.seq_replace(o, self.chunks_of(v))
                    return
                raise Unsupported("slice assignment")
            k = self.resolve(k)
            if o.concrete() and isinstance(k, int):
                n = len(o.chunks)
                if not -n <= k < n:
                    self.raise_(IndexError, "assignment")
                ch = list(o.chunks)
                ch[k] = ("item", v)
                self.seq_replace(o, ch)
                return
            if isinstance(k, int) and k < 0 and all(isinstance(c, tuple) for c in o.chunks[k:]) and len(o.chunks) >= -k:
                ch = list(o.chunks)
                ch[k] = ("item", v)
                self.seq_replace(o, ch)
                return
            j = self.locate(o, k) if self.isint(k) else None
            if j is not None:
                ch = list(o.chunks)
                ch[j] = ("item", v)
                self.seq_replace(o, ch)
                return
            if k == -1 and o.chunks and not isinstance(o.chunks[-1], tuple):
                c = o.chunks[-1]
                if c.base.kind == "list" and c.upto is None and (c.alts is None or len(c.alts) == 1 and len(c.alts[0][1]) == 1 and not isinstance(c.alts[0][1][0], Nested)) and self.branch(self.nonempty(c)):
                    self.seq_replace(o, [*o.chunks[:-1], SymChunk(c.base, c.var, c.alts, z3.simplify(self.blen(c.base) - 1)), ("item", v)])
                    return
            raise Unsupported("item assignment in a symbolic list")
        if isinstance(o, Obj):
            m = self.class_attr_m(o.cls, "__setitem__")
            if m is not None:
                return self.call(BoundM(o, m), [k, v], {})
        if isinstance(o, (tuple, str, SStr, int, SInt, SBool)) or o is None or (isinstance(o, LSeq) and o.kind == "tuple"):
            self.raise_(TypeError, "item assignment")
        raise Unsupported(f"item assignment on {type(o)}")

    def delitem(self, o, k):
        if isinstance(o, LDict):
            r = self.dict_pop(o, k)
            if r is MISSING:
                self.raise_(KeyError, k)
            return
        if isinstance(o, LSeq) and o.concrete():
            ch = list(o.chunks)
            if isinstance(k, slice):
                nk = slice(*[self.to_native(x) if x is not None else None for x in (k.start, k.stop, k.step)])
                del ch[nk]
            else:
                k = self.resolve(k)
                if not isinstance(k, int):
                    raise Unsupported("del with symbolic index")
                if not -len(ch) <= k < len(ch):
                    self.raise_(IndexError, "del")
                del ch[k]
            self.seq_replace(o, ch)
            return
        if isinstance(o, LSeq) and not isinstance(k, slice):
            j = self.locate(o, self.resolve(k))
            if j is not None:
                ch = list(o.chunks)
                del ch[j]
                self.seq_replace(o, ch)
                return
        raise Unsupported("del")

    def chunk_has(self, c, k):
        """does a symbolic dict chunk have the key: bool or z3"""
        from .engine import zand, zor

        b = c.base
        if b.kind == "dict" and self.isstr(k):
            kt = self.zstr(k)
            h = self.has(b, kt)
            if c.alts is None:
                self.instantiate(b, kt)
                return h
            var, guard, alts = self.chunk_generic(c)
            ident = all(len(i) <= 1 and all(self.same(kv[0], SStr((var,))) for kv in i) for _, i in alts)
            if ident:
                self.instantiate(b, kt)
                return zand([h, zor([z3.substitute(pc, (var, kt)) for pc, i in alts if i])])
        if b.kind == "dict" and c.alts is None and not self.isstr(k):
            return False
        var, guard, alts = self.chunk_generic(c)
        conds = []
        for pc, items in alts:
            for kv in items:
                if isinstance(kv, Nested):
                    raise Unsupported("lookup in a nested dict part")
                e = self.py_eq(kv[0] if isinstance(kv, tuple) else kv, k)
                if e is not False:
                    conds.append(zand([pc, e]))
        r = zor(conds)
        if z3.is_false(r):
            return False
        return z3.Exists([var], z3.And(guard, r))

    def chunk_get(self, c, k):
        """value for a key known to be in the chunk"""
        from .engine import zand, zimp, znot, zor

        b = c.base
        if b.kind == "dict" and self.isstr(k):
            kt = self.zstr(k)
            if c.alts is None:
                return self.base_elem(b, kt)[1]
            var, guard, alts = self.chunk_generic(c)
            if all(len(i) <= 1 and all(self.same(kv[0], SStr((var,))) for kv in i) for _, i in alts):
                at = [(z3.substitute(pc, (var, kt)), i) for pc, i in alts if i]
                j = self.choose([pc for pc, _ in at])
                return self.vsubst(at[j][1][0][1], var, kt)
        # the last matching element is some witness
        w = self.fresh("w@" + b.path, S_() if b.kind == "dict" else z3.IntSort())
        self.instantiate(b, w)
        self.assume(self.guard_of(c, w))
        alts = self.chunk_at(c, w)
        conds = []
        vals = []
        for pc, items in alts:
            for kv in items:
                e = self.py_eq(kv[0], k)
                if e is not False:
                    conds.append(zand([pc, e]))
                    vals.append(kv[1])
        self.assume(zor(conds))
        if b.kind != "dict":
            var, guard, galts = self.chunk_generic(c)
            m = []
            for pc, items in galts:
                for kv in items:
                    e = self.py_eq(kv[0], k)
                    if e is not False:
                        m.append(zand([pc, e]))
            self.add_forall(b, var, zimp(z3.And(guard, var > w), znot(zor(m))))
        j = self.choose(conds) if len(conds) > 1 else 0
        return vals[j]

    def dict_lookup(self, d, k):
        k = self.resolve(k)
        if isinstance(k, (LDict, LSet)) or isinstance(k, LSeq) and k.kind != "tuple":
            self.raise_(TypeError, "unhashable")
        if self.just_added(d, k):
            return d.chunks[-1][2]
        self.note_read(d.stamp, ("heap", id(d)))
        for c in reversed(d.chunks):
            if isinstance(c, tuple):
                e = self.py_eq(c[1], k)
                if e is False:
                    continue
                if self.branch(e):
                    return c[2]
            else:
                p = self.chunk_has(c, k)
                if p is False:
                    continue
                if self.branch(p):
                    return self.chunk_get(c, k)
        return MISSING

    def just_added(self, d, k):
        """the last change of the dict, in this iteration of every loop, has added the key"""
        if not d.chunks or not isinstance(d.chunks[-1], tuple) or not self.same(d.chunks[-1][1], k):
            return False
        if any(d.stamp < lc.stamp and ("heap", id(d)) not in lc.iter_written for lc in self.loops):
            return False
        for kind, _, ref, payload, _ in reversed(self.trail):
            if ref is d:
                return kind == "append" and payload is d.chunks[-1]
        return False

    def dict_pop(self, d, k):
        k = self.resolve(k)
        for i, c in enumerate(d.chunks):
            if isinstance(c, tuple):
                e = self.py_eq(c[1], k)
                if e is False:
                    continue
                if self.branch(e):
                    ch = list(d.chunks)
                    del ch[i]
                    self.dict_replace(d, ch)
                    return c[2]
            else:
                p = self.chunk_has(c, k)
                if p is False:
                    continue
                if self.branch(p):
                    v = self.chunk_get(c, k)
                    self.dict_remove_sym(d, i, k)
                    return v
        self.note_read(d.stamp, ("heap", id(d)))
        return MISSING

    def dict_remove_sym(self, d, i, k):
        c = d.chunks[i]
        if c.base.kind == "dict":
            var, guard, alts = self.chunk_generic(c)
            kt = self.zstr(k)
            nalts = [(z3.And(pc, var != kt), items) for pc, items in alts] + [(var == kt, [])]
            ch = list(d.chunks)
            ch[i] = SymChunk(c.base, var, nalts, c.upto)
            self.dict_replace(d, ch)
            return
        raise Unsupported("removing from a symbolic dict")

    def contains(self, o, x):
        from .engine import zor, zand

        o = self.resolve(o)
        if isinstance(o, LDict):
            x = self.resolve(x)
            if isinstance(x, (LDict, LSet)) or isinstance(x, LSeq) and x.kind != "tuple":
                self.raise_(TypeError, "unhashable")
            self.note_member(o, x)
            cs = []
            for c in o.chunks:
                p = self.py_eq(c[1], x) if isinstance(c, tuple) else self.chunk_has(c, x)
                if p is True:
                    return True
                if p is not False:
                    cs.append(p)
            r = zor(cs)
            return False if z3.is_false(r) else r
        if isinstance(o, (LSeq, tuple, LSet)):
            if isinstance(o, LSet):
                x = self.resolve(x)
                if isinstance(x, (LDict, LSet)) or isinstance(x, LSeq) and x.kind != "tuple":
                    self.raise_(TypeError, "unhashable")
            cs = []
            if not isinstance(o, tuple):
                self.note_member(o, x)
            for c in ([("item", y) for y in o] if isinstance(o, tuple) else o.chunks):
                if isinstance(c, tuple):
                    p = self.py_eq(c[1], x)
                else:
                    p = self.chunk_contains(c, x)
                if p is True:
                    return True
                if p is not False:
                    cs.append(p)
            r = zor(cs)
            return False if z3.is_false(r) else r
        if self.isstr(o):
            x = self.resolve(x)
            if not self.isstr(x):
                self.raise_(TypeError, "in <string>")
            if isinstance(o, str) and isinstance(x, str):
                return x in o
            if isinstance(o, str) and len(o) <= 64 and False:
                pass
            return z3.Contains(self.zstr(o), self.zstr(x))
        if isinstance(o, Obj):
            m = self.class_attr_m(o.cls, "__contains__")
            if m is not None:
                return self.truth(self.call(BoundM(o, m), [x], {}))
            raise Unsupported("in on an object")
        if isinstance(o, (Sym,)) or o is None or isinstance(o, (int, bool)):
            if isinstance(o, Opaque) and not o.why.startswith("float"):
                raise Unsupported("in on opaque")
            self.raise_(TypeError, "not iterable")
        if isinstance(o, (frozenset, set, dict)) or hasattr(o, "__iter__"):
            x = self.resolve(x)
            if self.is_native(x):
                try:
                    return x in o
                except TypeError as e:
                    self.raise_(TypeError, *e.args)
            if isinstance(x, (LDict, LSet)) or isinstance(x, LSeq) and x.kind != "tuple":
                self.raise_(TypeError, "unhashable")
            cs = []
            for y in sorted(o, key=repr):
                p = self.py_eq(self.from_native(y), x)
                if p is True:
                    return True
                if p is not False:
                    cs.append(p)
            r = zor(cs)
            return False if z3.is_false(r) else r
        raise Unsupported(f"in on {type(o)}")

    def chunk_contains(self, c, x):
        from .engine import zand, zor

        var, guard, alts = self.chunk_generic(c)
        conds = []
        for pc, items in alts:
            for y in items:
                if isinstance(y, Nested):
                    p = self.chunk_contains(y.chunk, x)
                else:
                    p = self.py_eq(y, x)
                if p is not False:
                    conds.append(zand([pc, p]))
        r = zor(conds)
        if z3.is_false(r):
            return False
        return z3.Exists([var], z3.And(guard, r))

    def set_add(self, s, x):
        x = self.resolve(x)
        if isinstance(x, (LDict, LSet)) or isinstance(x, LSeq) and x.kind != "tuple":
            self.raise_(TypeError, "unhashable")
        if self.in_sym_loop(s.stamp) or not s.concrete():
            self.seq_append_set(s, ("item", x))
            return
        for c in s.chunks:
            if self.branch(self.py_eq(c[1], x)):
                return
        self.seq_append_set(s, ("item", x))

    def seq_append_set(self, s, chunk):
        old = list(s.chunks)
        s.chunks = old + [chunk]
        self.mark_dirty(s)

        def undo():
            s.chunks = old

        self.log("append", s.stamp, s, chunk, undo, ("heap", id(s)))

    def as_set(self, v):
        """the view of the keys of a dict behaves as a set"""
        return LSet(list(v.chunks)) if isinstance(v, LSeq) and v.kind == "keys_view" else v

    def set_op(self, op, a, b):
        from .builtins_ import s_difference, s_intersection, s_symdiff, s_union

        if op == "|":
            return LSet(list(a.chunks) + list(b.chunks)) if not (a.concrete() and b.concrete()) else s_union(self, a, b)
        return {"-": s_difference, "&": s_intersection, "^": s_symdiff}[op](self, a, b)

    def repeat(self, a, n):
        """[x] * n"""
        from . import types as T

        x = a[0] if isinstance(a, tuple) else a.chunks[0][1]
        base = Base("list", self.fresh_name("repeat"), (), None, T.TConst(lambda vm, path, args: x), 0)
        k = self.blen(base)
        self.axiom(k == z3.If(n.t > 0, n.t, z3.IntVal(0)))
        return LSeq("tuple" if isinstance(a, tuple) else a.kind, [SymChunk(base)])

    def set_cmp(self, op, a, b):
        from .builtins_ import s_subset, s_superset
        from .engine import tb, zand, znot

        if op in (ast.Gt, ast.GtE):
            a, b, op = b, a, ast.Lt if op is ast.Gt else ast.LtE
        r = self.truth(s_subset(self, a, b))
        return r if op is ast.LtE else zand([tb(r), znot(tb(self.truth(s_superset(self, a, b))))])

    def seq_index(self, o, k):
        """o[k] of an LSeq, k int or SInt"""
        ch = o.chunks
        self.note_read(o.stamp, ("heap", id(o)))
        if isinstance(k, SInt):
            kt = z3.simplify(k.t)
            if z3.is_int_value(kt):
                k = kt.as_long()
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            if k >= 0 and len(ch) > k and all(isinstance(c, tuple) for c in ch[: k + 1]):
                return ch[k][1]
            if k < 0 and len(ch) >= -k and all(isinstance(c, tuple) for c in ch[k:]):
                return ch[k][1]
            if o.concrete():
                self.raise_(IndexError, "index")
        if o.concrete():
            kt = self.zint(k)
            n = len(ch)
            i = self.choose([kt == j for j in range(-n, n)] + [z3.Or(kt < -n, kt >= n)])
            if i == 2 * n:
                self.raise_(IndexError, "index")
            return ch[(i - n) % n][1]
        if len(ch) == 1 and ch[0].base.kind == "list" and (ch[0].alts is None or all(len(i) == 1 for _, i in ch[0].alts)) and ch[0].upto is None:
            n = self.blen(ch[0].base)
            kt = self.zint(k)
            c = self.choose([z3.And(kt >= 0, kt < n), z3.And(kt < 0, kt >= -n), z3.Or(kt >= n, kt < -n)])
            if c == 2:
                self.raise_(IndexError, "index")
            t = kt if c == 0 else kt + n
            t = z3.simplify(t)
            self.instantiate(ch[0].base, t)
            alts = self.chunk_at(ch[0], t)
            i = 0 if len(alts) == 1 else self.choose([pc for pc, _ in alts])
            return alts[i][1][0]
        j = self.locate(o, k)
        if j is not None:
            return ch[j][1]
        raise Unsupported("index into a symbolic sequence")

    def locate(self, o, k):
        """position in o.chunks of the element with index k, if that is one of its own"""
        off = 0
        kt = self.zint(k)
        if self.prove_quick(kt < 0):
            return None
        for n, c in enumerate(o.chunks):
            if isinstance(c, tuple):
                if self.prove_quick(kt == off):
                    return n
                off = off + 1
            else:
                try:
                    off = off + self.zint(self.chunk_len(c))
                except Unsupported:
                    return None
        return None

    def seq_len(self, o):
        total = 0
        if isinstance(o, LSet) and not o.concrete() and len(o.chunks) > 1:
            raise Unsupported("size of a set of several parts")
        for c in self._seqchunks(o) if not isinstance(o, (LDict, LSet)) else o.chunks:
            if isinstance(c, tuple):
                total = self.arith("+", total, 1)
            else:
                total = self.arith("+", total, self.chunk_len(c))
        return total

    def chunk_len(self, c):
        if c.upto is None and (c.alts is None or all(len(i) == 1 and not isinstance(i[0], Nested) for _, i in c.alts)):
            return SInt(self.blen(c.base))
        var, guard, alts = self.chunk_generic(c)
        if any(isinstance(x, Nested) for _, i in alts for x in i):
            raise Unsupported("length of a nested sequence")
        return self.make_sum(SymChunk(c.base, var, alts, c.upto), var, guard, [(pc, [len(i)]) for pc, i in alts])

    def getitem(self, o, k):
        o = self.resolve(o)
        if not isinstance(k, slice):
            k = self.resolve(k)
        if isinstance(o, LDict):
            if isinstance(k, slice):
                self.raise_(TypeError, "slice")
            if o.factory is list and self.in_sym_loop(o.stamp):
                return DDRef(o, k)
            v = self.dict_lookup(o, k)
            if v is MISSING and o.factory is not None:
                v = self.call(o.factory, [], {})
                self.dict_put(o, k, v)
                return v
            if v is MISSING:
                self.raise_(KeyError, k)
            return v
        if isinstance(o, tuple):
            if isinstance(k, slice):
                return o[slice(*[self.to_native(x) if x is not None else None for x in (k.start, k.stop, k.step)])]
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    self.raise_(IndexError, "tuple")
                return o[k]
            if isinstance(k, SInt):
                return self.seq_index(LSeq("tuple", [("item", x) for x in o]), k)
            self.raise_(TypeError, "tuple index")
        if isinstance(o, LSeq):
            if o.kind == "iter":
                self.raise_(TypeError, "not subscriptable")
            if isinstance(k, slice):
                return self.seq_slice(o, k)
            if not self.isint(k):
                self.raise_(TypeError, "list index")
            return self.seq_index(o, k)
        if self.isstr(o):
            from .strings import str_getitem

            if not isinstance(k, slice) and not self.isint(k):
                self.raise_(TypeError, "str index")
            return str_getitem(self, o, k)
        if isinstance(o, Obj):
            m = self.class_attr_m(o.cls, "__getitem__")
            if m is not None:
                return self.call(BoundM(o, m), [k], {})
            self.raise_(TypeError, "not subscriptable")
        if isinstance(o, (Sym,)) or o is None or isinstance(o, (int, bool)):
            if isinstance(o, Opaque) and not o.why.startswith("float"):
                raise Unsupported("subscript of opaque")
            self.raise_(TypeError, "not subscriptable")
        if isinstance(o, (Closure, BoundM, Poison)):
            raise Unsupported("subscript")
        try:
            nk = self.to_native(k)
        except Unsupported:
            if isinstance(o, dict):
                return self.getitem(self.from_global(o), k)
            raise
        try:
            return self.from_native(o[nk])
        except Exception as e:  # noqa: BLE001
            self.raise_(type(e), *e.args)

    def seq_slice(self, o, k):
        ch = o.chunks
        self.note_read(o.stamp, ("heap", id(o)))
        try:
            a, b, c = [self.to_native(x) if x is not None else None for x in (k.start, k.stop, k.step)]
        except Unsupported:
            raise Unsupported("symbolic slice bounds")
        if (a, b, c) == (None, None, None):
            return LSeq(o.kind, list(ch))
        if o.concrete():
            r = ch[a:b:c]
            return tuple(x[1] for x in r) if o.kind == "tuple" else LSeq(o.kind, r)
        if c in (None, 1) and b is None and a is not None and a >= 0 and len(ch) >= a and all(isinstance(x, tuple) for x in ch[:a]):
            return LSeq(o.kind, ch[a:])
        if c in (None, 1) and (a in (None, 0)) and b is not None and b < 0 and len(ch) >= -b and all(isinstance(x, tuple) for x in ch[b:]):
            return LSeq(o.kind, ch[:b])
        if c in (None, 1) and b is not None and b >= 0 and (a or 0) >= 0 and len(ch) == 1:
            # first elements of a symbolic sequence
            n = self.blen(ch[0].base)
            j = self.choose([n == i for i in range(b)] + [n >= b])
            return LSeq(o.kind, [("item", self.seq_index(o, i)) for i in range(a or 0, j)])
        raise Unsupported("slice of a symbolic sequence")


def S_():
    return z3.StringSort()


class _Comp:
    pass


COMP = _Comp()
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.BitOr: "|", ast.BitAnd: "&", ast.Div: "/", ast.BitXor: "^", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>"}
import operator as _op

NATIVE = {"+": _op.add, "-": _op.sub, "*": _op.mul, "//": _op.floordiv, "%": _op.mod, "|": _op.or_, "&": _op.and_, "/": _op.truediv, "^": _op.xor, "**": _op.pow, "<<": _op.lshift, ">>": _op.rshift}
CMP = {ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt, ast.GtE: _op.ge}
