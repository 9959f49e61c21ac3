"""Contracts, lemmas and their verification."""
from __future__ import annotations
import importlib, inspect, sys, time, traceback
import z3
from . import types as T
from .values import *
from .engine import VM, tb, zand, zor, znot, zimp


def pred(f):
    """a total boolean specification function"""
    f.__pred__ = True
    return f


def ghost(f):
    """a specification function whose results remember what they were made from"""
    f.__ghost__ = True
    return f


def text(f):
    """a specification function whose result is a string; it can be left uninterpreted (opaque) by a caller's proof"""
    f.__text__ = True
    return f


REGISTRY: list = []


def find_target(target):
    mod, qual = target.split(":")
    try:
        o = importlib.import_module(mod)
        for p in qual.split("."):
            o = getattr(o, p) if not isinstance(o, type) else o.__dict__[p]
    except (ImportError, AttributeError, KeyError):
        return None
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    return o


def find_stub(key):
    """the object that a name in a module, or a builtin, stands for"""
    import builtins

    m, n = key.split(":")
    try:
        o = importlib.import_module(m)
        for p in n.split("."):
            o = getattr(o, p) if hasattr(o, p) or p != n else getattr(builtins, p)
        return o
    except (ImportError, AttributeError):
        return None


class Contract:
    def __init__(self, target, ghosts, result=None, requires=None, ensures=None, args=None, prop=None, may_raise=(),
                 modifies=False, final=None, provenance=None, self_kw=None, name=None, public=False, kwargs=None,
                 budget=60, module=None, bounded_ok=None, use=True, opaque=(), text=False,
                 stubs=None, world=None, observe=None, effects=None, bound=2, small=None):
        # stubs: "module:name" -> specification of a dependency, called with world(ghosts...) first;
        # observe(world) after the call has to be effects(ghosts...)
        self.kwargs = kwargs
        self.stubs, self.world, self.observe, self.effects = stubs or {}, world, observe, effects
        self.text = text  # the result is an iterator of strings of which only the joined text counts
        self.opaque = frozenset(opaque)
        self.target = target
        self.ghosts = ghosts
        self.result, self.requires, self.ensures, self.args = result, requires, ensures, args
        self.prop = prop
        self.may_raise = may_raise
        self.modifies = modifies
        self.final = final
        self.provenance = provenance
        self.name = name or target
        self.public = public
        self.budget = budget
        self.small = small  # why only a bounded check is tried
        self.bound = bound  # size of the sequences where only a bounded check is within reach
        self.use = use
        self.is_lemma = target is None
        REGISTRY.append(self)

    def find(self):
        """the real function object, or None if the code no longer has it"""
        return find_target(self.target)

    # use of the contract at a call site
    def apply(self, vm, args, kwargs):
        if not self.use or self.modifies or self.result is None or kwargs:
            return NotImplemented
        names = list(self.ghosts)
        if self.provenance is not None:
            if len(args) != 1 or not isinstance(args[0], (Heap, SApp)):
                return NotImplemented
            g = (args[0].fn.__name__, args[0].args) if isinstance(args[0], SApp) and (args[0].exp is None or not isinstance(args[0].exp, Heap)) else (args[0].exp if isinstance(args[0], SApp) else args[0]).ghost
            if g is None or g[0] != self.provenance:
                return NotImplemented
            gargs = list(g[1])
        else:
            if self.args is not None:
                return NotImplemented  # the parameters are not the ghosts
            gargs = list(args)
            if len(gargs) != len(names):
                return NotImplemented
        if self.requires is not None:
            try:
                f = vm.truth(vm.call_function(self.requires, gargs, {}))
            except Unsupported:
                return NotImplemented
            st, _ = vm.prove(f)
            if st != "proved":
                return NotImplemented
        r = vm.call_function(self.result, gargs, {})
        return LSeq("iter", [("item", r)]) if self.text else r


def lemma(name, ghosts, statement, requires=None, prop=None, budget=60, **kw):
    c = Contract(None, ghosts, result=statement, requires=requires, prop=prop, name=name, public=True, budget=budget, **kw)
    return c


class Relation(Contract):
    """A contract that relates the states before and after the call.

    `havoc`: attributes of parameters that the call may change ("self.pos": int), and nothing else.
    `returns`: type of the result. `requires`, `ensures`, and the conditions in `raises` (exception class ->
    (fields of the exception, condition)) are specification functions whose parameters name parameters of the function
    (in their state at the end), `res` or `exc`, and `pre_p` or `pre_p__attr` for values at the start.
    A caller's proof sees only this."""

    def __init__(self, target, ghosts, requires=None, ensures=None, havoc=None, returns=None, raises=None, **kw):
        super().__init__(target, ghosts, requires=requires, ensures=ensures, **kw)
        self.havoc = havoc or {}
        self.returns = T.of(returns)
        self.raises = raises or {}

    def fill(self, vm, fn, env, pre, **extra):
        args = []
        for p in inspect.signature(fn).parameters:
            if p in extra:
                args.append(extra[p])
            elif p.startswith("pre_"):
                args.append(pre[p])
            else:
                args.append(env[p])
        v = vm.call_function(fn, args, {})
        return [tb(vm.truth(x)) for x in (v if isinstance(v, tuple) else (v,))]

    def snapshot(self, vm, env):
        pre = {}
        fns = [f for f in [self.requires, self.ensures] + [x[1] for x in self.raises.values()] if f is not None]
        for fn in fns:
            for p in inspect.signature(fn).parameters:
                if p.startswith("pre_") and p not in pre:
                    parts = p[4:].split("__")
                    v = env[parts[0]]
                    for a in parts[1:]:
                        v = vm.getattr(v, a)
                    if isinstance(v, Heap):
                        raise Unsupported("pre-value of a container")
                    pre[p] = v
        return pre

    def apply(self, vm, args, kwargs):
        if not self.use:
            return NotImplemented
        f = self.find()
        try:
            bound = inspect.signature(f).bind(*args, **kwargs)
        except TypeError:
            return NotImplemented
        bound.apply_defaults()
        env = {k: vm.from_native(v) for k, v in bound.arguments.items()}
        if set(env) != set(self.ghosts):
            return NotImplemented
        pre = self.snapshot(vm, env)
        if self.requires is not None:
            for g in self.fill(vm, self.requires, env, pre):
                if vm.prove(g)[0] != "proved":
                    return NotImplemented
        for name, t in self.havoc.items():
            p, a = name.split(".")
            o = vm.resolve(env[p])
            if not isinstance(o, Obj):
                return NotImplemented
            vm.setattr(o, a, vm.materialize(T.of(t), vm.fresh_name(f"{self.name}.{name}")))
        self_name = vm.fresh_name(self.name)
        for cls, (fields, cond) in self.raises.items():
            c = vm.fresh("raises@" + self.name, z3.BoolSort())
            if vm.branch(c):
                exc = Obj(cls, {"args": ("?",)})
                for k, t in fields.items():
                    exc.fields[k] = vm.materialize(T.of(t), f"{self_name}.exc.{k}")
                for g in self.fill(vm, cond, env, pre, exc=exc):
                    vm.assume(g)
                raise PyRaise(exc)
        res = vm.materialize(self.returns, self_name + ".res")
        if self.ensures is not None:
            for g in self.fill(vm, self.ensures, env, pre, res=res):
                vm.assume(g)
        return res

    def check_body(self, vm, target, ghosts, ob):
        """the obligations of one path through the body"""
        env = {n: vm.materialize(t, n) for n, t in ghosts.items()}
        for name in self.havoc:  # the attributes exist
            p, a = name.split(".")
            vm.getattr(env[p], a)
        pre = self.snapshot(vm, env)
        if self.requires is not None:
            for g in self.fill(vm, self.requires, env, pre):
                vm.assume(g)
        yield "covered"
        mark, stamp = len(vm.trail), new_stamp()
        exc = None
        try:
            res = vm.call_function_body(target, [env[n] for n in ghosts])
        except PyRaise as e:
            exc = e.value
        ok = {("attr", id(vm.resolve(env[n.split(".")[0]])), n.split(".")[1]) for n in self.havoc}
        for kind, st, ref, payload, undo in vm.trail[mark:]:
            if kind == "app" or st >= stamp:
                continue
            key = ("attr", id(ref[0]), ref[1]) if isinstance(ref, tuple) and kind != "ewrite" else None
            if key not in ok:
                ob("frame", z3.BoolVal(False), f"writes to {ref!r}"[:300])
        ob("frame", z3.BoolVal(True))
        if exc is not None:
            for cls, (fields, cond) in self.raises.items():
                if issubclass(exc.cls, cls):
                    for k in fields:
                        if k not in exc.fields:
                            ob("exception", z3.BoolVal(False), f"{exc.cls.__name__} has no {k}")
                    for g in self.fill(vm, cond, env, pre, exc=exc):
                        ob("exception", g, lambda: f"raises {exc!r}")
                    return
            ob("no-exception", z3.BoolVal(False), f"raises {exc.cls.__name__} {exc.fields.get('args')!r}")
            return
        bad = vm.not_of_type(res, self.returns)
        ob("result-type", z3.BoolVal(not bad), bad or "")
        if self.ensures is not None:
            for g in self.fill(vm, self.ensures, env, pre, res=res):
                ob("ensures", g, lambda: f"result {res!r}")


class Report:
    def __init__(self, contract, mode):
        self.contract = contract
        self.name = contract.name
        self.mode = mode
        self.status = None  # proved | failed | unsupported | missing | vacuous
        self.reason = ""
        self.obligations = []  # (label, status)
        self.paths = 0
        self.time = 0.0
        self.solver_s = 0.0
        self.queries = 0
        self.cvc5 = 0
        self.models = []
        self.witness = None
        self.inlined = []
        self.used_contracts = []

    def counts(self):
        return len(self.obligations), sum(1 for o in self.obligations if o[1] == "proved")


def verify(c: Contract, contracts=None, excluded=(), bounded=None, budget=None, keep_going=False, inline=False):
    rep = Report(c, "bounded" if bounded is not None else "unbounded")
    t0 = time.time()
    vm = VM({} if inline else dict(contracts or {}), bounded=bounded, deadline=t0 + (budget or c.budget))
    vm.excluded = set(excluded)
    if bounded is None and not inline and not excluded:
        vm.opaque = c.opaque
    target = None
    if not c.is_lemma:
        target = c.find()
        if target is None:
            rep.status = "missing"
            rep.reason = f"{c.target} does not exist in the current tree"
            return rep
        vm.excluded.add(target)
    for k, g in c.stubs.items():
        o = find_stub(k)
        if o is None:
            rep.status = "missing"
            rep.reason = f"{k} does not exist in the current tree"
            return rep
        vm.stubs[o] = g
    ghosts = {n: (t if isinstance(t, T.T) else T.of(t)) for n, t in c.ghosts.items()}
    covered = []

    def run():
        vm.reset_path()
        vm.ns = 0
        if isinstance(c, Relation):
            for _ in c.check_body(vm, target, ghosts, ob):
                if not covered:
                    r, _ = vm.check([], 5000)
                    if r == z3.unsat:
                        raise Infeasible()
                    covered.append(str(r))
            return
        ins = [vm.materialize(t, n) for n, t in ghosts.items()]
        vm.ns = 1
        olds = [vm.materialize(t, n) for n, t in ghosts.items()]
        if c.requires is not None:
            f = vm.truth(vm.call_function(c.requires, olds, {}))
            vm.assume(f)
        if not covered:
            r, _ = vm.check([], 5000)
            if r == z3.unsat:
                raise Infeasible()
            covered.append(str(r))
        vm.dirty = []
        vm.ns = 0
        if c.is_lemma:
            try:
                res = vm.call_function(c.result, ins, {})
            except PyRaise as e:
                ob("no-exception", FALSE_(), f"raises {e.value.cls.__name__} {e.value.fields.get('args')!r}")
                return
            check_lemma(res)
            return
        args = ins
        if c.args is not None:
            a = vm.call_function(c.args, ins, {})
            args = a.items() if isinstance(a, LSeq) else list(a)
        if c.world is not None:
            vm.world = vm.call_function(c.world, ins, {})
        vm.dirty = []
        exc = None
        res = None
        try:
            res = vm.call_function_body(target, list(args), vm.kw(c.kwargs, ins))
            if c.text and not vm.isstr(res):
                from .strings import join

                res = join(vm, "", res)
        except PyRaise as e:
            exc = e.value
        dirty = [h for h in vm.dirty if h.origin is not None and h.origin[2] == 0]
        world, stubs, vm.world, vm.stubs = vm.world, vm.stubs, None, {}
        try:
            judge(c, olds, world, args, res, exc, dirty)
        finally:
            vm.stubs = stubs

    def judge(c, olds, world, args, res, exc, dirty):
        expected, eexc = None, None
        vm.ns = 1
        if c.effects is not None:
            ob("effects", vm.strict_eq(vm.call_function(c.observe, [world], {}), vm.call_function(c.effects, olds, {})), lambda: f"observed {vm.call_function(c.observe, [world], {})!r}\nexpected {vm.call_function(c.effects, olds, {})!r}")
        if c.result is not None:
            try:
                expected = vm.call_function(c.result, olds, {})
            except PyRaise as e:
                eexc = e.value
        if exc is not None:
            ok = (eexc is not None and issubclass(exc.cls, eexc.cls)) or any(issubclass(exc.cls, k) for k in c.may_raise)
            if not ok:
                ob("no-exception", FALSE_(), f"raises {exc.cls.__name__} {exc.fields.get('args')!r}")
            else:
                ob("exception", z3.BoolVal(True))
        else:
            if eexc is not None:
                ob("raises", FALSE_(), f"expected {eexc.cls.__name__}")
            elif c.result is not None:
                ob("result", vm.strict_eq(res, expected), lambda: f"result {res!r}\nexpected {expected!r}")
            if c.ensures is not None:
                f = vm.truth(vm.call_function(c.ensures, [res] + olds, {}))
                ob("ensures", f, lambda: f"result {res!r}")
        if not c.modifies:
            ob("frame", z3.BoolVal(not dirty) if not dirty else FALSE_(), f"writes to {[h.origin[0] for h in dirty]}")
        if c.final is not None and exc is None:
            fin = vm.call_function(c.final, olds, {})
            ob("final-state", vm.strict_eq(tuple(args), fin if isinstance(fin, tuple) else (fin,)), lambda: f"final {args!r}\nexpected {fin!r}")

    def FALSE_():
        return z3.BoolVal(False)

    def check_lemma(res):
        if isinstance(res, tuple) and len(res) == 2:
            ob("lemma", vm.strict_eq(res[0], res[1]), lambda: f"left {res[0]!r}\nright {res[1]!r}")
        else:
            ob("lemma", vm.truth(res))

    class Fail(Exception):
        pass

    def ob(label, formula, detail=""):
        st, m = vm.prove(tb(formula))
        rep.obligations.append((f"{c.name}/{label}", st))
        if st != "proved":
            d = detail() if callable(detail) else detail
            rep.reason = f"{label}: {st}. {d}"[:3000] + "\npath: " + "; ".join(str(p)[:200] for p in vm.pcs)[:3000]
            rep.witness = (m, dict(ghosts), vm) if m is not None else None
            if not keep_going:
                raise Fail()

    vm.ob = ob
    try:
        outs = explore_top(vm, run, rep)
        rep.paths = outs
        n, d = rep.counts()
        if n == 0 or not covered:
            rep.status = "vacuous"
            rep.reason = "no obligations: the precondition excludes everything"
        else:
            rep.status = "proved" if n == d else "failed"
    except Fail:
        rep.status = "failed"
    except Unsupported as e:
        rep.status = "unsupported"
        rep.reason = f"{type(e).__name__}: {e}"
    except PyRaise as e:
        rep.status = "unsupported"
        rep.reason = f"specification raised {e.value.cls.__name__} {e.value.fields.get('args')}"
    except RecursionError:
        rep.status = "unsupported"
        rep.reason = "recursion"
    except z3.Z3Exception as e:
        rep.status = "unsupported"
        rep.reason = f"z3: {e}\n" + traceback.format_exc()[-1500:]
    except Exception as e:  # an engine defect is never a violation
        rep.status = "unsupported"
        rep.reason = f"engine: {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    rep.time = time.time() - t0
    rep.solver_s = vm.stats.solver_s
    rep.queries = vm.stats.queries
    rep.cvc5 = vm.stats.cvc5
    rep.models = sorted(vm.used_models)
    rep.inlined = sorted(vm.inlined)
    rep.used_contracts = sorted(vm.used_contracts)
    return rep


def explore_top(vm, run, rep):
    from .engine import Dec

    pending = [[]]
    n = 0
    while pending:
        prefix = pending.pop()
        vm.reset()
        vm.dec = Dec(list(prefix))
        n += 1
        if n > vm.MAX_PATHS:
            raise Unsupported("too many paths")
        try:
            run()
        except Infeasible:
            pass
        except Unsupported:
            if not vm.impossible():
                raise
        pending.extend(vm.dec.pending)
    return n
