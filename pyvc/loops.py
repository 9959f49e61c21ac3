"""Loops with an invariant, and calls cut at a contract that describes the callee's effects."""
from __future__ import annotations
import ast, inspect
import z3
from . import types as T
from .values import *

LOOPS: list = []


class Loop:
    """invariant of the `nth` loop (in source order, not counting nested functions) of `fn`.

    `inv` is a boolean specification function; its parameters name locals of the function, `pre_x` (the value of x
    when the loop starts), `_i` (index of the iteration), `_it` (what a for loop iterates over), `_yields`.
    `vars`: what the loop changes, name -> type; a dotted name is an attribute. Other variables that the loop assigns
    have no value at the start of an iteration. `decreases`: an integer that every iteration lowers, and keeps >= 0."""

    def __init__(self, fn, nth, inv, vars, decreases=None):
        self.fn, self.nth, self.inv, self.decreases = fn, nth, inv, decreases
        self.vars = vars
        self.name = f"{fn.split(':')[1]}/loop{nth}"
        self._node = None
        LOOPS.append(self)

    def node(self):
        if self._node is None:
            self._node = self._find() or 0
        return self._node

    def _find(self):
        from .contract import find_target
        from .engine import func_ast

        f = find_target(self.fn)
        if f is None:
            return None
        found = []

        def walk(n):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(ch, (ast.For, ast.While)):
                    found.append(ch)
                walk(ch)

        try:
            walk(func_ast(f))
        except Unsupported:
            return None
        found.sort(key=lambda n: (n.lineno, n.col_offset))
        return found[self.nth] if self.nth < len(found) else None


class folded:
    """folded(step, make)(init, xs): the result of acc = step(acc, x) for each x, starting with init.

    Where xs is not known, the result is an unknown container that is determined by init and xs."""

    def __init__(self, name, step, item, kind=list):
        self.name, self.step, self.item, self.kind = name, step, item, kind
        self.__name__ = name

    def __call__(self, init, xs):
        acc = init
        for x in xs:
            acc = self.step(acc, x)
        return acc


class Fold(Loop):
    """A while loop that handles the elements of the list in the local `over` one by one.

    `accs`: name -> folded, what it computes. `place` takes the accumulators in this order, and the elements that are
    left, and gives the values of the locals at the start of an iteration. `start`: gives the initial accumulators from
    locals named by its parameters. The loop has to make every iteration's step, and to end when nothing is left;
    `result` gives the values of the locals after it from the final accumulators."""

    def __init__(self, fn, nth, over, accs, start, place, result):
        super().__init__(fn, nth, None, {})
        self.over, self.accs, self.start, self.place, self.result = over, accs, start, place, result


def assigned(stmts):
    """local names assigned in a loop body"""
    from .engine import local_names

    return local_names(ast.Module(stmts, []))


class Loops:
    def loop_of(self, s):
        for lp in LOOPS:
            if lp.node() is s:
                return lp
        return None

    def fresh_name(self, name):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        return f"{name}#{n}"

    def lookup(self, env, name):
        """value of a local, of an attribute of one, or of a subscript-free path"""
        parts = name.split(".")
        if parts[0] == "_yields":
            return self.yenv(env).yields
        e = env
        while e is not None and parts[0] not in e.vars:
            e = e.parent
        if e is None:
            raise Unsupported(f"the code has no variable {parts[0]}")
        v = e.vars[parts[0]]
        for p in parts[1:]:
            v = self.getattr(v, p)
        return v

    def havoc(self, env, name, t, tag):
        """give the location an arbitrary value of the type"""
        t = t if isinstance(t, T.T) else T.of(t)
        parts = name.split(".")
        cur = None
        try:
            cur = self.lookup(env, name)
        except Unsupported:
            if "." in name:
                raise
        if isinstance(cur, SApp):
            cur = self.resolve(cur)
        new = self.materialize(t, self.fresh_name(f"{tag}.{name}"))
        if isinstance(cur, (LSeq, LDict, LSet)) and type(new) is type(cur):
            if isinstance(cur, LSeq) and cur.kind not in ("list", "iter"):
                raise Unsupported("havoc of a tuple")
            self.seq_replace(cur, new.chunks)
            return
        if name == "_yields":
            raise Unsupported("not a generator")
        if len(parts) > 1:
            o = self.resolve(self.lookup(env, ".".join(parts[:-1])))
            self.setattr(o, parts[-1], new)
        else:
            self.set_var(self.fenv(env, name), name, new)

    # ---------------------------------------------------------------- folds
    def call_folded(self, f, args):
        init, xs = [self.resolve(a) for a in args]
        chunks = self.chunks_of(xs)
        if all(isinstance(c, tuple) for c in chunks):
            acc = init
            for c in chunks:
                acc = self.call(f.step, [acc, c[1]], {})
            return acc
        return self.fold_value(f, init, chunks)

    def fold_value(self, f, init, chunks):
        terms = []
        ich = init.chunks if isinstance(init, (LSeq, LSet)) else None
        if ich is None:
            raise Unsupported("fold of this kind")
        for c in list(ich) + list(chunks):
            if isinstance(c, tuple) or c.alts is not None or c.upto is not None:
                raise Unsupported("fold over a computed sequence")
            terms += [py_to_z3_str(c.base.path)] + list(c.base.args)
        saved, self.ns = self.ns, "abs"
        try:
            if f.kind is set:
                return LSet(list(self.materialize(T.TSet(T.of(f.item)), f"fold.{f.name}.{len(ich)}", tuple(terms)).chunks))
            return LSeq("list", list(self.materialize(T.TList(T.of(f.item)), f"fold.{f.name}.{len(ich)}", tuple(terms)).chunks))
        finally:
            self.ns = saved

    def some_acc(self, f, tag):
        """an arbitrary accumulator"""
        if f.kind is set:
            return LSet(list(self.materialize(T.TSet(T.of(f.item)), self.fresh_name(tag)).chunks))
        empty = z3.Bool(self.fresh_name(tag + ".empty"))
        if self.choose([empty, z3.Not(empty)]) == 0:
            return LSeq("list", [])
        head = self.materialize(T.TList(T.of(f.item)), self.fresh_name(tag + ".head"))
        return LSeq("list", list(head.chunks) + [("item", self.materialize(T.of(f.item), self.fresh_name(tag + ".last")))])

    def put_locals(self, env, vals):
        for _, name, v in vals.chunks:
            try:
                cur = self.resolve(self.lookup(env, name))
            except Unsupported:
                cur = None
            if isinstance(cur, (LSeq, LSet)) and type(cur) is type(v) and isinstance(v, (LSeq, LSet)):
                self.seq_replace(cur, list(v.chunks))
            else:
                self.set_var(self.fenv(env, name), name, v)

    def fold_loop(self, s, env, lp):
        from .engine import B, FALSE, znot

        names = list(lp.accs)
        over = self.resolve(self.lookup(env, lp.over))
        pre = list(self.chunks_of(over))
        start = self.call_function(lp.start, [self.lookup(env, p) for p in inspect.signature(lp.start).parameters], {})
        start = start.items() if isinstance(start, LSeq) else list(start)
        # copies: the locals are changed in place
        start = [LSeq("list", list(a.chunks)) if isinstance(a, LSeq) else LSet(list(a.chunks)) for a in start]
        place = lambda accs, left: self.call_function(lp.place, list(accs) + [LSeq("list", left)], {})

        def check(label, want):
            for _, name, v in want.chunks:
                self.ob(f"{lp.name}/{label}", self.strict_eq(self.lookup(env, name), v), lambda: f"{name} is {self.lookup(env, name)!r}, not {v!r}")

        check("at-entry", place(start, pre))
        final = [self.fold_value(lp.accs[n], a, pre) for n, a in zip(names, start)]
        asg = assigned(s.body)
        want = place(start, pre)
        for name in asg:
            if all(c[1] != name for c in want.chunks):
                self.set_var(self.fenv(env, name), name, Poison(name))
        go = self.fresh("iterate@" + lp.name, B)
        accs = [self.some_acc(lp.accs[n], f"{lp.name}.{n}") for n in names]
        if self.choose([go, znot(go)]) == 1:
            self.put_locals(env, place(accs, []))
            if self.branch(self.truth(self.ev(s.test, env))):
                self.ob(f"{lp.name}/ends", FALSE, lambda: "")
            for name in asg:
                self.set_var(self.fenv(env, name), name, Poison(name))
            self.put_locals(env, self.call_function(lp.result, final, {}))
            self.block(s.orelse, env)
            return
        f = next(iter(lp.accs.values()))
        item = lp.accs[names[0]].item
        x = self.materialize(T.of(item), self.fresh_name(lp.name + ".x"))
        left = list(self.materialize(T.TList(T.of(item)), self.fresh_name(lp.name + ".left")).chunks)
        copy = lambda a: LSeq("list", list(a.chunks)) if isinstance(a, LSeq) else LSet(list(a.chunks))
        self.put_locals(env, place([copy(a) for a in accs], [("item", x)] + left))
        mark, stamp = len(self.trail), new_stamp()
        if not self.branch(self.truth(self.ev(s.test, env))):
            self.ob(f"{lp.name}/goes-on", FALSE, lambda: "")
        try:
            self.block(s.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            raise Unsupported("break in a fold")
        lp.vars = {c[1]: None for c in want.chunks}
        self.check_writes(mark, stamp, env, lp, asg)
        done = [self.call(lp.accs[n].step, [copy(a), x], {}) for n, a in zip(names, accs)]
        check("step", place(done, left))
        raise Infeasible()

    def inv_args(self, fn, env, pre, i, it):
        args = []
        for p in inspect.signature(fn).parameters:
            if p == "_i":
                args.append(SInt(i) if i is not None else None)
            elif p == "_it":
                args.append(it)
            elif p.startswith("pre_"):
                if p not in pre:
                    raise Unsupported(f"{p} is not known")
                args.append(pre[p])
            else:
                v = self.lookup(env, p)
                if isinstance(v, Poison):
                    raise NeedInvariant(p)
                args.append(v)
        return args

    def inv_truth(self, lp, env, pre, i, it):
        from .engine import tb

        v = self.call_function(lp.inv, self.inv_args(lp.inv, env, pre, i, it), {})
        return [tb(self.truth(x)) for x in (v if isinstance(v, tuple) else (v,))]

    def measure(self, lp, env, pre, i, it):
        v = self.call_function(lp.decreases, self.inv_args(lp.decreases, env, pre, i, it), {})
        return self.zint(v)

    def inv_loop(self, s, env, lp, it=None):
        from .engine import LoopCtx, znot, B, I, S

        isfor = isinstance(s, ast.For)
        ch = None
        if isfor:
            chunks = self.chunks_of(it)
            if len(chunks) != 1 or isinstance(chunks[0], tuple) or chunks[0].base.kind == "dict" or chunks[0].upto is not None:
                if all(isinstance(c, tuple) for c in chunks):
                    return False
                raise Unsupported("invariant for a loop over several parts")
            ch = chunks[0]
        pre = {}
        fns = [lp.inv] + ([lp.decreases] if lp.decreases else [])
        for fn in fns:
            for p in inspect.signature(fn).parameters:
                if p.startswith("pre_"):
                    v = self.resolve(self.lookup(env, p[4:].replace("__", ".")))
                    if isinstance(v, Heap):
                        raise Unsupported("pre-value of a container")
                    pre[p] = v
        z = z3.IntVal(0) if isfor else None
        seq = LSeq("list", [ch]) if isfor else None
        if isfor:
            seq.stamp = 0
        for f in self.inv_truth(lp, env, pre, z, seq):
            self.ob(f"{lp.name}/invariant-at-entry", f, lambda: "")
        asg = assigned(s.body + ([ast.Assign([s.target], ast.Constant(None))] if isfor else []))
        if any(isinstance(n, ast.NamedExpr) for n in ast.walk(s.test)) if not isfor else False:
            asg |= {n.target.id for n in ast.walk(s.test) if isinstance(n, ast.NamedExpr)}
        for name, t in lp.vars.items():
            self.havoc(env, name, t, lp.name)
        for name in asg:
            if name not in lp.vars:
                self.set_var(self.fenv(env, name), name, Poison(name))
        go = self.fresh("iterate@" + lp.name, B)
        i = None
        if isfor:
            i = self.fresh("i@" + lp.name, I)
            n = self.blen(ch.base)
            self.assume(z3.And(i >= 0, i <= n))
        for f in self.inv_truth(lp, env, pre, i, seq):
            self.assume(f)
        if self.choose([go, znot(go)]) == 1:
            if isfor:
                self.assume(i == n)
            elif self.branch(self.truth(self.ev(s.test, env))):
                raise Infeasible()
            self.block(s.orelse, env)
            return True
        # an arbitrary iteration
        mark = len(self.trail)
        stamp = new_stamp()
        m0 = self.measure(lp, env, pre, i, seq) if lp.decreases else None
        try:
            if isfor:
                self.assume(i < n)
                self.instantiate(ch.base, i)
                alts = self.chunk_at(ch, i)
                k = 0 if len(alts) == 1 else self.choose([pc for pc, _ in alts])
                if len(alts[k][1]) != 1:
                    raise Unsupported("invariant for a loop over a computed sequence")
                self.assign(s.target, alts[k][1][0], env)
            elif not self.branch(self.truth(self.ev(s.test, env))):
                raise Infeasible()
            self.block(s.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return True
        self.check_writes(mark, stamp, env, lp, asg)
        for f in self.inv_truth(lp, env, pre, z3.simplify(i + 1) if isfor else None, seq):
            self.ob(f"{lp.name}/invariant-preserved", f, lambda: "")
        if lp.decreases:
            m1 = self.measure(lp, env, pre, i, seq)
            self.ob(f"{lp.name}/terminates", z3.And(m0 >= 0, m1 < m0), lambda: "")
        raise Infeasible()

    def check_writes(self, mark, stamp, env, lp, asg):
        """nothing older than the loop was written, except what is given an arbitrary value"""
        ok = set()
        for name in lp.vars:
            parts = name.split(".")
            if len(parts) > 1:
                ok.add(("attr", id(self.resolve(self.lookup(env, ".".join(parts[:-1])))), parts[-1]))
            else:
                v = self.lookup(env, name)
                if isinstance(v, (LSeq, LDict, LSet)):
                    ok.add(("heap", id(v)))
            if len(parts) == 1:
                ok.add(("var", name))
        for name in asg:
            ok.add(("var", name))
        for kind, st, ref, payload, undo in self.trail[mark:]:
            if kind == "app" or st >= stamp:
                continue
            if kind == "ewrite":
                raise Unsupported("loop writes to elements of a sequence")
            if isinstance(ref, tuple):
                owner, name = ref
                key = ("var", name) if isinstance(owner, Env) else ("attr", id(owner), name)
            else:
                key = ("heap", id(ref))
            if key not in ok:
                raise Unsupported(f"loop {lp.name} writes to {ref!r}"[:200] + " which its invariant does not list")

