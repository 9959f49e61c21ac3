"""pyvc: symbolic execution of the real Python source, producing verification conditions for z3.

Loops over symbolic sequences are summarised without a bound: the body is executed once for a generic
element; what it appends or stores becomes a mapped chunk over that sequence (see README in DESIGN.md)."""
from __future__ import annotations
import ast, builtins, dataclasses, enum, inspect, os, time, types as pytypes, typing
import z3
from . import types as T
from .values import *
from .interp import Interp
from .world import SBytes, as_text

S = z3.StringSort()
I = z3.IntSort()
B = z3.BoolSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def tb(x):
    """python bool | z3 Bool | SBool -> z3 Bool"""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return x


def zand(xs):
    out = []
    for x in xs:
        x = tb(x)
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        out.append(x)
    return TRUE if not out else out[0] if len(out) == 1 else z3.And(*out)


def zor(xs):
    out = []
    for x in xs:
        x = tb(x)
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        out.append(x)
    return FALSE if not out else out[0] if len(out) == 1 else z3.Or(*out)


def znot(x):
    x = tb(x)
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def contradictory(*fss):
    """a formula is among the conjuncts together with its negation"""
    pos, neg = set(), set()
    todo = [tb(f) for fs in fss for f in fs]
    while todo:
        f = todo.pop()
        if z3.is_and(f):
            todo.extend(f.children())
        elif z3.is_not(f):
            a = f.arg(0)
            if z3.is_or(a):
                todo.extend(z3.Not(x) if not z3.is_not(x) else x.arg(0) for x in a.children())
            elif z3.is_not(a):
                todo.append(a.arg(0))
            else:
                if a.get_id() in pos:
                    return True
                neg.add(a.get_id())
        elif z3.is_false(f):
            return True
        else:
            if f.get_id() in neg:
                return True
            pos.add(f.get_id())
    return False


def zimp(a, b):
    a, b = tb(a), tb(b)
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


_files: dict = {}


def file_ast(path):
    if path not in _files:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src)
        funcs = {}

        def walk(node, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    funcs.setdefault((qual + ch.name, min([ch.lineno] + [d.lineno for d in ch.decorator_list])), ch)
                    walk(ch, qual + ch.name + ".<locals>.")
                elif isinstance(ch, ast.ClassDef):
                    walk(ch, qual + ch.name + ".")
                else:
                    if isinstance(ch, ast.Lambda):
                        funcs.setdefault(("<lambda>", ch.lineno), ch)
                    walk(ch, qual)

        walk(tree, "")
        _files[path] = (src, tree, funcs)
    return _files[path]


def func_ast(f):
    code = f.__code__
    _, _, funcs = file_ast(code.co_filename)
    node = funcs.get((f.__qualname__, code.co_firstlineno))
    if node is None:
        cands = [n for (q, l), n in funcs.items() if l == code.co_firstlineno and (q == f.__name__ or q.endswith("." + f.__name__))]
        if len(cands) != 1:
            raise Unsupported(f"source of {f.__qualname__} not found")
        node = cands[0]
    return node


def is_gen(node):
    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(ch, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(ch):
                return True
        return False

    return walk(node)


def local_names(node):
    """names assigned in a function body (its own scope), to tell locals from globals"""
    names = set()
    non = set()

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                names.add(ch.name)
                continue
            if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for sub in ast.walk(ch):
                    if isinstance(sub, ast.NamedExpr):
                        target(sub.target)
                continue
            if isinstance(ch, ast.Assign):
                for t in ch.targets:
                    target(t)
            elif isinstance(ch, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
                target(ch.target)
            elif isinstance(ch, (ast.For,)):
                target(ch.target)
            elif isinstance(ch, ast.With):
                for it in ch.items:
                    if it.optional_vars:
                        target(it.optional_vars)
            elif isinstance(ch, ast.ExceptHandler) and ch.name:
                names.add(ch.name)
            elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names:
                    names.add((a.asname or a.name).split(".")[0])
            elif isinstance(ch, (ast.Nonlocal, ast.Global)):
                non.update(ch.names)
            walk(ch)

    walk(node)
    return names - non


class Dec:
    __slots__ = ("prefix", "pos", "pending", "taken")

    def __init__(self, prefix):
        self.prefix, self.pos, self.pending, self.taken = prefix, 0, [], []


def tag_is(tag, i, n):
    """the tests for the n options of a union, exactly one of which holds for every integer"""
    return z3.BoolVal(True) if n == 1 else tag <= 0 if i == 0 else tag >= n - 1 if i == n - 1 else tag == i


class LoopCtx:
    __slots__ = ("stamp", "reads", "writes", "iter_written", "events", "var", "ewrites", "ereads", "members")

    def __init__(self, stamp):
        self.members = []
        self.stamp = stamp
        self.reads = set()
        self.writes = set()
        self.iter_written = set()
        self.events = []


class Outcome:
    __slots__ = ("kind", "value", "pc", "events", "trace")

    def __init__(self, kind, value, pc, events):
        self.kind, self.value, self.pc, self.events = kind, value, pc, events


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.cvc5 = 0
        self.unknown = 0


class VM(Interp):
    FEAS_MS = 1500
    PROVE_MS = 12000
    MAX_PATHS = 4000

    def __init__(self, contracts=None, bounded=None, deadline=None):
        self.contracts = contracts or {}
        self.bounded = bounded  # None: unbounded; k: symbolic sequences have 0..k elements (labelled bounded)
        self.stats = Stats()
        self.deadline = deadline
        self.used_models = set()
        self.used_contracts = set()
        self.inlined = set()
        self.excluded = set()  # contracts not to be used (under verification / invalidated)
        from .builtins_ import install

        self.models = {}
        self.strict_depth = 0
        self.stubs, self.world, self.in_stub = {}, None, False
        install(self)
        from . import world

        world.install(self)
        self._qcache = {}
        self._keep = []
        self.opaque = frozenset()
        self.reset()

    # ---------------------------------------------------------------- state
    def reset(self):
        self.pcs = []
        self.axioms = []
        self._axset = set()
        self.heavy = []
        self.fresh_n = {}
        self.dec = Dec([])
        self.loops = []
        self.trail = []
        self.mat = {}
        self.foralls = []
        self.sums = {}
        self.join_ids = {}
        self.ns = 0
        self.abstract_calls = 0
        self.depth = 0
        self.callstack = []
        self.dirty = []
        self.vars_of_base = {}
        self.out_state = {}
        self.ewrites = {}
        self.world, self.in_stub = None, False
        self.handling = []

    def reset_path(self):
        pass

    def fresh(self, name, sort):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        return z3.Const(f"{name}!{n}", sort)

    def axiom(self, f):
        f = tb(f)
        if z3.is_true(f):
            return
        i = f.get_id()
        if i not in self._axset:
            self._axset.add(i)
            self.axioms.append(f)

    def heavy_axiom(self, f):
        """a fact that is used only where a proof fails without it"""
        f = tb(f)
        if not z3.is_true(f) and f.get_id() not in self._axset:
            self._axset.add(f.get_id())
            self.heavy.append(f)

    def assume(self, f):
        f = tb(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for i in range(f.num_args()):
                self.assume(f.arg(i))
            return
        self.pcs.append(f)
        if z3.is_false(f):
            raise Infeasible()

    # ---------------------------------------------------------------- solver
    def check(self, extra, ms=None, models=False):
        """z3's automatic configuration and its model-based instantiation take most of the time where there is a model"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this obligation exhausted")
        fs = self.axioms + self.pcs + [tb(e) for e in extra]
        key = (models, *sorted({f.get_id() for f in fs}))
        got = self._qcache.get(key)
        if got is not None and (got[0] != z3.unknown or got[1] >= (ms or self.FEAS_MS)):
            return got[0], None
        if contradictory(self.pcs, extra):
            self._qcache[key] = (z3.unsat, 1 << 30)
            self._keep.append(fs)
            return z3.unsat, None
        s = z3.Solver()
        s.set("timeout", ms or self.FEAS_MS)
        if not models:
            s.set(auto_config=False, mbqi=False)
        s.add(*fs)
        t0 = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        self._qcache[key] = (r, ms or self.FEAS_MS)
        self._keep.append(fs)
        return r, s

    def feasible(self, cond):
        cond = tb(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cid = cond.get_id()
        nid = znot(cond).get_id()
        for p in self.pcs:
            if p.get_id() == cid:
                return True
            if p.get_id() == nid:
                return False
        r, _ = self.check([cond])
        return r != z3.unsat

    def choose(self, conds):
        """Fork over mutually exclusive, exhaustive conditions; returns the index taken on this path."""
        conds = [tb(c) if not (isinstance(c, z3.ExprRef)) else c for c in conds]
        d = self.dec
        for i, c in enumerate(conds):
            if z3.is_true(c):
                return i
        if d.pos < len(d.prefix):
            i = d.prefix[d.pos]
            d.pos += 1
            d.taken.append(i)
            if i >= 0:
                self.assume(conds[i])
                return i
            # -1-i: forced (only feasible one)
            i = -1 - i
            self.assume(conds[i])
            return i
        feas = [i for i, c in enumerate(conds) if self.feasible(c)]
        if not feas:
            raise Infeasible()
        i = feas[0]
        if len(feas) == 1:
            d.taken.append(-1 - i)
            d.prefix.append(-1 - i)
            d.pos += 1
            self.assume(conds[i])
            return i
        for j in feas[1:]:
            d.pending.append(d.taken + [j])
        d.taken.append(i)
        d.prefix.append(i)
        d.pos += 1
        self.assume(conds[i])
        return i

    def impossible(self):
        """the path condition is contradictory, taking the definitions of regular expressions into account"""
        if self.deadline and time.time() > self.deadline:
            return False
        try:
            return self.prove(FALSE)[0] == "proved"
        except Unsupported:
            return False

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(tb(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.choose([cond, znot(cond)]) == 0

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, nested=True):
        """Run fn once per path. Nested: state created before is restored after every path."""
        saved_dec = self.dec
        pending = [[]]
        out = []
        n = 0
        while pending:
            n += 1
            if n > self.MAX_PATHS:
                raise Unsupported("too many paths")
            prefix = pending.pop()
            self.dec = Dec(list(prefix))
            npc = len(self.pcs)
            nfor = len(self.foralls)
            ntrail = len(self.trail)
            stamp = new_stamp()
            oc = None
            try:
                try:
                    v = fn()
                    oc = Outcome("normal", v, None, None)
                except ReturnEx as e:
                    oc = Outcome("return", e.value, None, None)
                except BreakEx:
                    oc = Outcome("break", None, None, None)
                except ContinueEx:
                    oc = Outcome("normal", None, None, None)
                except PyRaise as e:
                    oc = Outcome("raise", e.value, None, None)
                except Infeasible:
                    pass
                except Unsupported:
                    if not self.impossible():
                        raise
                if oc is not None:
                    oc.pc = zand(self.pcs[npc:])
                    oc.events = [t for t in self.trail[ntrail:] if t[1] < stamp and t[0] != "app"]
                    out.append(oc)
            finally:
                for t in reversed(self.trail[ntrail:]):
                    if t[1] < stamp:
                        t[-1]()
                del self.trail[ntrail:]
                del self.pcs[npc:]
                del self.foralls[nfor:]
                pending.extend(self.dec.pending)
                self.dec = saved_dec
        return out

    # ---------------------------------------------------------------- heap writes (logged)
    def log(self, kind, stamp, ref, payload, undo, key):
        self.trail.append((kind, stamp, ref, payload, undo))
        for lc in self.loops:
            if stamp < lc.stamp:
                lc.writes.add(key)
                lc.iter_written.add(key)

    def note_read(self, stamp, key):
        for lc in self.loops:
            if stamp < lc.stamp:
                if key[0] == "var" and key in lc.iter_written:
                    continue
                lc.reads.add(key)

    def note_member(self, o, x):
        """`x in o`: inside a loop that fills o, what earlier iterations added is ruled out by an obligation (see sym_loop)"""
        for lc in self.loops:
            if o.stamp < lc.stamp:
                lc.members.append((o, x))

    def is_key_of(self, base, x, term):
        k = self.base_elem(base, term)[0]
        if self.same(k, x):
            return True
        try:
            f = self.strict_eq(x, k)
        except Unsupported:
            return False
        return f is True or (f is not False and self.prove(tb(f))[0] == "proved")

    def members_ok(self, lc, ch, var, guard, normal):
        """No earlier iteration adds what an iteration looks for: the lookup is decided by what was there before the loop."""
        seen = []
        for o, x in lc.members:
            key = ("heap", id(o))
            if key not in lc.writes or any(o is p and self.same(x, y) for p, y in seen):
                continue
            seen.append((o, x))
            w = self.fresh("w@" + ch.base.path, var.sort())
            alts = []
            for out in normal:
                for kind, _, ref, payload, _ in out.events:
                    if ref is not o:
                        continue
                    if kind != "append" or not isinstance(payload, tuple):
                        lc.reads.add(key)
                        return
                    alts.append((out.pc, [payload[1]]))
            if not alts:
                continue
            earlier = w != var if ch.base.kind == "dict" else w < var
            n = len(self.trail) if hasattr(self, "trail") else 0
            self.instantiate(ch.base, w)
            for pc, items in self.chunk_at(SymChunk(ch.base, var, alts), w):
                if ch.base.kind == "idict" and self.is_key_of(ch.base, x, var) and self.is_key_of(ch.base, items[0], w):
                    continue  # keys of one dict
                e = self.py_eq(items[0], x)
                if e is False:
                    continue
                r, _ = self.check([guard, self.guard_of(ch, w), earlier, pc, tb(e) if isinstance(e, bool) else e], self.PROVE_MS)
                if r != z3.unsat:
                    lc.reads.add(key)
                    break

    def mark_dirty(self, h):
        if h.origin is not None:
            if h.origin[1] and self.bounded is None:
                # another name for the same element of a symbolic sequence would not see this write
                raise Unsupported(f"write to a container inside a symbolic sequence ({h.origin[0]})")
            h.dirty = True
            self.dirty.append(h)
        h.ghost = None

    def seq_append(self, seq, chunk):
        if isinstance(seq, LSeq) and seq.kind == "tuple":
            raise Unsupported("tuple mutation")
        old = list(seq.chunks)
        seq.chunks = old + [chunk]
        self.mark_dirty(seq)

        def undo():
            seq.chunks = old

        self.log("append", seq.stamp, seq, chunk, undo, ("heap", id(seq)))

    def seq_replace(self, seq, chunks):
        old = seq.chunks
        seq.chunks = list(chunks)
        self.mark_dirty(seq)

        def undo():
            seq.chunks = old

        self.log("replace", seq.stamp, seq, None, undo, ("heap", id(seq)))
        self.note_read(seq.stamp, ("heap", id(seq)))

    def dict_append(self, d, chunk):
        old = list(d.chunks)
        d.chunks = old + [chunk]
        self.mark_dirty(d)

        def undo():
            d.chunks = old

        self.log("append", d.stamp, d, chunk, undo, ("heap", id(d)))

    def dict_replace(self, d, chunks):
        self.seq_replace(d, chunks)

    def touched(self, path, ns):
        return any(k[0] == ns and k[1].startswith(path) and es for k, es in self.ewrites.items())

    def write_elem(self, obj, name, value):
        """attribute write to an element of a symbolic sequence: logged, so that every alias sees it"""
        path, args, ns = obj.origin
        es = self.ewrites.setdefault((ns, path, name), [])
        es.append(("one", args, value))
        obj.dirty = True
        self.dirty.append(obj)
        obj.ghost = None

        def undo():
            es.pop()

        self.trail.append(("ewrite", 0, (ns, path, name), (args, value), undo))
        for lc in self.loops:
            lc.ewrites.add(((ns, path, name), any(a.eq(lc.var) for a in args)))

    def elem_value(self, obj, name):
        """value of the field after the logged writes, or MISSING"""
        path, args, ns = obj.origin
        es = self.ewrites.get((ns, path, name))
        for lc in self.loops:
            lc.ereads.add(((ns, path, name), any(a.eq(lc.var) for a in args)))
        if not es:
            return MISSING
        for e in reversed(list(es)):
            if e[0] == "havoc":
                raise NeedInvariant("element written in a loop left early")
            if e[0] == "one":
                cond = zand([a == b for a, b in zip(e[1], args) if not a.eq(b)])
                if self.branch(cond):
                    return e[2]
                continue
            _, var, guard, cases = e
            for pc, wargs, value in cases:
                ix = [i for i, a in enumerate(wargs) if a.eq(var)]
                term = args[ix[0]]
                conds = [z3.substitute(guard, (var, term)), z3.substitute(pc, (var, term))]
                conds += [z3.substitute(a, (var, term)) == b for i, (a, b) in enumerate(zip(wargs, args)) if i != ix[0] and not a.eq(b)]
                if self.branch(zand(conds)):
                    return self.vsubst(value, var, term)
        return MISSING

    def set_attr_raw(self, obj, name, value):
        if obj.origin is not None and obj.origin[1] and self.bounded is None:
            self.write_elem(obj, name, value)
            return
        had = name in obj.fields
        old = obj.fields.get(name)
        obj.fields[name] = value
        self.mark_dirty(obj)

        def undo():
            if had:
                obj.fields[name] = old
            else:
                obj.fields.pop(name, None)

        self.log("attr", obj.stamp, (obj, name), value, undo, ("attr", id(obj), name))

    def set_var(self, env, name, value):
        had = name in env.vars
        old = env.vars.get(name)
        env.vars[name] = value

        def undo():
            if had:
                env.vars[name] = old
            else:
                env.vars.pop(name, None)

        self.log("var", env.stamp, (env, name), value, undo, ("var", id(env), name))

    # ---------------------------------------------------------------- materialisation of symbolic inputs
    def uf(self, name, args, sort):
        if not args:
            return z3.Const(name, sort)
        return z3.Function(name, *[a.sort() for a in args], sort)(*args)

    def materialize(self, t, path, args=()):
        key = (self.ns, path, tuple(a.get_id() for a in args))
        if key in self.mat:
            return self.mat[key]
        v = self._materialize(t, path, args)
        self._keep.append(args)
        self.mat[key] = v
        return v

    def _materialize(self, t, path, args):
        if isinstance(t, T.TStr):
            return SStr((self.uf(path, args, S),))
        if isinstance(t, T.TInt):
            return SInt(self.uf(path, args, I))
        if isinstance(t, T.TBool):
            return SBool(self.uf(path, args, B))
        if isinstance(t, T.TBytes):
            return SBytes(SStr((self.uf(path, args, S),)))
        if isinstance(t, T.TFloat):
            return Opaque("float " + path)
        if isinstance(t, T.TLit):
            return t.value
        if isinstance(t, T.TConst):
            return t.make(self, path, args)
        if isinstance(t, T.TJson):
            t = T.TUnion([T.TLit(None), T.TBool(), T.TInt(), T.TFloat(), T.TStr(), T.TList(t), T.TDict(T.TStr(), t)])
        if isinstance(t, T.TUnion):
            tag = self.uf(path + ".tag", args, I)
            self.axiom(z3.And(tag >= 0, tag < len(t.opts)))
            return SAny(path, args, t.opts)
        if isinstance(t, T.TCls):
            return Obj(t.cls, {}, (path, args, self.ns), t)
        if isinstance(t, T.TTuple):
            return tuple(self.materialize(e, f"{path}.{i}", args) for i, e in enumerate(t.es))
        if isinstance(t, (T.TList, T.TTupleV)):
            kind = "list" if isinstance(t, T.TList) else "tuple"
            base = Base("list", path, args, None, t.e, self.ns)
            if self.bounded is not None:
                n = self.bounded_len(base)
                items = [("item", self.materialize(t.e, path + "[]", args + (z3.IntVal(i),))) for i in range(n)]
                return LSeq(kind, items, (path, args, self.ns))
            self.axiom(self.blen(base) >= 0)
            return LSeq(kind, [SymChunk(base)], (path, args, self.ns))
        if isinstance(t, T.TDict):
            kind = "dict" if isinstance(t.k, T.TStr) else "idict"
            base = Base(kind, path, args, t.k, t.v, self.ns)
            if self.bounded is not None:
                n = self.bounded_len(base)
                items = []
                for i in range(n):
                    ix = z3.IntVal(i)
                    if kind == "dict":
                        kt = self.uf(path + ".key", args + (ix,), S)
                        k = SStr((kt,))
                        v = self.materialize(t.v, path + "{}", args + (kt,))
                    else:
                        k = self.materialize(t.k, path + ".key", args + (ix,))
                        v = self.materialize(t.v, path + ".val", args + (ix,))
                    for _, k0, _ in items:
                        e = self.py_eq(k0, k)
                        self.assume(znot(e))
                    items.append(("item", k, v))
                return LDict(items, (path, args, self.ns))
            self.axiom(self.blen(base) >= 0)
            return LDict([SymChunk(base)], (path, args, self.ns))
        if isinstance(t, T.TSet):
            base = Base("list", path, args, None, t.e, self.ns)
            if self.bounded is not None:
                n = self.choose([self.blen(base) == i for i in range(2)])  # at most one
                return LSet([("item", self.materialize(t.e, path + "[]", args + (z3.IntVal(i),))) for i in range(n)], (path, args, self.ns))
            self.axiom(self.blen(base) >= 0)
            return LSet([SymChunk(base)], (path, args, self.ns))
        raise Unsupported(f"cannot materialise {t}")

    def bounded_len(self, base):
        n = self.blen(base)
        k = self.bounded
        self.axiom(z3.And(n >= 0, n <= k))
        return self.choose([n == i for i in range(k + 1)])

    def blen(self, base):
        return self.uf(base.path + ".len", base.args, I)

    def has(self, base, kt):
        h = self.uf(base.path + ".has", base.args + (kt,), B)
        self.axiom(zimp(h, self.blen(base) > 0))
        return h

    def resolve(self, v):
        """Fork a union value to one of its options."""
        while isinstance(v, (SAny, SApp)):
            if isinstance(v, SApp):
                v = self.expand(v)
                continue
            tag = self.uf(v.path + ".tag", v.args, I)
            i = self.choose([tag_is(tag, j, len(v.opts)) for j in range(len(v.opts))])
            v = self.opt(v, i)
        return v

    def expand(self, app):
        if app.exp is None:
            saved, self.ns = self.ns, app.ns
            try:
                r = self.run_function(app.fn, list(app.args), {})
            finally:
                self.ns = saved
            app.exp = r
            if isinstance(r, (LDict, LSeq, Obj)) and r.ghost is None:
                r.ghost = (app.fn.__name__, tuple(app.args))

            def undo():
                app.exp = None

            self.trail.append(("app", 0, app, None, undo))
        return app.exp

    def opt(self, v, i):
        t = v.opts[i]
        return self.materialize(t, f"{v.path}|{i}", v.args) if not isinstance(t, T.TLit) else t.value

    def getfield(self, obj, name):
        if obj.origin is not None and obj.origin[1] and self.bounded is None:
            v = self.elem_value(obj, name)
            if v is not MISSING:
                return v
        if name in obj.fields:
            self.note_read(obj.stamp, ("attr", id(obj), name))
            return obj.fields[name]
        if obj.origin is not None and obj.tcls is not None:
            try:
                ft = T.field_type(obj.tcls, name)
            except KeyError:
                return MISSING
            path, args, ns = obj.origin
            saved, self.ns = self.ns, ns
            try:
                v = self.materialize(ft, f"{path}.{name}", args)
            finally:
                self.ns = saved
            obj.fields[name] = v
            self.note_read(obj.stamp, ("attr", id(obj), name))
            return v
        return MISSING

    # ---------------------------------------------------------------- generic elements
    def chunk_generic(self, ch):
        """-> (var, guard, alts) with alts [(pc, [values])] for a fresh generic element"""
        b = ch.base
        if b.kind == "dict":
            var = self.fresh("k@" + b.path, S)
            guard = self.has(b, var)
        else:
            var = self.fresh("i@" + b.path, I)
            guard = z3.And(var >= 0, var < self.blen(b))
        if ch.upto is not None:
            guard = z3.And(guard, var < ch.upto)
        self.instantiate(b, var)
        return var, guard, self.chunk_at(ch, var)

    def chunk_at(self, ch, term):
        b = ch.base
        if ch.alts is None:
            return [(TRUE, [self.base_elem(b, term)])]
        return [
            (z3.substitute(pc, (ch.var, term)), [self.vsubst(v, ch.var, term) for v in items]) for pc, items in ch.alts
        ]

    def base_elem(self, b, term):
        a = b.args + (term,)
        saved, self.ns = self.ns, b.ns
        try:
            if b.kind == "list":
                return self.materialize(b.v, b.path + "[]", a)
            if b.kind == "dict":
                return (SStr((term,)), self.materialize(b.v, b.path + "{}", a))
            return (self.materialize(b.k, b.path + ".key", a), self.materialize(b.v, b.path + ".val", a))
        finally:
            self.ns = saved

    def instantiate(self, base, term):
        key = base.key()
        self.vars_of_base.setdefault(key, []).append(term)
        for bk, var, body in self.foralls:
            if bk == key:
                self.axiom(z3.substitute(body, (var, term)))

    def add_forall(self, base, var, body):
        """body already includes its guard"""
        body = tb(body)
        if z3.is_true(body):
            return
        self.assume(z3.ForAll([var], body))
        self.foralls.append((base.key(), var, body))
        for t in self.vars_of_base.get(base.key(), []):
            self.pcs.append(z3.substitute(body, (var, t)))

    def guard_of(self, ch, term):
        b = ch.base
        if b.kind == "dict":
            g = self.has(b, term)
        else:
            g = z3.And(term >= 0, term < self.blen(b))
        if ch.upto is not None:
            g = z3.And(g, term < ch.upto)
        return g

    def nonempty(self, ch):
        """z3 Bool: the chunk contributes at least one item"""
        plain = lambda items: any(not isinstance(x, Nested) for x in items)
        if ch.alts is None or all(plain(items) for _, items in ch.alts):
            if ch.upto is not None:
                return ch.upto > 0
            return self.blen(ch.base) > 0
        var, guard, alts = self.chunk_generic(ch)
        cond = zor([pc if plain(items) else zand([pc, zor([self.nonempty(x.chunk) for x in items])]) for pc, items in alts if items])
        return z3.Exists([var], z3.And(guard, cond))

    def vsubst(self, v, var, term):
        if v is None or isinstance(v, (str, int, bool, float, bytes, enum.Enum)):
            return v
        sub = lambda e: z3.substitute(e, (var, term))
        if z3.is_expr(v):
            n = sub(v)
            return v if n.eq(v) else n
        if isinstance(v, SStr):
            out = []
            for p in v.pieces:
                if isinstance(p, str):
                    out.append(p)
                elif isinstance(p, JoinPiece):
                    out.append(JoinPiece(p.sep, self.csubst(p.chunk, var, term)))
                else:
                    out.append(sub(p))
            return mkstr(out)
        if isinstance(v, SInt):
            return SInt(sub(v.t))
        if isinstance(v, SBool):
            return SBool(sub(v.t))
        if isinstance(v, SAny):
            na = tuple(sub(a) for a in v.args)
            r = SAny(v.path, na, v.opts)
            tag = self.uf(v.path + ".tag", na, I)
            self.axiom(z3.And(tag >= 0, tag < len(v.opts)))
            return r
        if isinstance(v, SApp):
            na = tuple(self.vsubst(x, var, term) for x in v.args)
            if all(x is y for x, y in zip(na, v.args)):
                return v
            return SApp(v.fn, na, v.ns)
        if isinstance(v, SBytes):
            return SBytes(self.vsubst(v.s, var, term))
        if isinstance(v, tuple):
            return tuple(self.vsubst(x, var, term) for x in v)
        if isinstance(v, Obj):
            if v.origin is not None and not v.dirty:
                path, args, ns = v.origin
                na = tuple(sub(a) for a in args)
                if all(a.eq(b) for a, b in zip(args, na)):
                    return v
                saved, self.ns = self.ns, ns
                try:
                    return self.materialize(v.tcls, path, na)
                finally:
                    self.ns = saved
            nf = {k: self.vsubst(x, var, term) for k, x in v.fields.items() if not k.startswith("_") or v.cls.__name__ != "SMatchObj"}
            if len(nf) == len(v.fields) and all(nf[k] is v.fields[k] for k in nf):
                return v
            o = Obj(v.cls, nf)
            o.ghost = self.gsubst(v.ghost, var, term)
            return o
        if isinstance(v, (LSeq, LDict, LSet)):
            nc = []
            same = True
            for c in v.chunks:
                if isinstance(c, tuple):
                    n = ("item",) + tuple(self.vsubst(x, var, term) for x in c[1:])
                    if any(a is not b for a, b in zip(n[1:], c[1:])):
                        same = False
                    nc.append(n)
                else:
                    n = self.csubst(c, var, term)
                    if n is not c:
                        same = False
                    nc.append(n)
            if same:
                return v
            r = LSeq(v.kind, nc) if isinstance(v, LSeq) else LDict(nc) if isinstance(v, LDict) else LSet(nc)
            if v.origin is not None and not v.dirty:
                path, args, ns = v.origin
                r.origin = (path, tuple(sub(a) for a in args), ns)
                r.stamp = 0
            r.ghost = self.gsubst(v.ghost, var, term)
            return r
        if isinstance(v, Nested):
            return Nested(self.csubst(v.chunk, var, term))
        if isinstance(v, (Closure, BoundM, Poison, Opaque)) or not isinstance(v, (Sym, Heap)):
            return v
        raise Unsupported(f"substitution in {type(v)}")

    def gsubst(self, g, var, term):
        if g is None:
            return None
        return (g[0], tuple(self.vsubst(x, var, term) for x in g[1]))

    def csubst(self, ch, var, term):
        b = ch.base
        na = tuple(z3.substitute(a, (var, term)) for a in b.args)
        same = all(x.eq(y) for x, y in zip(na, b.args))
        nb = b if same else Base(b.kind, b.path, na, b.k, b.v, b.ns)
        upto = None if ch.upto is None else z3.substitute(ch.upto, (var, term))
        if ch.alts is None:
            if same and (ch.upto is None or upto.eq(ch.upto)):
                return ch
            return SymChunk(nb, upto=upto)
        alts = []
        changed = not same
        for pc, items in ch.alts:
            npc = z3.substitute(pc, (var, term))
            ni = [self.vsubst(x, var, term) for x in items]
            if not npc.eq(pc) or any(a is not b for a, b in zip(ni, items)):
                changed = True
            alts.append((npc, ni))
        if not changed:
            return ch
        return SymChunk(nb, ch.var, alts, upto)

    # ---------------------------------------------------------------- iteration
    def chunks_of(self, it, lazy=False):
        it = self.resolve(it)
        if isinstance(it, LSeq):
            self.note_read(it.stamp, ("heap", id(it)))
            if not lazy:
                for c in it.chunks:
                    if isinstance(c, tuple) and c[0] == "raise":
                        raise PyRaise(c[1])
            return list(it.chunks)
        if isinstance(it, LDict):
            self.note_read(it.stamp, ("heap", id(it)))
            return [("item", c[1]) if isinstance(c, tuple) else self.map_items(c, lambda kv: kv[0]) for c in self.dict_norm(it)]
        if isinstance(it, LSet):
            self.note_read(it.stamp, ("heap", id(it)))
            if len(it.chunks) > 1:
                return self.set_order(it)
            return list(it.chunks)
        if isinstance(it, tuple):
            return [("item", x) for x in it]
        if isinstance(it, (str, list, dict, set, frozenset, range, bytes)) or hasattr(it, "__iter__") and not isinstance(it, (Sym, Heap)):
            if isinstance(it, (set, frozenset)):
                it = sorted(it, key=repr)
            return [("item", self.from_native(x)) for x in it]
        if isinstance(it, Obj):
            m = self.class_attr(it.cls, "__iter__")
            if m is not MISSING:
                return self.chunks_of(self.call(BoundM(it, m), [], {}))
        if isinstance(it, SStr):
            return self.str_chunks(it)
        self.raise_(TypeError, f"not iterable: {type(it).__name__}")

    def set_order(self, s):
        """the elements of a small set, in an unknown order"""
        if not s.concrete() or len(s.chunks) > 6:
            raise Unsupported("iteration over a set (order)")
        xs = []
        for x in s.items():
            if not any(self.branch(self.py_eq(x, y)) for y in xs):
                xs.append(x)
        if len(xs) > 4:
            raise Unsupported("iteration over a set (order)")
        out = []
        while len(xs) > 1:
            k = self.fresh("order", I)
            self.axiom(z3.And(k >= 0, k < len(xs)))
            out.append(("item", xs.pop(self.choose([k == i for i in range(len(xs))]))))
        return out + [("item", x) for x in xs]

    def str_chunks(self, s):
        t = self.zstr(s)

        def make(vm, path, args):
            return SStr((z3.SubString(args[0], args[-1], z3.IntVal(1)),))

        base = Base("list", "chars", (t,), None, T.TConst(make), 0)
        self.axiom(self.blen(base) == z3.Length(t))
        return [SymChunk(base)]

    def dict_norm(self, d):
        """chunks of a dict whose insertion log has no overwriting entries (else Unsupported)"""
        out = []
        if d.concrete():
            return d.chunks
        sym = [c for c in d.chunks if not isinstance(c, tuple)]
        if len(d.chunks) == 1:
            c = d.chunks[0]
            if c.alts is None:
                return d.chunks
            if c.base.kind in ("dict", "idict"):
                var, guard, alts = self.chunk_generic(c)
                be = self.base_elem(c.base, var)[0]
                if all(len(i) <= 1 and all(self.same(kv[0], be) for kv in i) for _, i in alts):
                    return d.chunks
                raise Unsupported("iteration over a dict built with computed keys")
            return self._list_dict_norm(d)
        if len(sym) == 1 and self.dict_norm(LDict([sym[0]])):
            seen = []
            for c in d.chunks:
                for e in seen:
                    if isinstance(c, tuple):
                        p = self.py_eq(e[1], c[1]) if isinstance(e, tuple) else self.chunk_has(e, c[1])
                    else:
                        p = self.chunk_has(c, e[1])
                    if p is True or p is not False and not self.prove_quick(znot(tb(p))):
                        raise Unsupported("iteration over a dict with entries that may be overwritten")
                seen.append(c)
            return d.chunks
        raise Unsupported("iteration over a dict of several symbolic parts")

    def _list_dict_norm(self, d):
        raise Unsupported("iteration over a dict built from a list")

    def same(self, a, b):
        """syntactic identity"""
        if a is b:
            return True
        if isinstance(a, SStr) and isinstance(b, SStr):
            return len(a.pieces) == len(b.pieces) and all(
                (x == y if isinstance(x, str) and isinstance(y, str) else z3.is_expr(x) and z3.is_expr(y) and x.eq(y))
                for x, y in zip(a.pieces, b.pieces)
            )
        if isinstance(a, (SInt, SBool)) and type(a) is type(b):
            return a.t.eq(b.t)
        if isinstance(a, SApp) and isinstance(b, SApp):
            return a.fn is b.fn and all(self.same(x, y) for x, y in zip(a.args, b.args))
        if isinstance(a, SAny) and isinstance(b, SAny):
            return a.path == b.path and all(x.eq(y) for x, y in zip(a.args, b.args))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Heap) and isinstance(b, Heap) and a.origin and b.origin and not getattr(a, "dirty", 0) and not getattr(b, "dirty", 0):
            if self.ewrites and a.origin[2] != b.origin[2] and (self.touched(a.origin[0], a.origin[2]) or self.touched(b.origin[0], b.origin[2])):
                return False
            return a.origin[0] == b.origin[0] and all(x.eq(y) for x, y in zip(a.origin[1], b.origin[1]))
        if isinstance(a, (str, int, bool, type(None))):
            return type(a) is type(b) and a == b
        return False

    def map_items(self, ch, f):
        var, guard, alts = self.chunk_generic(ch)
        return SymChunk(ch.base, var, [(pc, [f(x) for x in items]) for pc, items in alts], ch.upto)

    def iterate(self, it, body):
        for ch in self.chunks_of(it, True):
            if isinstance(ch, tuple):
                if ch[0] == "raise":
                    raise PyRaise(ch[1])
                try:
                    body(ch[1])
                except ContinueEx:
                    pass
            else:
                self.sym_loop(ch, body)

    def one_pass(self, ch, body, term, alts):
        i = 0 if len(alts) == 1 and z3.is_true(alts[0][0]) else self.choose([pc for pc, _ in alts])
        for v in alts[i][1]:
            if isinstance(v, Nested):
                self.sym_loop(v.chunk, body)
                continue
            try:
                body(v)
            except ContinueEx:
                pass

    def sym_loop(self, ch, body):
        var, guard, alts = self.chunk_generic(ch)
        lc = LoopCtx(new_stamp())
        lc.var = var
        lc.ewrites, lc.ereads = set(), set()

        def run():
            lc.iter_written = set()
            self.assume(guard)
            self.one_pass(ch, body, var, alts)

        self.loops.append(lc)
        try:
            outs = self.explore(run)
        finally:
            self.loops.pop()
        normal = [o for o in outs if o.kind == "normal"]
        exits = [o for o in outs if o.kind != "normal"]
        if lc.members:
            self.members_ok(lc, ch, var, guard, normal)
        conflict = {k for k in lc.reads & lc.writes}
        for k, own in lc.ewrites:
            if not own or (k, False) in lc.ereads:
                raise NeedInvariant(f"loop over {ch.base.path} writes {k[2]} of elements of {k[1]}")
        if conflict:
            names = sorted({str(k[2]) if k[0] != "heap" else "container" for k in conflict})
            raise NeedInvariant("loop-carried state: " + ", ".join(names))
        if exits:
            ex_pc = zor([o.pc for o in exits])
            no_exit = zimp(guard, znot(ex_pc))
            # which case: no element exits, or the first exiting element is w
            w = self.fresh("w@" + ch.base.path, var.sort())
            gw = self.guard_of(ch, w)
            any_exit = z3.Exists([var], z3.And(guard, ex_pc))
            if self.choose([znot(any_exit), any_exit]) == 1:
                self.instantiate(ch.base, w)
                self.assume(gw)
                self.assume(z3.substitute(ex_pc, (var, w)))
                prefix = None
                if ch.base.kind != "dict":
                    self.add_forall(ch.base, var, zimp(z3.And(guard, var < w), znot(ex_pc)))
                    prefix = w
                self.apply_effects(ch, var, guard, normal, prefix=prefix if prefix is not None else "unknown")
                # run the exiting iteration for real
                self.one_pass(ch, body, w, self.chunk_at(ch, w))
                raise Infeasible()  # the iteration must exit
            self.add_forall(ch.base, var, no_exit)
        self.apply_effects(ch, var, guard, normal)

    def apply_effects(self, ch, var, guard, normal, prefix=None):
        # group per target
        targets = {}
        ew = {}
        order = []
        for pi, o in enumerate(normal):
            for ev in o.events:
                kind, stamp, ref, payload, _ = ev
                if kind == "ewrite":
                    ew.setdefault(ref, {})[pi] = payload
                    continue
                k = ("heap", id(ref)) if not isinstance(ref, tuple) else (kind[:3], id(ref[0]), ref[1])
                if k not in targets:
                    targets[k] = (ref, {})
                    order.append(k)
                targets[k][1].setdefault(pi, []).append((kind, payload))
        for k, per in ew.items():
            es = self.ewrites.setdefault(k, [])
            if prefix is not None:
                es.append(("havoc",))
                payload = ((), None)
            else:
                es.append(("all", var, guard, [(normal[pi].pc, args, value) for pi, (args, value) in per.items()]))
                payload = next(iter(per.values()))

            def undo(es=es):
                es.pop()

            self.trail.append(("ewrite", 0, k, payload, undo))
            for lc in self.loops:
                lc.ewrites.add((k, any(a.eq(lc.var) for a in payload[0])))
        for k in order:
            ref, per = targets[k]
            kinds = {kd for evs in per.values() for kd, _ in evs}
            if isinstance(ref, tuple) and not isinstance(ref, LSeq):
                self._scalar_effect(ch, var, guard, normal, ref, per, kinds, prefix)
                continue
            if isinstance(prefix, str):
                old = ref.chunks
                self.seq_replace(ref, [("item", Opaque("after early exit"))] if not isinstance(ref, LDict) else [("item", Opaque("key"), Opaque("val"))])
                continue
            if kinds != {"append"}:
                raise NeedInvariant(f"loop rewrites a container ({kinds})")
            alts = []
            for pi, o in enumerate(normal):
                items = []
                flat = True
                for _, c in per.get(pi, []):
                    if isinstance(c, tuple):
                        items.append(c[1] if len(c) == 2 else (c[1], c[2]))
                    else:
                        flat = False
                        items.append(c)
                if not flat:
                    if len(normal) == 1 and len(items) == 1 and False:
                        pass
                    raise_nested = True
                    items = [x if not isinstance(x, SymChunk) else Nested(x) for x in items]
                alts.append((o.pc, items))
            up = prefix
            if ch.upto is not None:
                up = ch.upto if up is None else up
            nch = SymChunk(ch.base, var, alts, up)
            if ref.stamp < 0:
                raise Unsupported("frozen")
            if isinstance(ref, LDict) and ref.factory is list:
                self.dd_append(ref, nch)
            elif isinstance(ref, LDict):
                self.dict_append(ref, nch)
            else:
                self.seq_append(ref, nch)

    def dd_append(self, d, ch):
        """effect of a loop on a defaultdict(list): all items are appended to one key, or the keys are the loop's"""
        items = [x for _, r in ch.alts for x in r]
        if not any(isinstance(x, tuple) and isinstance(x[1], DDVal) for x in items):
            if any(isinstance(x, Nested) for x in items):
                raise Unsupported("nested loop over a defaultdict")
            return self.dict_append(d, ch)
        if not all(isinstance(x, tuple) and isinstance(x[1], DDVal) for x in items):
            raise NeedInvariant("loop fills a defaultdict in several ways")
        k = items[0][0]
        c = self.fresh("k@" + ch.base.path, ch.var.sort())
        if not all(self.same(x[0], k) for x in items) or not self.same(self.vsubst(k, ch.var, c), k):
            raise NeedInvariant("loop fills several lists of a defaultdict")
        part = SymChunk(ch.base, ch.var, [(pc, [x[1].v for x in r]) for pc, r in ch.alts], ch.upto)
        if not self.branch(self.nonempty(part)):
            return
        self.dd_extend(d, k, [part])

    def dd_extend(self, d, k, chunks):
        if self.branch(self.contains(d, k)):
            if self.in_sym_loop(d.stamp):
                raise Unsupported("defaultdict extended twice")
            v = self.resolve(self.dict_lookup(d, k))
            for c in chunks:
                self.seq_append(v, c)
            return
        self.dict_append(d, ("item", k, LSeq("list", list(chunks))))

    def _scalar_effect(self, ch, var, guard, normal, ref, per, kinds, prefix):
        owner, name = ref
        setter = (lambda v: self.set_var(owner, name, v)) if isinstance(owner, Env) else (lambda v: self.set_attr_raw(owner, name, v))
        cur = owner.vars.get(name, MISSING) if isinstance(owner, Env) else owner.fields.get(name, MISSING)
        if kinds <= {"add"}:
            if isinstance(prefix, str):
                setter(Poison(name))
                return
            if prefix is not None:
                ch = SymChunk(ch.base, ch.var, ch.alts, prefix)
                guard = z3.And(guard, var < prefix)
            total = self.make_sum(ch, var, guard, [(o.pc, [p for _, p in per.get(i, [])]) for i, o in enumerate(normal)])
            if isinstance(total, int) and total == 0:
                return
            key = ("var" if isinstance(owner, Env) else "attr", id(owner), name)
            self._aug(cur, "+", total, owner, name, key, owner.stamp, setter)
            return
        vals = [evs[-1][1] for evs in per.values()]
        if all(v is None or isinstance(v, (str, int, bool)) for v in vals) and len({(type(v), v) for v in vals}) == 1 and prefix is None and cur is not MISSING and "add" not in kinds:
            cond = zor([normal[i].pc for i in per])
            if self.choose([z3.Exists([var], z3.And(guard, cond)), z3.ForAll([var], zimp(guard, znot(cond)))]) == 0:
                setter(vals[0])
                w = self.fresh("w@" + ch.base.path, var.sort())
                self.assume(self.guard_of(ch, w))
                self.assume(z3.substitute(cond, (var, w)))
                self.instantiate(ch.base, w)
            else:
                self.add_forall(ch.base, var, zimp(guard, znot(cond)))
            return
        setter(Poison(name))

    def make_sum(self, ch, var, guard, alts):
        """sum over the chunk of the amounts of each path"""
        sample = [a for _, items in alts for a in items]
        if not sample:
            return 0
        if any(isinstance(a, (str, SStr)) for a in sample):
            return SStr((JoinPiece("", SymChunk(ch.base, var, [(pc, [mkstr(items)] if items else []) for pc, items in alts], ch.upto)),))
        amounts = []
        for pc, items in alts:
            amounts.append((pc, z3.Sum(*[self.zint(a) for a in items]) if len(items) > 1 else self.zint(items[0]) if items else z3.IntVal(0)))
        expr = z3.IntVal(0)
        for pc, a in amounts:
            expr = z3.If(pc, a, expr)
        bkey = (ch.base.key(), None if ch.upto is None else ch.upto.get_id())
        for v2, e2, const in self.sums.get(bkey, []):
            e2s = z3.substitute(e2, (v2, var))
            r, _ = self.check([guard, e2s != expr], self.PROVE_MS)
            if r == z3.unsat:
                return SInt(const)
        const = self.fresh("sum@" + ch.base.path, I)
        self.sums.setdefault(bkey, []).append((var, expr, const))
        r, _ = self.check([guard, expr < 0], self.PROVE_MS)
        if r == z3.unsat:
            self.axiom(const >= 0)
            self.axiom((const > 0) == z3.Exists([var], z3.And(guard, expr > 0)))
            r, _ = self.check([guard, expr > 1], self.PROVE_MS)
            if r == z3.unsat and ch.base.kind == "list":
                self.axiom(const <= self.blen(ch.base))
        return SInt(const)

    # ---------------------------------------------------------------- native conversion
    def from_native(self, v):
        if isinstance(v, (Sym, Heap, BoundM)):
            return v
        if isinstance(v, list):
            return LSeq("list", [("item", self.from_native(x)) for x in v])
        if isinstance(v, tuple):
            return tuple(self.from_native(x) for x in v)
        if type(v) is dict:
            return LDict([("item", self.from_native(k), self.from_native(x)) for k, x in v.items()])
        if isinstance(v, (set, frozenset)):
            return LSet([("item", self.from_native(x)) for x in sorted(v, key=repr)])
        if dataclasses.is_dataclass(v) and not isinstance(v, type) and type(v).__module__.startswith("moz.l10n"):
            return Obj(type(v), {f.name: self.from_native(getattr(v, f.name)) for f in dataclasses.fields(v)})
        return v

    def is_native(self, v):
        if isinstance(v, (Sym, Heap, BoundM, Poison)):
            return False
        if isinstance(v, tuple):
            return all(self.is_native(x) for x in v)
        return True

    def to_native(self, v):
        """fully concrete engine value -> Python value, else Unsupported"""
        if isinstance(v, (SStr, SInt, SBool, SAny, Opaque, Poison)):
            if isinstance(v, SInt):
                s = z3.simplify(v.t)
                if z3.is_int_value(s):
                    return s.as_long()
            raise Unsupported("symbolic value passed to native code")
        if isinstance(v, tuple):
            return tuple(self.to_native(x) for x in v)
        if isinstance(v, LSeq):
            if not v.concrete():
                raise Unsupported("symbolic sequence passed to native code")
            xs = [self.to_native(x) for x in v.items()]
            return xs if v.kind == "list" else tuple(xs) if v.kind == "tuple" else iter(xs)
        if isinstance(v, LDict):
            if not v.concrete():
                raise Unsupported("symbolic dict passed to native code")
            return {self.to_native(c[1]): self.to_native(c[2]) for c in v.chunks}
        if isinstance(v, LSet):
            if not v.concrete():
                raise Unsupported("symbolic set passed to native code")
            return {self.to_native(c[1]) for c in v.chunks}
        if isinstance(v, (Obj, Closure, BoundM)):
            raise Unsupported(f"{type(v).__name__} passed to native code")
        return v

    # ---------------------------------------------------------------- exceptions
    def raise_(self, cls, *args):
        raise PyRaise(Obj(cls, {"args": tuple(args)}))

    # ---------------------------------------------------------------- text
    def zstr(self, v):
        if isinstance(v, str):
            return py_to_z3_str(v)
        if isinstance(v, SStr):
            if v._t is None:
                ps = []
                for p in v.pieces:
                    if isinstance(p, str):
                        ps.append(py_to_z3_str(p))
                    elif isinstance(p, JoinPiece):
                        ps.append(self.join_const(p))
                    else:
                        ps.append(p)
                v._t = ps[0] if len(ps) == 1 else z3.Concat(*ps)
            return v._t
        raise Unsupported(f"not a string: {v!r}")

    def join_const(self, p):
        """a constant standing for a join; equal chunks get the same constant"""
        if p._t is None:
            base = p.chunk.base
            ids = self.join_ids.setdefault((base.kind, base.path, p.sep), [])
            args = self.free_vars(p.chunk)
            for q, const, qargs in ids:
                if [a.sort() for a in args] != [a.sort() for a in qargs]:
                    continue
                try:
                    ch = q.chunk
                    for x, y in zip(qargs, args):
                        if not x.eq(y):
                            ch = self.csubst(ch, x, y)
                    f = self.chunk_eq_prove(ch, p.chunk)
                    r, _ = self.check([znot(f)], self.PROVE_MS)
                    if r == z3.unsat:
                        p._t = const.decl()(*args) if args else const
                        return p._t
                except Unsupported:
                    pass
            const = self.fresh("join@" + base.path, S)
            if args:  # within a generic element: one for each
                const = z3.Function(const.decl().name(), *[a.sort() for a in args], S)(*args)
            p._t = const
            ids.append((p, const, args))
        return p._t

    def free_vars(self, ch):
        """the variables of the loops that the chunk is within"""
        found, seen, ids = {}, set(), set()

        def term(t, bound):
            if (t.get_id(), bound) in seen:
                return
            seen.add((t.get_id(), bound))
            if z3.is_const(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name()[:2] in ("i@", "k@") and t.decl().name() not in bound:
                    found[t.decl().name()] = t
            elif z3.is_quantifier(t):
                term(t.body(), bound)
            for c in t.children():
                term(c, bound)

        def walk(v, bound):
            if isinstance(v, z3.ExprRef):
                term(v, bound)
            elif isinstance(v, (str, int)) or v is None:
                return
            elif isinstance(v, (tuple, list)):
                for x in v:
                    walk(x, bound)
            elif isinstance(v, SymChunk):
                walk(v.base.args, bound)
                walk(v.upto, bound)
                if v.alts is not None:
                    walk(v.alts, bound | {v.var.decl().name()})
            elif isinstance(v, Nested):
                walk(v.chunk, bound)
            elif isinstance(v, JoinPiece):
                walk(v.chunk, bound)
                if v._t is not None:
                    term(v._t, bound)
            elif isinstance(v, SStr):
                walk(v.pieces, bound)
            elif isinstance(v, (SInt, SBool)):
                walk(v.t, bound)
            elif isinstance(v, SAny):
                walk(v.args, bound)
            elif isinstance(v, Heap) and id(v) not in ids:
                ids.add(id(v))
                if getattr(v, "origin", None) is not None:
                    walk(v.origin[1], bound)
                for f in ("fields", "chunks"):
                    x = getattr(v, f, None)
                    walk(list(x.values()) if isinstance(x, dict) else x, bound)

        walk(ch, frozenset())
        return [found[n] for n in sorted(found)]

    def zint(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported(f"not an int: {v!r}")

    def isstr(self, v):
        return isinstance(v, (str, SStr))

    def isint(self, v):
        return isinstance(v, (int, SInt, SBool))

    def cls_of(self, v):
        if isinstance(v, SStr):
            return str
        if isinstance(v, SBytes):
            return bytes
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, LSeq):
            return {"list": list, "tuple": tuple, "bytearray": bytearray}.get(v.kind, type(iter([])))
        if isinstance(v, LDict):
            return dict
        if isinstance(v, LSet):
            return set
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, (Closure, BoundM)):
            return pytypes.FunctionType
        if isinstance(v, Opaque):
            if v.why.startswith("float"):
                return float
            raise Unsupported(f"type of {v}")
        if isinstance(v, Poison):
            raise NeedInvariant(f"value of {v.name} after a loop")
        return type(v)

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        """python bool or z3 Bool"""
        v = self.resolve(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SBytes):
            return self.truth(v.s)
        if isinstance(v, SStr):
            if any(isinstance(p, str) and p for p in v.pieces):
                return True
            parts = []
            for p in v.pieces:
                if isinstance(p, JoinPiece):
                    parts.append(self.zstr(SStr((p,))) != py_to_z3_str(""))
                else:
                    parts.append(p != py_to_z3_str(""))
            return zor(parts)
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, (LSeq, LDict, LSet)):
            self.note_read(v.stamp, ("heap", id(v)))
            if isinstance(v, LSeq) and v.kind == "iter":
                return True
            if any(isinstance(c, tuple) for c in v.chunks):
                return True
            return zor([self.nonempty(c) for c in v.chunks])
        if isinstance(v, Obj):
            m = self.class_attr(v.cls, "__bool__")
            if m is MISSING:
                m = self.class_attr(v.cls, "__len__")
            if m is not MISSING:
                return self.truth(self.call(BoundM(v, m), [], {}))
            return True
        if isinstance(v, (Closure, BoundM)):
            return True
        if isinstance(v, Poison):
            raise NeedInvariant(f"value of {v.name} after a loop")
        if isinstance(v, Opaque):
            raise Unsupported(f"truth of {v}")
        return bool(v)

    def istrue(self, v):
        return self.branch(self.truth(v))

    # ---------------------------------------------------------------- equality
    def py_eq(self, a, b):
        """== of the code: python bool or z3 Bool"""
        return self._eq(a, b, False)

    def strict_eq(self, a, b):
        """identity of values and types, used in postconditions; generic elements stay free (to be proved)"""
        return self._eq(a, b, True)

    def _eq(self, a, b, strict):
        if a is b and not isinstance(a, Opaque):
            return True
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise NeedInvariant("value after a loop")
        if isinstance(a, SApp) or isinstance(b, SApp):
            if isinstance(a, SApp) and isinstance(b, SApp) and a.fn is b.fn:
                clean = all(x.exp is None or x.exp is x.args[0] or not isinstance(x.exp, Heap) or x.exp.ghost is not None for x in (a, b))
                if clean:
                    cs = [True if self.same(x, y) else self._eq(x, y, strict) for x, y in zip(a.args, b.args)]
                    f = zand(cs)
                    if z3.is_true(f) or strict and self.check([znot(f)], self.FEAS_MS)[0] == z3.unsat:
                        return True
            if strict and isinstance(a, SApp) and not isinstance(b, SApp) and isinstance(b, Heap) and b.ghost is not None and b.ghost[0] == a.fn.__name__:
                f = zand([self._eq(x, y, strict) for x, y in zip(a.args, b.ghost[1])])
                if self.check([znot(f)], self.FEAS_MS)[0] == z3.unsat:
                    return True
            return self._eq_expanded(a, b, strict)
        if isinstance(a, SAny) or isinstance(b, SAny):
            if self.same(a, b):
                return True
            return self._eq_any(a, b, strict)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported(f"comparison with {a} / {b}")
        if self.isstr(a) and self.isstr(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.str_eq(a, b)
        if self.isstr(a) or self.isstr(b):
            return False
        if a is None or b is None:
            return False
        ba = as_text(self, a)
        if ba is not None:
            bb = as_text(self, b)
            if bb is None or strict and self.cls_of(a) is not self.cls_of(b):
                return False
            return self._eq(ba, bb, strict)
        if as_text(self, b) is not None:
            return False
        if self.isint(a) and self.isint(b):
            if strict and (self.cls_of(a) is not self.cls_of(b)):
                return False
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return tb(a) == tb(b)
            return self.zint(a) == self.zint(b)
        if self.isint(a) or self.isint(b):
            return False
        if isinstance(a, Obj) and type(b) is a.cls or isinstance(b, Obj) and type(a) is b.cls or isinstance(a, Obj) and isinstance(b, Obj):
            cls = a.cls if isinstance(a, Obj) else b.cls
            if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is not b.cls:
                return False
            if dataclasses.is_dataclass(cls):
                cs = []
                for f in dataclasses.fields(cls):
                    if not f.compare and (not strict or f.name == "linepos"):
                        continue
                    c = self._eq(self.getattr(a, f.name), self.getattr(b, f.name), strict)
                    if c is False:
                        return False
                    cs.append(c)
                r = zand(cs)
                return True if z3.is_true(r) else r
            if strict and issubclass(cls, BaseException):
                return True
            return False
        if isinstance(a, Obj) or isinstance(b, Obj):
            return False
        a, b = self.as_set(a), self.as_set(b)
        sa, sb = self._seqkind(a), self._seqkind(b)
        if sa and sb:
            if sa != sb:
                return False
            return self.seq_eq(self._seqchunks(a), self._seqchunks(b), strict)
        if isinstance(a, LDict) and isinstance(b, LDict):
            return self.dict_eq(a, b, strict)
        if isinstance(a, LSet) and isinstance(b, LSet):
            return self.set_eq(a, b, strict)
        if self.is_native(a) and self.is_native(b):
            return a == b
        if isinstance(a, (LDict, LSeq, LSet)) != isinstance(b, (LDict, LSeq, LSet)):
            na, nb = self.from_native(a), self.from_native(b)
            if type(na) is type(nb):
                return self._eq(na, nb, strict)
            return False
        if isinstance(a, Heap) and isinstance(b, Heap):
            return False
        raise Unsupported(f"comparison of {type(a)} and {type(b)}")

    def _eq_expanded(self, a, b, strict):
        """compare under every path of the expansion, merged into one formula"""

        def run():
            return self._eq(self.resolve(a) if isinstance(a, SApp) else a, self.resolve(b) if isinstance(b, SApp) else b, strict)

        outs = self.explore(run)
        cs = []
        for o in outs:
            if o.kind != "normal":
                raise Unsupported("specification function raises in a comparison")
            cs.append(zimp(o.pc, tb(o.value)))
        r = zand(cs)
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def _seqkind(self, v):
        if isinstance(v, tuple):
            return "tuple"
        if isinstance(v, LSeq):
            return v.kind
        return None

    def _seqchunks(self, v):
        if isinstance(v, tuple):
            return [("item", x) for x in v]
        self.note_read(v.stamp, ("heap", id(v)))
        return v.chunks

    def _eq_any(self, a, b, strict):
        if isinstance(a, SAny) and isinstance(b, SAny) and a.path == b.path:
            # same union type: compare by tags
            alts = []
            ta = self.uf(a.path + ".tag", a.args, I)
            tb_ = self.uf(b.path + ".tag", b.args, I)
            for i in range(len(a.opts)):
                e = self._eq(self.opt(a, i), self.opt(b, i), strict)
                if e is not False:
                    alts.append(zand([tag_is(ta, i, len(a.opts)), tag_is(tb_, i, len(b.opts)), e]))
            return zor(alts)
        if not isinstance(a, SAny):
            a, b = b, a
        alts = []
        ta = self.uf(a.path + ".tag", a.args, I)
        for i in range(len(a.opts)):
            ti = tag_is(ta, i, len(a.opts))
            if not self.feasible(ti):
                continue
            try:
                e = self._eq(self.opt(a, i), b, strict)
            except Unsupported:
                if not isinstance(self.opt(a, i), Opaque):
                    raise
                e = self.fresh("opaque_eq", B)
            if e is not False:
                alts.append(zand([ti, e]))
        r = zor(alts)
        return False if z3.is_false(r) else r

    def str_eq(self, a, b):
        from .strings import merge_parts

        pa = merge_parts(self, a.pieces) if isinstance(a, SStr) else [a]
        pb = merge_parts(self, b.pieces) if isinstance(b, SStr) else [b]
        # strip common prefix / suffix
        conds = []
        while pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                pa[0], pb[0] = x[n:], y[n:]
                if pa[0] == "":
                    pa.pop(0)
                if pb[0] == "":
                    pb.pop(0)
                continue
            if z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
                pa.pop(0)
                pb.pop(0)
                continue
            if isinstance(x, JoinPiece) and isinstance(y, JoinPiece) and x.sep == y.sep and x.chunk.base.key() == y.chunk.base.key():
                f = self.chunk_eq_prove(x.chunk, y.chunk)
                r, _ = self.check([znot(f)], self.PROVE_MS)
                if r == z3.unsat:
                    pa.pop(0)
                    pb.pop(0)
                    continue
            break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                pa[-1], pb[-1] = x[:-n], y[:-n]
                if pa[-1] == "":
                    pa.pop()
                if pb[-1] == "":
                    pb.pop()
                continue
            if z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
                pa.pop()
                pb.pop()
                continue
            break
        if not pa and not pb:
            return True
        if any(isinstance(x, JoinPiece) for x in pa + pb):
            qa, qb = self.unjoin(pa), self.unjoin(pb)
            if qa is not None or qb is not None:
                return self.str_eq(*(mkstr(p if q is None else q) for p, q in ((pa, qa), (pb, qb))))
        A, Bb = mkstr(pa), mkstr(pb)
        return self.zstr(A) == self.zstr(Bb)

    def unjoin(self, pieces):
        """pieces without the joined parts that have no or just one element, None if there are none"""
        out, found = [], False
        for p in pieces:
            if isinstance(p, JoinPiece):
                if not self._possible(p.chunk):
                    found = True
                    continue
                b = p.chunk.base
                if b.kind == "list" and p.chunk.upto is None and self.prove_quick(self.blen(b) == 1):
                    var, guard, alts = self.chunk_generic(p.chunk)
                    zero = z3.IntVal(0)
                    if len(alts) == 1 and self.prove_quick(z3.substitute(alts[0][0], (var, zero))) and not any(isinstance(x, Nested) for x in alts[0][1]):
                        for n, x in enumerate(alts[0][1]):
                            out += [p.sep] * (n > 0) + [self.vsubst(x, var, zero)]
                        found = True
                        continue
            out.append(p)
        return out if found else None

    def seq_eq(self, ca, cb, strict):
        """equality of two chunk lists"""
        ca, cb = list(ca), list(cb)
        conds = []
        while ca or cb:
            a = ca[0] if ca else None
            b = cb[0] if cb else None
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return False
                for x, y in zip(a[1:], b[1:]):
                    e = self._eq(x, y, strict)
                    if e is False:
                        return False
                    conds.append(e)
                ca.pop(0)
                cb.pop(0)
                continue
            if isinstance(a, SymChunk) and isinstance(b, SymChunk) and a.base.path == b.base.path:
                conds.append(self.chunk_eq(a, b, strict))
                ca.pop(0)
                cb.pop(0)
                continue
            # one of the symbolic chunks has to be empty
            if isinstance(a, SymChunk) and (not isinstance(b, SymChunk) or not self._possible(a)):
                conds.append(znot(self.nonempty(a)))
                ca.pop(0)
                continue
            if isinstance(b, SymChunk) and (not isinstance(a, SymChunk) or not self._possible(b)):
                conds.append(znot(self.nonempty(b)))
                cb.pop(0)
                continue
            if isinstance(a, SymChunk) and isinstance(b, SymChunk):
                if strict:
                    # provable only if both are empty
                    conds.append(znot(self.nonempty(a)))
                    ca.pop(0)
                    continue
                one = lambda c: c.base.kind == "list" and c.upto is None and (c.alts is None or len(c.alts) == 1 and z3.is_true(c.alts[0][0]) and len(c.alts[0][1]) == 1 and not isinstance(c.alts[0][1][0], Nested))
                if len(ca) == 1 and len(cb) == 1 and one(a) and one(b):
                    var = self.fresh("i@eq", I)
                    self.instantiate(a.base, var)
                    self.instantiate(b.base, var)
                    npc = len(self.pcs)
                    e = self._eq(self.chunk_at(a, var)[0][1][0], self.chunk_at(b, var)[0][1][0], strict)
                    if len(self.pcs) != npc:
                        raise Unsupported("comparison of sequences that depends on an element")
                    n = self.blen(a.base)
                    conds.append(n == self.blen(b.base))
                    if not z3.is_true(tb(e)):
                        conds.append(z3.ForAll([var], z3.Implies(z3.And(var >= 0, var < n), tb(e))))
                    ca.pop(0)
                    cb.pop(0)
                    continue
                raise Unsupported("comparison of unrelated symbolic sequences")
            return False
        r = zand(conds)
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def _possible(self, ch):
        return self.feasible(self.nonempty(ch))

    def chunk_eq(self, a, b, strict):
        if strict:
            return self.chunk_eq_prove(a, b)
        var, guard, alts = self.chunk_generic(a)
        body = self._alts_eq(a, b, var, guard, alts, strict)
        return z3.ForAll([var], zimp(guard, body)) if not z3.is_true(tb(body)) else TRUE

    def chunk_eq_prove(self, a, b):
        var, guard, alts = self.chunk_generic(a)
        return zimp(guard, self._alts_eq(a, b, var, guard, alts, True))

    def _alts_eq(self, a, b, var, guard, alts, strict):
        conds = []
        if (a.upto is None) != (b.upto is None):
            raise Unsupported("prefix of a loop compared")
        if a.upto is not None:
            conds.append(a.upto == b.upto)
        for x, y in zip(a.base.args, b.base.args):
            if not x.eq(y):
                conds.append(x == y)
        other = self.chunk_at(SymChunk(b.base, b.var, b.alts), var) if b.alts is not None else [(TRUE, [self.base_elem(b.base, var)])]
        for n_a, (pa, ia) in enumerate(alts):
            candidates = other
            if len(alts) == len(other) > 2 and not z3.is_true(pa) and self.check([guard, pa, znot(other[n_a][0])])[0] == z3.unsat:
                candidates = [other[n_a]]  # the alternatives exclude each other
            for pb, ib in candidates:
                both = zand([pa, pb])
                if z3.is_false(both):
                    continue
                if not z3.is_true(both):
                    r, _ = self.check([guard, both])
                    if r == z3.unsat:
                        continue
                # evaluate the comparison under the path conditions
                if self.ewrites:  # reading elements may fork
                    def one(ia=ia, ib=ib, both=both):
                        self.pcs.append(both)
                        return self.seq_eq([self._unnest(x) for x in ia], [self._unnest(x) for x in ib], strict)

                    self.pcs.append(guard)
                    try:
                        e = zand([zimp(o.pc, tb(o.value)) for o in self.explore(one)])
                    finally:
                        self.pcs.pop()
                    if z3.is_true(e):
                        continue
                    conds.append(e)
                    continue
                n = len(self.pcs)
                self.pcs += [guard, both]
                try:
                    e = self.seq_eq([self._unnest(x) for x in ia], [self._unnest(x) for x in ib], strict)
                finally:
                    del self.pcs[n:]
                if e is True:
                    continue
                conds.append(zimp(both, e))
        return zand(conds)

    def _unnest(self, x):
        return x.chunk if isinstance(x, Nested) else ("item", x)

    def dict_eq(self, a, b, strict):
        if a.concrete() and b.concrete():
            # order-insensitive for concrete keys
            ka, kb = a.chunks, b.chunks
            if all(self.is_native(c[1]) for c in ka) and all(self.is_native(c[1]) for c in kb):
                da = {c[1]: c[2] for c in ka}
                db = {c[1]: c[2] for c in kb}
                if da.keys() != db.keys():
                    return False
                cs = []
                for k in da:
                    e = self._eq(da[k], db[k], strict)
                    if e is False:
                        return False
                    cs.append(e)
                r = zand(cs)
                return True if z3.is_true(r) else r
            if len(ka) != len(kb):
                return False
            if not strict and len(ka) > 1:
                fs = []
                for x in ka:
                    es = []
                    for y in kb:
                        e = self.py_eq(x[1], y[1])
                        if e is not False:
                            v = self._eq(x[2], y[2], strict)
                            if v is not False:
                                es.append(zand([tb(e), tb(v)]))
                    fs.append(zor(es))
                r = zand(fs)
                return True if z3.is_true(r) else r
        return self.seq_eq(a.chunks, b.chunks, strict)

    def set_eq(self, a, b, strict):
        if a.concrete() and b.concrete():
            xa, xb = [c[1] for c in a.chunks], [c[1] for c in b.chunks]
            if all(self.is_native(x) for x in xa + xb):
                return set(xa) == set(xb)
            return self.mutual(xa, xb)
        sym = [c for c in a.chunks if not isinstance(c, tuple)]
        if len(sym) == 1 and len(a.chunks) > 1 and len(b.chunks) > 1:
            # one symbolic part in both, and more elements
            other = [c for c in b.chunks if not isinstance(c, tuple)]
            if len(other) == 1 and sym[0].base.key() == other[0].base.key() and sym[0].alts is None and other[0].alts is None:
                f = self.mutual([c[1] for c in a.chunks if isinstance(c, tuple)], [c[1] for c in b.chunks if isinstance(c, tuple)])
                if f is True or self.prove(tb(f))[0] == "proved":
                    return True
                raise Unsupported("comparison of sets")
        return self.seq_eq(a.chunks, b.chunks, strict)

    def mutual(self, xs, ys):
        """every element of each is in the other"""
        fs = []
        for a, b in ((xs, ys), (ys, xs)):
            for x in a:
                es = [self.py_eq(x, y) for y in b]
                if not any(e is True for e in es):
                    fs.append(zor([tb(e) for e in es if e is not False]))
        return zand(fs) if fs else True

    # ---------------------------------------------------------------- types of results
    def not_of_type(self, v, t):
        """why the value is not of the type, or None"""
        if isinstance(v, SAny):
            if isinstance(t, T.TUnion) and {repr(o) for o in v.opts} <= {repr(o) for o in t.opts}:
                return None
            v = self.resolve(v)
        v = self.resolve(v)
        if isinstance(t, T.TJson):
            return None
        if isinstance(t, T.TUnion):
            whys = []
            for o in t.opts:
                w = self.not_of_type(v, o)
                if w is None:
                    return None
                whys.append(w)
            return whys[0] if len(set(whys)) == 1 else f"{v!r} is not of type {t}"
        ok = None
        if isinstance(t, T.TStr):
            ok = self.isstr(v)
        elif isinstance(t, T.TBool):
            ok = isinstance(v, (bool, SBool))
        elif isinstance(t, T.TInt):
            ok = self.isint(v)
        elif isinstance(t, T.TLit):
            ok = type(v) is type(t.value) and v == t.value if not isinstance(v, (Sym, Heap)) else None
            if ok is None:
                ok = isinstance(v, (SStr, SInt, SBool)) and self.prove(tb(self.py_eq(v, t.value)))[0] == "proved"
        elif isinstance(t, T.TCls):
            if not isinstance(v, Obj) or not issubclass(v.cls, t.cls):
                ok = False
            elif v.origin is not None and not v.dirty or not dataclasses.is_dataclass(v.cls):
                ok = True
            else:
                tc = v.tcls or T.TCls(v.cls, t.over)
                for f in dataclasses.fields(v.cls):
                    try:
                        ft = T.field_type(tc, f.name)
                    except (TypeError, KeyError):
                        continue
                    if ft.__class__ is T.TJson:
                        continue
                    w = self.not_of_type(self.getattr(v, f.name), ft)
                    if w is not None:
                        return f"{v.cls.__name__}.{f.name}: {w}"
                ok = True
        elif isinstance(t, T.TTuple):
            if not isinstance(v, tuple) or len(v) != len(t.es):
                ok = False
            else:
                return next((w for x, e in zip(v, t.es) if (w := self.not_of_type(x, e)) is not None), None)
        elif isinstance(t, (T.TList, T.TTupleV, T.TSet)):
            want = "tuple" if isinstance(t, T.TTupleV) else "list"
            if isinstance(t, T.TSet):
                if not isinstance(v, LSet):
                    ok = False
            elif self._seqkind(v) not in (want, "iter" if want == "list" else want):
                ok = False
            if ok is None:
                chunks = self._seqchunks(v) if not isinstance(v, LSet) else v.chunks
                return self._chunks_of_type(chunks, lambda x: self.not_of_type(x[0] if isinstance(x, list) else x, t.e), t.e)
        elif isinstance(t, T.TDict):
            if not isinstance(v, LDict):
                ok = False
            else:
                def kv(x):
                    k, x = x
                    return self.not_of_type(k, t.k) or self.not_of_type(x, t.v)

                for c in v.chunks:
                    if isinstance(c, tuple):
                        w = kv(c[1:])
                    elif c.alts is None and repr(c.base.v) == repr(t.v) and (repr(c.base.k) == repr(t.k)):
                        w = None
                    else:
                        w = self._generic_of_type(c, kv)
                    if w is not None:
                        return w
                return None
        else:
            raise Unsupported(f"type test {t}")
        return None if ok else f"{v!r} is not of type {t}"[:400]

    def _chunks_of_type(self, chunks, test, e):
        for c in chunks:
            if isinstance(c, tuple):
                w = test(c[1])
            elif c.alts is None and repr(c.base.v) == repr(e):
                w = None
            else:
                w = self._generic_of_type(c, test)
            if w is not None:
                return w
        return None

    def _generic_of_type(self, c, test):
        var, guard, alts = self.chunk_generic(c)
        for pc, items in alts:
            for x in items:
                if isinstance(x, Nested):
                    w = self._generic_of_type(x.chunk, test)
                    if w is not None:
                        return w
                    continue

                def one():
                    self.assume(guard)
                    self.assume(pc)
                    return test(x)

                for o in self.explore(one):
                    if o.kind == "normal" and o.value is not None:
                        return o.value
        return None

    # ---------------------------------------------------------------- proving
    def prove_quick(self, formula):
        formula = z3.simplify(tb(formula))
        if z3.is_true(formula):
            return True
        if z3.is_false(formula):
            return False
        return self.check([znot(formula)], self.FEAS_MS)[0] == z3.unsat

    def prove(self, formula):
        """-> (status, info): 'proved' | 'refuted' | 'unknown'"""
        formula = tb(formula)
        if z3.is_true(formula):
            return "proved", None
        r, s = self.check([znot(formula)], self.FEAS_MS)
        if r != z3.unsat:
            r, s = self.check([znot(formula)], self.PROVE_MS, models=True)
        if r == z3.unsat:
            return "proved", None
        fs = self.axioms + self.heavy + self.pcs + [znot(formula)]
        from .regex import define_res

        full = define_res(fs)
        if full is None and self.heavy:
            full = fs
        if full is not None:
            s = z3.Solver()
            s.set("timeout", self.PROVE_MS)
            s.add(*full)
            t0 = time.time()
            r = s.check()
            self.stats.solver_s += time.time() - t0
            self.stats.queries += 1
            if r == z3.unsat:
                return "proved", None
            fs = full
        if r == z3.unknown:
            self.stats.unknown += 1
            from .cvc5_backend import cvc5_unsat

            if cvc5_unsat(fs, self.PROVE_MS):
                self.stats.cvc5 += 1
                return "proved", None
            return "unknown", None
        if s is None:
            s = z3.Solver()
            s.set("timeout", self.PROVE_MS)
            s.add(*fs)
            s.check()
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
        return "refuted", m

    # ---------------------------------------------------------------- attributes
    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                if c in (object, BaseException, Exception):
                    return MISSING
                if c.__module__ in ("typing", "builtins") and not issubclass(c, BaseException):
                    return MISSING
                return c.__dict__[name]
        return MISSING

    def getattr(self, v, name):
        v = self.resolve(v)
        if isinstance(v, Obj):
            f = self.getfield(v, name)
            if f is not MISSING:
                return f
            a = self.class_attr(v.cls, name)
            if a is not MISSING:
                if isinstance(a, pytypes.FunctionType):
                    return BoundM(v, a)
                if isinstance(a, property):
                    return self.call(a.fget, [v], {})
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return BoundM(v.cls, a.__func__)
                return self.from_native(a)
            if name == "__class__":
                return v.cls
            self.raise_(AttributeError, name)
        if isinstance(v, DDRef):
            return BoundM(v, None, name)
        if isinstance(v, (SBytes, bytes, bytearray)):
            if not hasattr(bytes, name):
                self.raise_(AttributeError, name)
            return BoundM(v, None, name)
        if isinstance(v, (SStr, str)):
            if not hasattr(str, name):
                self.raise_(AttributeError, name)
            return BoundM(v, None, name)
        if isinstance(v, (LSeq, LDict, LSet, tuple)):
            cls = self.cls_of(v)
            if not hasattr(cls, name):
                self.raise_(AttributeError, name)
            return BoundM(v, None, name)
        if isinstance(v, (SInt, SBool)):
            if not hasattr(int, name):
                self.raise_(AttributeError, name)
            return BoundM(v, None, name)
        if isinstance(v, Closure):
            raise Unsupported(f"attribute {name} of a function")
        if isinstance(v, Poison):
            raise NeedInvariant(f"value of {v.name} after a loop")
        if isinstance(v, Opaque):
            if v.why.startswith("float"):
                if not hasattr(float, name):
                    self.raise_(AttributeError, name)
            raise Unsupported(f"attribute {name} of {v}")
        if isinstance(v, type) and name in v.__dict__ and isinstance(v.__dict__[name], classmethod):
            return BoundM(v, v.__dict__[name].__func__)
        try:
            r = getattr(v, name)
        except AttributeError as e:
            self.raise_(AttributeError, str(e))
        return self.from_native(r)

    def setattr(self, v, name, value):
        v = self.resolve(v)
        if isinstance(v, Obj):
            self.set_attr_raw(v, name, value)
            return
        raise Unsupported(f"attribute assignment on {type(v)}")


