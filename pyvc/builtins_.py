"""Builtin functions and container methods (trusted models of CPython semantics)."""
from __future__ import annotations
import builtins, copy, dataclasses, enum, inspect, itertools, types as pytypes, typing
import z3
from . import types as T
from .values import *
from .interp import Interp
from .world import SBytes, bytes_method


RANGE_ITEM = T.TConst(lambda vm, path, args: SInt(args[-1]))


def install(vm):
    from .engine import zand, zor, znot, tb, zimp

    M = vm.models

    def model(f):
        def deco(g):
            M[f] = g
            return g

        return deco

    @model(len)
    def _len(vm, a, k):
        v = vm.resolve(a[0])
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, SStr):
            return SInt(z3.Length(vm.zstr(v)))
        if isinstance(v, LSeq):
            return vm.seq_len(v)
        if isinstance(v, LDict):
            vm.note_read(v.stamp, ("heap", id(v)))
            if v.concrete():
                return len(v.chunks)
            return vm.seq_len(LSeq("list", vm.chunks_of(v)))
        if isinstance(v, LSet):
            vm.note_read(v.stamp, ("heap", id(v)))
            if v.concrete():
                return len(v.chunks)
            raise Unsupported("len of a symbolic set")
        if isinstance(v, Obj):
            m = vm.class_attr_m(v.cls, "__len__")
            if m is not None:
                return vm.call(BoundM(v, m), [], {})
        if v is None or isinstance(v, (int, SInt, SBool)) or isinstance(v, Opaque) and v.why.startswith("float"):
            vm.raise_(TypeError, "len")
        return vm.native_call(len, a, k)

    @model(isinstance)
    def _isinstance(vm, a, k):
        v = vm.resolve(a[0])
        c = a[1]
        if isinstance(c, pytypes.UnionType):
            c = c.__args__
        if isinstance(c, LSeq):
            c = tuple(c.items())
        cls = vm.cls_of(v)
        cs = c if isinstance(c, tuple) else (c,)
        cs = tuple(typing.get_origin(x) or x for x in cs)
        return issubclass(cls, cs)

    @model(issubclass)
    def _issubclass(vm, a, k):
        return issubclass(a[0], a[1])

    @model(type)
    def _type(vm, a, k):
        return vm.cls_of(vm.resolve(a[0]))

    @model(id)
    def _id(vm, a, k):
        return id(a[0])

    @model(bool)
    def _bool(vm, a, k):
        if not a:
            return False
        t = vm.truth(a[0])
        return t if isinstance(t, bool) else SBool(t)

    @model(str)
    def _str(vm, a, k):
        if not a:
            return ""
        return vm.str_(a[0])

    @model(repr)
    def _repr(vm, a, k):
        return vm.repr_(a[0])

    @model(int)
    def _int(vm, a, k):
        v = vm.resolve(a[0]) if a else 0
        if isinstance(v, SInt):
            return v
        if isinstance(v, SBool):
            return SInt(vm.zint(v))
        if isinstance(v, SStr):
            from .strings import str_to_int

            return str_to_int(vm, v, a[1:], k)
        return vm.native_call(int, [v] + a[1:], k)

    @model(print)
    def _print(vm, a, k):
        return None

    @model(hash)
    def _hash(vm, a, k):
        raise Unsupported("hash")

    @model(list)
    def _list(vm, a, k):
        s = LSeq("list")
        if a:
            s.chunks = vm.chunks_of(a[0])
        return s

    @model(tuple)
    def _tuple(vm, a, k):
        if not a:
            return ()
        v = vm.resolve(a[0])
        if isinstance(v, tuple):
            return v
        ch = vm.chunks_of(v)
        if all(isinstance(c, tuple) for c in ch):
            return tuple(c[1] for c in ch)
        return LSeq("tuple", ch)

    @model(set)
    def _set(vm, a, k):
        s = LSet()
        if a:
            v = vm.resolve(a[0])
            ch = list(v.chunks) if isinstance(v, LSet) else vm.chunks_of(v)
            if all(isinstance(c, tuple) for c in ch):
                for c in ch:
                    vm.set_add(s, c[1])
            else:
                s.chunks = ch
        return s

    M[frozenset] = _set

    @model(dict)
    def _dict(vm, a, k):
        d = LDict()
        if a:
            v = vm.resolve(a[0])
            if isinstance(v, LDict):
                vm.note_read(v.stamp, ("heap", id(v)))
                d.chunks = list(v.chunks)
            else:
                for c in vm.chunks_of(v):
                    if isinstance(c, tuple):
                        kv = vm.unpack(c[1], [None, None])
                        vm.dict_put(d, kv[0], kv[1])
                    else:
                        d.chunks.append(vm.map_items(c, lambda kv: tuple(vm.unpack(kv, [None, None]))))
        for kk, vv in k.items():
            vm.dict_put(d, kk, vv)
        return d

    @model(any)
    def _any(vm, a, k):
        return quant(vm, a[0], False)

    @model(all)
    def _all(vm, a, k):
        return quant(vm, a[0], True)

    def quant(vm, it, isall):
        conds = []
        for c in vm.chunks_of(it):
            if isinstance(c, tuple):
                t = vm.truth(c[1])
                if t is (not isall):
                    return not isall
                if t is isall:
                    continue
                conds.append(t)
            else:
                conds.append(quant_chunk(vm, c, isall))
        r = zand(conds) if isall else zor(conds)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SBool(r)

    def quant_chunk(vm, c, isall):
        var, guard, alts = vm.chunk_generic(c)
        parts = []
        for pc, items in alts:
            ts = []
            for x in items:
                if isinstance(x, Nested):
                    ts.append(quant_chunk(vm, x.chunk, isall))
                else:
                    n = len(vm.pcs)
                    vm.pcs += [guard, pc]
                    try:
                        ts.append(tb(vm.truth(x)))
                    finally:
                        del vm.pcs[n:]
            parts.append((pc, zand(ts) if isall else zor(ts)))
        if isall:
            body = zand([zimp(pc, t) for pc, t in parts])
            if z3.is_true(body):
                return body
            return z3.ForAll([var], zimp(guard, body))
        body = zor([zand([pc, t]) for pc, t in parts])
        if z3.is_false(body):
            return body
        return z3.Exists([var], z3.And(guard, body))

    @model(next)
    def _next(vm, a, k):
        v = vm.resolve(a[0])
        if isinstance(v, Obj):
            m = vm.class_attr_m(v.cls, "__next__")
            return vm.call(BoundM(v, m), [], {})
        if not isinstance(v, LSeq) or v.kind != "iter":
            raise Unsupported("next on a non-generator")
        dflt = a[1] if len(a) > 1 else MISSING
        chunks = list(v.chunks)
        for i, c in enumerate(chunks):
            if isinstance(c, tuple):
                if c[0] == "raise":
                    vm.seq_replace(v, [])
                    raise PyRaise(c[1])
                vm.seq_replace(v, chunks[i + 1 :])
                return c[1]
            if vm.branch(vm.nonempty(c)):
                # the first element that contributes an item
                w = vm.fresh("w@" + c.base.path, z3.StringSort() if c.base.kind == "dict" else z3.IntSort())
                vm.instantiate(c.base, w)
                vm.assume(vm.guard_of(c, w))
                alts = vm.chunk_at(c, w)
                have = [(pc, it) for pc, it in alts if it]
                if any(isinstance(x, Nested) for _, it in have for x in it):
                    raise Unsupported("next over a nested sequence")
                vm.assume(zor([pc for pc, _ in have]))
                if c.base.kind != "dict":
                    var, guard, galts = vm.chunk_generic(c)
                    cond = zor([pc for pc, it in galts if it])
                    vm.add_forall(c.base, var, zimp(z3.And(guard, var < w), znot(cond)))
                j = vm.choose([pc for pc, _ in have]) if len(have) > 1 else 0
                vm.seq_replace(v, [("item", Opaque("rest of an iterator"))])
                return have[j][1][0]
        vm.seq_replace(v, [])
        if dflt is not MISSING:
            return dflt
        vm.raise_(StopIteration)

    @model(iter)
    def _iter(vm, a, k):
        if len(a) != 1:
            raise Unsupported("iter with sentinel")
        v = vm.resolve(a[0])
        if isinstance(v, LSeq) and v.kind == "iter":
            return v
        return LSeq("iter", vm.chunks_of(v))

    @model(enumerate)
    def _enumerate(vm, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        out = LSeq("iter")
        n = start
        chunks = vm.chunks_of(a[0])
        for i, c in enumerate(chunks):
            if isinstance(c, tuple):
                out.chunks.append(("item", (n, c[1])))
                n = vm.arith("+", n, 1)
            else:
                if c.base.kind == "list" and (c.alts is None or all(len(it) == 1 for _, it in c.alts)):
                    var, guard, alts = vm.chunk_generic(c)
                    out.chunks.append(SymChunk(c.base, var, [(pc, [(vm.arith("+", n, SInt(var)), it[0])]) for pc, it in alts], c.upto))
                    n = vm.arith("+", n, vm.chunk_len(c))
                else:
                    raise Unsupported("enumerate")
        return out

    @model(zip)
    def _zip(vm, a, k):
        seqs = [vm.chunks_of(x) for x in a]
        out = LSeq("iter")
        while all(seqs):
            heads = [s[0] for s in seqs]
            if all(isinstance(h, tuple) for h in heads):
                out.chunks.append(("item", tuple(h[1] for h in heads)))
                for s in seqs:
                    s.pop(0)
                continue
            if all(isinstance(h, SymChunk) for h in heads) and len({h.base.key() for h in heads}) == 1 and all(h.alts is None or all(len(i) == 1 for _, i in h.alts) for h in heads):
                var, guard, alts0 = vm.chunk_generic(heads[0])
                rows = [(pc, [i[0]]) for pc, i in alts0]
                for h in heads[1:]:
                    nr = []
                    for pc2, i2 in vm.chunk_at(h, var):
                        for pc, r in rows:
                            nr.append((zand([pc, pc2]), r + [i2[0]]))
                    rows = nr
                out.chunks.append(SymChunk(heads[0].base, var, [(pc, [tuple(r)]) for pc, r in rows]))
                for s in seqs:
                    s.pop(0)
                continue
            raise Unsupported("zip of unrelated sequences")
        return out

    @model(map)
    def _map(vm, a, k):
        if len(a) != 2:
            raise Unsupported("map")
        out = LSeq("iter")
        vm.iterate(a[1], lambda v: vm.seq_append(out, ("item", vm.call(a[0], [v], {}))))
        return out

    @model(filter)
    def _filter(vm, a, k):
        out = LSeq("iter")

        def body(v):
            if vm.istrue(v if a[0] is None else vm.call(a[0], [v], {})):
                vm.seq_append(out, ("item", v))

        vm.iterate(a[1], body)
        return out

    @model(reversed)
    def _reversed(vm, a, k):
        ch = vm.chunks_of(a[0])
        if all(isinstance(c, tuple) for c in ch):
            return LSeq("iter", list(reversed(ch)))
        raise Unsupported("reversed of a symbolic sequence")

    @model(sorted)
    def _sorted(vm, a, k):
        ch = vm.chunks_of(a[0])
        key = k.get("key")
        if len(ch) <= 1 and all(isinstance(c, tuple) for c in ch):
            return LSeq("list", ch)
        if all(isinstance(c, tuple) for c in ch):
            items = [c[1] for c in ch]
            keys = [vm.call(key, [x], {}) if key is not None else x for x in items]
            if all(vm.is_native(x) for x in keys):
                idx = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(k.get("reverse", False)))
                return LSeq("list", [("item", items[i]) for i in idx])
            if k.get("reverse"):
                raise Unsupported("sorted reverse")
            # insertion sort by forking
            out = []
            for x, kx in zip(items, keys):
                i = len(out)
                while i > 0 and vm.branch(vm.key_lt(kx, out[i - 1][1])):
                    i -= 1
                out.insert(i, (x, kx))
            return LSeq("list", [("item", x) for x, _ in out])
        raise Unsupported("sorted of a symbolic sequence")

    @model(range)
    def _range(vm, a, k):
        try:
            return LSeq("list", [("item", i) for i in range(*[vm.to_native(x) for x in a])])
        except Unsupported:
            if vm.bounded is not None or k or len(a) > 1 and not (len(a) == 2 and a[0] == 0):
                raise Unsupported("range with symbolic bounds")
            n = z3.simplify(vm.zint(vm.resolve(a[-1])))
            base = Base("list", "range", (n,), None, RANGE_ITEM, "")
            vm.axiom(vm.blen(base) == z3.If(n > 0, n, 0))
            return LSeq("list", [SymChunk(base)])

    @model(sum)
    def _sum(vm, a, k):
        env = Env(None, {})
        env.vars["s"] = a[1] if len(a) > 1 else 0

        def body(v):
            vm._aug(env.vars["s"], "+", v, env, "s", ("var", id(env), "s"), env.stamp, lambda x: vm.set_var(env, "s", x))

        vm.iterate(a[0], body)
        return env.vars["s"]

    def minmax(name):
        f = getattr(builtins, name)

        def g(vm, a, k):
            if k:
                raise Unsupported(name)
            items = [vm.resolve(x) for x in (a if len(a) > 1 else [c[1] for c in vm.chunks_of(a[0]) if isinstance(c, tuple)])]
            if len(a) == 1 and any(not isinstance(c, tuple) for c in vm.chunks_of(a[0])):
                raise Unsupported(name)
            if all(vm.is_native(x) for x in items):
                return vm.native_call(f, [tuple(items)], {})
            r = vm.zint(items[0])
            for x in items[1:]:
                y = vm.zint(x)
                r = z3.If(y < r, y, r) if name == "min" else z3.If(y > r, y, r)
            return SInt(r)

        return g

    M[min] = minmax("min")
    M[max] = minmax("max")

    @model(getattr)
    def _getattr(vm, a, k):
        if not isinstance(a[1], str):
            raise Unsupported("getattr")
        if len(a) == 2:
            return vm.getattr(a[0], a[1])
        try:
            return vm.getattr(a[0], a[1])
        except PyRaise as e:
            if issubclass(e.value.cls, AttributeError):
                return a[2]
            raise

    @model(hasattr)
    def _hasattr(vm, a, k):
        try:
            vm.getattr(a[0], a[1])
            return True
        except PyRaise as e:
            if issubclass(e.value.cls, AttributeError):
                return False
            raise

    @model(callable)
    def _callable(vm, a, k):
        return isinstance(a[0], (Closure, BoundM)) or callable(a[0])

    @model(typing.cast)
    def _cast(vm, a, k):
        return a[1]

    @model(abs)
    def _abs(vm, a, k):
        v = vm.resolve(a[0])
        if isinstance(v, SInt):
            return SInt(z3.If(v.t >= 0, v.t, -v.t))
        return abs(v)

    @model(ord)
    def _ord(vm, a, k):
        if isinstance(a[0], str):
            return vm.native_call(ord, a, k)
        return SInt(z3.StrToCode(vm.zstr(a[0])))

    @model(chr)
    def _chr(vm, a, k):
        if isinstance(a[0], int):
            return vm.native_call(chr, a, k)
        return SStr((z3.StrFromCode(vm.zint(a[0])),))

    @model(copy.deepcopy)
    def _deepcopy(vm, a, k):
        return deep(vm, a[0], {})

    def deep(vm, v, memo):
        v = vm.resolve(v) if isinstance(v, SAny) else v
        if isinstance(v, tuple):
            return tuple(deep(vm, x, memo) for x in v)
        if not isinstance(v, Heap) or isinstance(v, Closure):
            return v
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Obj):
            if dataclasses.is_dataclass(v.cls):
                o = Obj(v.cls, {})
                memo[id(v)] = o
                for f in dataclasses.fields(v.cls):
                    o.fields[f.name] = deep(vm, vm.getattr(v, f.name), memo)
                return o
            raise Unsupported("deepcopy of an object")
        if isinstance(v, (LSeq, LDict, LSet)):
            r = LSeq(v.kind) if isinstance(v, LSeq) else LDict() if isinstance(v, LDict) else LSet()
            memo[id(v)] = r
            for c in v.chunks:
                if isinstance(c, tuple):
                    r.chunks.append(("item",) + tuple(deep(vm, x, memo) for x in c[1:]))
                else:
                    # elements are equal to the originals; they are fresh objects that nobody else refers to
                    r.chunks.append(c)
            return r
        raise Unsupported("deepcopy")

    @model(copy.copy)
    def _copy(vm, a, k):
        v = vm.resolve(a[0])
        if isinstance(v, Obj):
            o = Obj(v.cls, {})
            for f in dataclasses.fields(v.cls):
                o.fields[f.name] = vm.getattr(v, f.name)
            return o
        if isinstance(v, LSeq):
            return LSeq(v.kind, list(v.chunks))
        if isinstance(v, LDict):
            return LDict(list(v.chunks))
        return v

    @model(dataclasses.replace)
    def _replace(vm, a, k):
        o = Obj(a[0].cls, {})
        for f in dataclasses.fields(a[0].cls):
            o.fields[f.name] = k[f.name] if f.name in k else vm.getattr(a[0], f.name)
        return o

    import collections

    @model(collections.defaultdict)
    def _ddict(vm, a, k):
        d = _dict(vm, a[1:], k)
        d.factory = a[0] if a else None
        return d

    from . import strings

    strings.install(vm)


# ---------------------------------------------------------------- methods of builtin containers
def _method(self, o, name, args, kwargs):
    o = self.resolve(o)
    if isinstance(o, (str, SStr)):
        from .strings import str_method

        return str_method(self, o, name, args, kwargs)
    if isinstance(o, (SBytes, bytes, bytearray)) or isinstance(o, LSeq) and o.kind == "bytearray":
        return bytes_method(self, o, name, args, kwargs)
    if isinstance(o, DDRef):
        if name != "append":
            raise Unsupported(f"{name} on a list of a defaultdict")
        self.dict_append(o.d, ("item", o.k, DDVal(args[0])))
        return None
    if isinstance(o, LSeq):
        f = SEQ.get(name)
    elif isinstance(o, LDict):
        f = DICT.get(name)
    elif isinstance(o, LSet):
        f = SET.get(name)
    elif isinstance(o, tuple):
        f = TUP.get(name)
        if f is None and self.is_native(o):
            return self.native_call(getattr(o, name), args, kwargs)
    else:
        f = None
    if f is None:
        raise Unsupported(f"method {name} of {type(o).__name__}")
    return f(self, o, *args, **kwargs)


def _key_lt(self, a, b):
    a, b = self.resolve(a), self.resolve(b)
    if isinstance(a, LSeq) and isinstance(b, LSeq) and a.kind == b.kind and a.concrete() and b.concrete():
        a, b = tuple(a.items()), tuple(b.items())
    if isinstance(a, tuple) and isinstance(b, tuple):
        for i in range(min(len(a), len(b))):
            e = self.py_eq(a[i], b[i])
            if not self.branch(e):
                return self.key_lt(a[i], b[i])
        return len(a) < len(b)
    if self.isstr(a) and self.isstr(b):
        if isinstance(a, str) and isinstance(b, str):
            return a < b
        return self.zstr(a) < self.zstr(b)
    if self.isint(a) and self.isint(b):
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        return self.zint(a) < self.zint(b)
    raise Unsupported("ordering")


Interp.method = _method
Interp.key_lt = _key_lt


def seq_append(vm, o, x):
    vm.seq_append(o, ("item", x))


def seq_extend(vm, o, x):
    vm.extend(o, x)


def seq_insert(vm, o, i, x):
    i = vm.resolve(i)
    if o.concrete():
        if not isinstance(i, int):
            n = len(o.chunks)
            t = vm.zint(i)
            j = vm.choose([t <= 0] + [t == q for q in range(1, n)] + ([t >= n] if n > 0 else []))
            i = j
        ch = list(o.chunks)
        ch.insert(i, ("item", x))
        vm.seq_replace(o, ch)
        return
    if i == 0 and isinstance(i, int):
        vm.seq_replace(o, [("item", x)] + list(o.chunks))
        return
    raise Unsupported("insert into a symbolic list")


def seq_pop(vm, o, i=-1):
    i = vm.resolve(i)
    if not o.concrete() and (not isinstance(i, int) or i >= 0):
        j = vm.locate(o, i)
        if j is not None:
            ch = list(o.chunks)
            c = ch.pop(j)
            vm.seq_replace(o, ch)
            return c[1]
    if not isinstance(i, int):
        raise Unsupported("pop with symbolic index")
    if not o.chunks:
        vm.raise_(IndexError, "pop")
    if isinstance(o.chunks[i if i >= 0 else i], tuple) and (i in (-1, 0) or o.concrete()):
        if not -len(o.chunks) <= i < len(o.chunks):
            vm.raise_(IndexError, "pop")
        ch = list(o.chunks)
        c = ch.pop(i)
        vm.seq_replace(o, ch)
        return c[1]
    raise Unsupported("pop from a symbolic list")


def seq_count(vm, o, x):
    ch = vm._seqchunks(o)
    if not all(isinstance(c, tuple) for c in ch):
        raise Unsupported("count in a symbolic sequence")
    return sum(1 for c in ch if vm.branch(vm.py_eq(c[1], x)))


def seq_clear(vm, o):
    vm.seq_replace(o, [])


def seq_copy(vm, o):
    return LSeq(o.kind, list(o.chunks))


def seq_index(vm, o, x):
    if o.concrete():
        for i, c in enumerate(o.chunks):
            if vm.branch(vm.py_eq(c[1], x)):
                return i
        vm.raise_(ValueError, "not in list")
    raise Unsupported("index in a symbolic list")


def seq_remove(vm, o, x):
    if o.concrete():
        for i, c in enumerate(o.chunks):
            if vm.branch(vm.py_eq(c[1], x)):
                ch = list(o.chunks)
                del ch[i]
                vm.seq_replace(o, ch)
                return
        vm.raise_(ValueError, "not in list")
    raise Unsupported("remove in a symbolic list")


def seq_sort(vm, o, **k):
    r = vm.models[sorted](vm, [o], k)
    vm.seq_replace(o, r.chunks)


def seq_reverse(vm, o):
    if o.concrete():
        vm.seq_replace(o, list(reversed(o.chunks)))
        return
    raise Unsupported("reverse")


SEQ = {"count": seq_count, "append": seq_append, "extend": seq_extend, "insert": seq_insert, "pop": seq_pop, "clear": seq_clear, "copy": seq_copy, "index": seq_index, "remove": seq_remove, "sort": seq_sort, "reverse": seq_reverse}


def tup_index(vm, o, x):
    for i, c in enumerate(o):
        if vm.branch(vm.py_eq(c, x)):
            return i
    vm.raise_(ValueError, "not in tuple")


TUP = {"index": tup_index}


def d_get(vm, o, k, default=None):
    v = vm.dict_lookup(o, k)
    return default if v is MISSING else v


def d_items(vm, o):
    vm.note_read(o.stamp, ("heap", id(o)))
    return LSeq("iter_view", [("item", (c[1], c[2])) if isinstance(c, tuple) else c for c in vm.dict_norm(o)])


def d_keys(vm, o):
    return LSeq("keys_view", vm.chunks_of(o))


def d_values(vm, o):
    vm.note_read(o.stamp, ("heap", id(o)))
    return LSeq("iter_view", [("item", c[2]) if isinstance(c, tuple) else vm.map_items(c, lambda kv: kv[1]) for c in vm.dict_norm(o)])


def d_pop(vm, o, k, default=MISSING):
    v = vm.dict_pop(o, k)
    if v is MISSING:
        if default is MISSING:
            vm.raise_(KeyError, k)
        return default
    return v


def d_setdefault(vm, o, k, default=None):
    v = vm.dict_lookup(o, k)
    if v is MISSING:
        vm.dict_put(o, k, default)
        return default
    return v


def d_update(vm, o, *a, **k):
    if a:
        src = vm.resolve(a[0])
        if isinstance(src, LDict):
            vm.note_read(src.stamp, ("heap", id(src)))
            for c in src.chunks:
                if isinstance(c, tuple):
                    vm.dict_put(o, c[1], c[2])
                else:
                    vm.dict_append(o, c)
        else:
            for c in vm.chunks_of(src):
                if isinstance(c, tuple):
                    kk, vv = vm.unpack(c[1], [None, None])
                    vm.dict_put(o, kk, vv)
                else:
                    vm.dict_append(o, c)
    for kk, vv in k.items():
        vm.dict_put(o, kk, vv)


def d_clear(vm, o):
    vm.dict_replace(o, [])


def d_copy(vm, o):
    return LDict(list(o.chunks))


DICT = {"get": d_get, "items": d_items, "keys": d_keys, "values": d_values, "pop": d_pop, "setdefault": d_setdefault, "update": d_update, "clear": d_clear, "copy": d_copy}


def s_add(vm, o, x):
    vm.set_add(o, x)


def s_update(vm, o, *its):
    for it in its:
        v = vm.resolve(it)
        for c in (list(v.chunks) if isinstance(v, LSet) else vm.chunks_of(v)):
            if isinstance(c, tuple):
                vm.set_add(o, c[1])
            else:
                vm.seq_append_set(o, c)


def s_discard(vm, o, x):
    if o.concrete():
        for i, c in enumerate(o.chunks):
            if vm.branch(vm.py_eq(c[1], x)):
                ch = list(o.chunks)
                del ch[i]
                vm.seq_replace(o, ch)
                return True
        return False
    raise Unsupported("discard")


def s_remove(vm, o, x):
    if not s_discard(vm, o, x):
        vm.raise_(KeyError, x)


def as_bool(f):
    return True if z3.is_true(f) else False if z3.is_false(f) else SBool(f)


def elems(vm, o, it):
    """the elements of `it` as a set or view in which membership can be asked, and those of `o`, which have to be listed"""
    v = vm.resolve(it)
    if not isinstance(v, (LSet, LDict)):
        v = LSeq("list", vm.chunks_of(v))
    return v


def s_filter(vm, o, it, keep):
    """the elements of o that are (keep) or are not in it"""
    v = elems(vm, o, it)
    if not o.concrete():
        raise Unsupported("filter of a symbolic set")
    return LSet([c for c in o.chunks if vm.branch(vm.contains(v, c[1])) is keep])


def s_difference(vm, o, *its):
    for it in its:
        o = s_filter(vm, o, it, False)
    return LSet(list(o.chunks))


def s_intersection(vm, o, *its):
    for it in its:
        o = s_filter(vm, o, it, True)
    return LSet(list(o.chunks))


def s_difference_update(vm, o, *its):
    vm.seq_replace(o, s_difference(vm, o, *its).chunks)


def s_symdiff(vm, o, it):
    v = LSet()
    s_update(vm, v, it)
    r = s_difference(vm, o, v)
    s_update(vm, r, s_difference(vm, v, o))
    return r


def s_subset(vm, o, it):
    v = elems(vm, o, it)
    if not o.concrete():
        raise Unsupported("subset of a symbolic set")
    from .engine import tb, zand

    return as_bool(zand([tb(vm.contains(v, c[1])) for c in o.chunks]))


def s_superset(vm, o, it):
    v = LSet()
    s_update(vm, v, it)
    return s_subset(vm, v, o)


def s_disjoint(vm, o, it):
    v = elems(vm, o, it)
    if not o.concrete():
        raise Unsupported("isdisjoint of a symbolic set")
    from .engine import tb, zand, znot

    return as_bool(zand([znot(tb(vm.contains(v, c[1]))) for c in o.chunks]))


def s_union(vm, o, *its):
    r = LSet(list(o.chunks))
    s_update(vm, r, *its)
    return r


SET = {"add": s_add, "update": s_update, "discard": s_discard, "remove": s_remove, "union": s_union, "difference": s_difference, "intersection": s_intersection, "symmetric_difference": s_symdiff, "difference_update": s_difference_update,
       "issubset": s_subset, "issuperset": s_superset, "isdisjoint": s_disjoint, "copy": lambda vm, o: LSet(list(o.chunks))}
