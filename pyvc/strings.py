"""String operations and regular expressions (trusted models)."""
from __future__ import annotations
import re
from string import Formatter
import z3
from .values import *

S = z3.StringSort()


def install(vm):
    from .match import install as install_match

    install_match(vm)
    M = vm.models
    for fn in ("match", "fullmatch", "search", "sub", "split", "findall", "finditer"):
        def mk(fn):
            def g(vm, a, k):
                pat = a[0]
                if not isinstance(pat, (str, re.Pattern)):
                    raise Unsupported("regex of unknown pattern")
                flags = k.pop("flags", 0)
                return pattern_method(vm, re.compile(pat, flags), fn, a[1:], k)

            return g

        M[getattr(re, fn)] = mk(fn)


def substring(vm, t, a, b, n):
    """t[a:b] for 0 <= a, b <= n"""
    a, b = z3.simplify(a), z3.simplify(b)
    if a.eq(b):
        return ""
    if vm.prove_quick(b >= a):
        return z3.SubString(t, a, z3.simplify(b - a))
    return z3.SubString(t, a, z3.If(b > a, b - a, z3.IntVal(0)))


def extract(p):
    """(t, from, to) of a piece that is a substring"""
    if z3.is_expr(p) and p.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        return p.arg(0), p.arg(1), z3.simplify(p.arg(1) + p.arg(2))
    return None


def merge_parts(vm, pieces):
    """adjacent substrings of one text joined"""
    out = []
    for p in pieces:
        e = extract(p)
        if e and out and extract(out[-1]) is not None:
            t, a, b = extract(out[-1])
            if t.eq(e[0]) and (b.eq(e[1]) or vm.prove_quick(b == e[1])):
                n = z3.Length(t)
                if vm.prove_quick(z3.And(a >= 0, a <= b, b <= e[2], e[2] <= n)):
                    if vm.prove_quick(z3.And(a == 0, e[2] == n)):
                        out[-1] = t
                    else:
                        out[-1] = z3.SubString(t, a, z3.simplify(e[2] - a))
                    continue
        out.append(p)
    return out


def str_getitem(vm, o, k):
    if isinstance(k, slice):
        parts = [k.start, k.stop, k.step]
        if vm.is_native(o) and all(x is None or isinstance(x, int) for x in parts):
            return o[k]
        if k.step is not None:
            raise Unsupported("string slice with step")
        t = vm.zstr(o)
        n = z3.Length(t)

        def clamp(x):
            if vm.prove_quick(z3.And(x >= 0, x <= n)):
                return x
            return z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x))

        def norm(x, dflt):
            if x is None:
                return dflt
            x = vm.zint(x)
            x = z3.simplify(x)
            if z3.is_int_value(x):
                v = x.as_long()
                if v >= 0:
                    return z3.If(x > n, n, x)
                return z3.If(n + x < 0, z3.IntVal(0), n + x)
            return clamp(x)

        a, b = norm(k.start, z3.IntVal(0)), norm(k.stop, n)
        # keep ropes readable for common prefix/suffix cuts
        if isinstance(o, SStr) and k.stop is None and isinstance(k.start, int) and k.start >= 0 and isinstance(o.pieces[0], str) and len(o.pieces[0]) >= k.start:
            return mkstr((o.pieces[0][k.start :],) + o.pieces[1:])
        if isinstance(o, SStr) and k.start in (None, 0) and isinstance(k.stop, int) and k.stop < 0 and isinstance(o.pieces[-1], str) and len(o.pieces[-1]) >= -k.stop:
            return mkstr(o.pieces[:-1] + (o.pieces[-1][: k.stop],))
        if isinstance(o, SStr) and k.start in (None, 0) and isinstance(k.stop, int) and k.stop >= 0 and isinstance(o.pieces[0], str) and len(o.pieces[0]) >= k.stop:
            return o.pieces[0][: k.stop]
        return mkstr([substring(vm, t, a, b, n)])
    if vm.is_native(o) and isinstance(k, int):
        try:
            return o[k]
        except IndexError:
            vm.raise_(IndexError, "string index")
    if isinstance(o, SStr) and isinstance(k, int):
        if k >= 0 and isinstance(o.pieces[0], str) and len(o.pieces[0]) > k:
            return o.pieces[0][k]
        if k < 0 and isinstance(o.pieces[-1], str) and len(o.pieces[-1]) >= -k:
            return o.pieces[-1][k]
    t = vm.zstr(o)
    n = z3.Length(t)
    i = vm.zint(k)
    c = vm.choose([z3.And(i >= 0, i < n), z3.And(i < 0, i >= -n), z3.Or(i >= n, i < -n)])
    if c == 2:
        vm.raise_(IndexError, "string index")
    return SStr((z3.SubString(t, z3.simplify(i if c == 0 else i + n), z3.IntVal(1)),))


def only_option(vm, x, conds):
    """the one option of a union that the conditions leave"""
    from .engine import tag_is

    tag = vm.uf(x.path + ".tag", x.args, z3.IntSort())
    left = [j for j in range(len(x.opts)) if vm.check([*conds, tag_is(tag, j, len(x.opts))])[0] != z3.unsat]
    if len(left) != 1:
        raise Unsupported("join over a union")
    return vm.opt(x, left[0])


def join(vm, sep, it, un=None):
    chunks = vm.chunks_of(it)
    out = []
    first = True
    for c in chunks:
        if isinstance(c, tuple):
            x = vm.resolve(c[1])
            x = un(x) if un else x
            if not vm.isstr(x):
                vm.raise_(TypeError, "join")
            if not first:
                out.append(sep)
            out.append(x)
            first = False
        else:
            pre = ""
            if sep != "" and len(chunks) > 1:
                if first:
                    raise Unsupported("join with a separator over several parts")
                pre = sep
            var, guard, alts = vm.chunk_generic(c)
            nalts = []
            for pc, items in alts:
                row = []
                for x in items:
                    if isinstance(x, Nested):
                        if sep != "":
                            raise Unsupported("join with a separator over nested parts")
                        row.append(join(vm, "", LSeq("list", [x.chunk]), un))
                        continue
                    if isinstance(x, SAny):
                        x = only_option(vm, x, [guard, pc])
                    x = un(x) if un else x
                    if not vm.isstr(x):
                        raise Unsupported("join of non-strings")
                    row.append(x)
                if pre:
                    row = [mkstr([pre, x]) for x in row]
                if (sep == "" or pre) and not any(isinstance(x, Nested) for x in row):
                    row = [mkstr(row)] if row else [""]
                nalts.append((pc, row))
            out.append(SStr((JoinPiece("" if pre else sep, SymChunk(c.base, var, nalts, c.upto)),)))
            first = False
    return mkstr(out)


def str_method(vm, o, name, args, kwargs):
    if name == "join":
        if not isinstance(o, str):
            raise Unsupported("join with symbolic separator")
        v = args[0]
        return join(vm, o, v)
    if name == "encode":
        from .world import encode

        return encode(vm, o, args, kwargs)
    if vm.is_native(o) and all(vm.is_native(a) for a in args):
        return vm.native_call(getattr(o, name), args, kwargs)
    args = [vm.resolve(a) for a in args]
    f = METHODS.get(name)
    if f is None:
        raise Unsupported(f"str.{name} on a symbolic string")
    return f(vm, o, *args, **kwargs)


def _affix(vm, o, x, z3f, startswith):
    xs = list(x) if isinstance(x, tuple) else [x]
    cs = []
    from .engine import zor

    for y in xs:
        if isinstance(y, str) and isinstance(o, SStr):
            p = o.pieces[0] if startswith else o.pieces[-1]
            if y == "":
                return True
            if isinstance(p, str) and len(p) >= len(y):
                if (p.startswith(y) if startswith else p.endswith(y)):
                    return True
                continue
        cs.append(z3f(vm.zstr(y), vm.zstr(o)))
    if not cs:
        return False
    return SBool(zor(cs))


def m_startswith(vm, o, x, *rest):
    if rest:
        if len(rest) > 1:
            raise Unsupported("startswith with end")
        if not all(isinstance(y, str) and y for y in (x if isinstance(x, tuple) else (x,))):
            raise Unsupported("startswith with position and unknown prefix")
        o = str_getitem(vm, o, slice(rest[0], None, None))
        if isinstance(o, str) and isinstance(x, (str, tuple)):
            return o.startswith(x)
    return _affix(vm, o, x, z3.PrefixOf, True)


def m_endswith(vm, o, x, *rest):
    return _affix(vm, o, x, z3.SuffixOf, False)


def uf1(vm, name, o, *extra):
    """an uninterpreted, deterministic string function"""
    t = vm.zstr(o)
    return SStr((z3.Function("str." + name, S, S)(t),))


def m_replace(vm, o, a, b, *count):
    if count:
        if count != (1,):
            raise Unsupported("replace with count")
        # the first occurrence, or the start of the string if it is empty: as in SMT-LIB
        return SStr((z3.Replace(vm.zstr(o), vm.zstr(a), vm.zstr(b)),))
    if isinstance(a, str) and isinstance(b, str) and isinstance(o, SStr) and len(a) == 1:
        out = []
        for p in o.pieces:
            if isinstance(p, str):
                out.append(p.replace(a, b))
            elif isinstance(p, JoinPiece):
                out.append(replace_fn(vm, vm.zstr(SStr((p,))), a, b))
            else:
                out.append(replace_fn(vm, p, a, b))
        return mkstr(out)
    return SStr((replace_fn(vm, vm.zstr(o), a if isinstance(a, str) else None, b if isinstance(b, str) else None, vm.zstr(a), vm.zstr(b)),))


def replace_fn(vm, t, a, b, ta=None, tb=None):
    """str.replace as an uninterpreted function with sound facts"""
    if a is None or b is None:
        return z3.Function("str.replace3", S, S, S, S)(t, ta, tb)
    nm = f"str.replace[{a!r},{b!r}]"
    r = z3.Function(nm, S, S)(t)
    from .values import py_to_z3_str

    za, zb = py_to_z3_str(a), py_to_z3_str(b)
    if a != "":
        vm.axiom(z3.Implies(z3.Not(z3.Contains(t, za)), r == t))
        if a not in b and len(a) == 1:
            vm.axiom(z3.Not(z3.Contains(r, za)))
        if b != "":
            vm.axiom((t == py_to_z3_str("")) == (r == py_to_z3_str("")))
    return r


def m_strip_like(name):
    def f(vm, o, chars=None):
        if chars is not None and not isinstance(chars, str):
            raise Unsupported("strip with symbolic characters")
        t = vm.zstr(o)
        r = z3.Function(f"str.{name}[{chars!r}]", S, S)(t)
        vm.axiom(z3.Length(r) <= z3.Length(t))
        vm.axiom(z3.Contains(t, r))
        if name == "lstrip":
            vm.axiom(z3.SuffixOf(r, t))
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                # the same place in the string that it was cut from
                u, a, n = t.children()
                vm.axiom(z3.Implies(z3.And(a >= 0, n >= 0, a + n <= z3.Length(u)), r == z3.SubString(u, a + n - z3.Length(r), z3.Length(r))))
        elif name == "rstrip":
            vm.axiom(z3.PrefixOf(r, t))
        return SStr((r,))

    return f


def m_case(name):
    def f(vm, o):
        return uf1(vm, name, o)

    return f


def m_find(vm, o, x, start=0, *rest):
    if rest:
        raise Unsupported("find with end")
    return SInt(z3.IndexOf(vm.zstr(o), vm.zstr(x), vm.zint(start)))


_isx = {}


def char_lang(name):
    """the language of the strings, of one or more characters, for which a predicate on characters holds"""
    if name not in _isx:
        from .regex import MAXC, chr_re, union

        meth, out, start = getattr(str, name), [], None
        for c in range(MAXC + 2):
            if c <= MAXC and meth(chr(c)):
                start = c if start is None else start
            elif start is not None:
                out.append(chr_re(start, c - 1))
                start = None
        _isx[name] = z3.Plus(union(out))
    return _isx[name]


def m_isX(name):
    def f(vm, o):
        if name in ("isspace", "isdigit", "isdecimal", "isascii"):
            from .regex import in_re

            r = SBool(in_re(vm.zstr(o), char_lang(name)))
            return r if name != "isascii" else SBool(z3.Or(vm.zstr(o) == z3.StringVal(""), r.t))
        return SBool(z3.Function("str." + name, S, z3.BoolSort())(vm.zstr(o)))

    return f


def split_base(vm, o, tag):
    """the list s.split(..) as a symbolic sequence determined by s"""
    t = vm.zstr(o)
    from . import types as T

    base = Base("list", f"split[{tag}]", (t,), None, T.TStr(), 0)
    vm.axiom(vm.blen(base) >= 1)
    return LSeq("list", [SymChunk(base)])


def lacks(vm, v, sep, conds=()):
    """the string is known not to contain sep (a single character)"""
    from .regex import ALL, empty_re, lang

    if isinstance(v, str):
        return sep not in v
    zs = py_to_z3_str(sep)
    if vm.check([*conds, z3.Contains(vm.zstr(v), zs)])[0] == z3.unsat:
        return True
    k = lang(vm, v, conds)
    return empty_re(z3.Intersect(k, z3.Concat(ALL, z3.Re(zs), ALL))) is True


def split_rope(vm, o, sep):
    """s.split(sep) where it is known in which parts of s the separator is"""
    if not isinstance(o, SStr) or len(sep) != 1 or len(o.pieces) < 2:
        return None
    out, cur = [], []
    for n, p in enumerate(o.pieces):
        if isinstance(p, str):
            xs = p.split(sep)
            cur.append(xs[0])
            for x in xs[1:]:
                out.append(("item", mkstr(cur)))
                cur = [x]
        elif isinstance(p, JoinPiece):
            var, guard, alts = vm.chunk_generic(p.chunk)
            rows = []
            for pc, items in alts:
                if len(items) != 1 or not isinstance(items[0], (str, SStr)):
                    return None
                x = items[0]
                if p.sep == "":
                    q = x if isinstance(x, str) else x.pieces[0]
                    if not isinstance(q, str) or not q.startswith(sep):
                        return None
                    x = x[1:] if isinstance(x, str) else mkstr((q[1:],) + x.pieces[1:])
                elif p.sep != sep:
                    return None
                if not lacks(vm, x, sep, (guard, pc)):
                    return None
                rows.append((pc, [x]))
            ch = SymChunk(p.chunk.base, var, rows, p.chunk.upto)
            if p.sep == "":
                # sep and an element each time: what is before them is an element of its own
                out.append(("item", mkstr(cur)))
                out.append(ch)
                cur = None
            else:
                if mkstr(cur) != "" or not vm.prove_quick(vm.nonempty(p.chunk)):
                    return None
                out.append(ch)
                cur = None
            if n + 1 < len(o.pieces):
                return None
        else:
            if not lacks(vm, SStr((p,)), sep):
                return None
            cur.append(p)
    if cur is not None:
        out.append(("item", mkstr(cur)))
    return LSeq("list", out)


def m_split(vm, o, sep=None, maxsplit=-1):
    if isinstance(sep, str) and sep and maxsplit == 1:
        t, z = vm.zstr(o), py_to_z3_str(sep)
        if not vm.branch(z3.Contains(t, z)):
            return LSeq("list", [("item", o)])
        i = z3.IndexOf(t, z, z3.IntVal(0))
        a, b = z3.SubString(t, 0, i), z3.SubString(t, i + len(sep), z3.Length(t) - i - len(sep))
        vm.axiom(z3.Implies(z3.Contains(t, z), z3.And(i >= 0, t == z3.Concat(a, z, b), z3.Not(z3.Contains(a, z)))))
        return LSeq("list", [("item", SStr((a,))), ("item", SStr((b,)))])
    if not (sep is None or isinstance(sep, str)) or maxsplit != -1:
        raise Unsupported("split")
    if vm.bounded is not None:
        raise Unsupported("split in bounded mode")
    if sep is None:
        raise Unsupported("whitespace split")
    r = split_rope(vm, o, sep)
    if r is not None:
        return r
    return split_base(vm, o, repr(sep))


def m_splitlines(vm, o, keepends=False):
    raise Unsupported("splitlines")


def m_translate(vm, o, table):
    """character by character, so piece by piece"""
    table = vm.resolve(table)
    if not isinstance(table, dict):
        try:
            table = vm.to_native(table)
        except Exception:
            raise Unsupported("translate with a symbolic table")
    f = z3.Function(f"str.translate[{sorted(table.items())!r}]", S, S)
    return mkstr([p.translate(table) if isinstance(p, str) else f(vm.zstr(SStr((p,)))) for p in o.pieces])


def m_format(vm, o, *args, **kwargs):
    """fields which are names are filled in; a template that is not known is an unknown function of its fields, assumed not to fail"""
    if args:
        raise Unsupported("format with positions")
    if isinstance(o, str):
        out = []
        for text, field, spec, conv in Formatter().parse(o):
            out.append(text)
            if field is not None:
                if field not in kwargs or spec or conv:
                    raise Unsupported("format field")
                out.append(vm.zstr(kwargs[field]))
        return mkstr(out)
    keys = sorted(kwargs)
    f = z3.Function(f"str.format{keys!r}", S, *[S for _ in keys], S)
    return SStr((f(vm.zstr(o), *[vm.zstr(vm.resolve(kwargs[k])) for k in keys]),))


METHODS = {
    "format": m_format,
    "startswith": m_startswith, "endswith": m_endswith, "replace": m_replace, "find": m_find,
    "strip": m_strip_like("strip"), "lstrip": m_strip_like("lstrip"), "rstrip": m_strip_like("rstrip"),
    "lower": m_case("lower"), "upper": m_case("upper"), "title": m_case("title"), "capitalize": m_case("capitalize"),
    "isspace": m_isX("isspace"), "isdigit": m_isX("isdigit"), "isalpha": m_isX("isalpha"), "isalnum": m_isX("isalnum"),
    "isdecimal": m_isX("isdecimal"), "isascii": m_isX("isascii"), "isidentifier": m_isX("isidentifier"),
    "split": m_split, "splitlines": m_splitlines, "translate": m_translate,
}


def str_to_int(vm, v, rest, k):
    if rest or k:
        raise Unsupported("int with base")
    t = vm.zstr(v)
    ok = z3.Function("str.is_int", S, z3.BoolSort())(t)
    if not vm.branch(ok):
        vm.raise_(ValueError, "int")
    return SInt(z3.Function("str.int_value", S, z3.IntSort())(t))


# ---------------------------------------------------------------- regular expressions
def pattern_method(vm, pat, name, args, kwargs):
    if all(vm.is_native(a) for a in args) and not kwargs:
        r = getattr(pat, name)(*args)
        if isinstance(r, re.Match) or r is None:
            return r
        if name == "finditer":
            r = list(r)
            return LSeq("iter", [("item", x) for x in r])
        return vm.from_native(r)
    from .regex import sym_pattern

    return sym_pattern(vm, pat, name, args, kwargs)
