"""Translation of Python regular expressions to z3 regular expressions (membership), and char-class facts."""
from __future__ import annotations
import re, re._parser as sp, re._constants as sc
import z3
from .values import *
from .match import new_match, finditer

S = z3.StringSort()
MAXC = 0x2FFFF  # z3 characters
_cache = {}


def chr_re(lo, hi=None):
    if hi is None:
        hi = lo
    hi = min(hi, MAXC)
    if lo > hi:
        return z3.Empty(z3.ReSort(S))
    return z3.Range(py_to_z3_str(chr(lo)), py_to_z3_str(chr(hi)))


def class_ranges(items, flags):
    """character set of an IN node as list of (lo, hi), negate"""
    neg = False
    out = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            out.append((av, av))
        elif op is sc.RANGE:
            out.append(av)
        elif op is sc.CATEGORY:
            if flags & re.ASCII or True:
                cat = {
                    sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D", sc.CATEGORY_SPACE: r"\s",
                    sc.CATEGORY_NOT_SPACE: r"\S", sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W",
                }[av]
                out += cat_ranges(cat, bool(flags & re.ASCII))
        else:
            raise Unsupported(f"regex class {op}")
    if flags & re.IGNORECASE:
        extra = []
        for lo, hi in out:
            if hi - lo > 300:
                raise Unsupported("ignore case on a big class")
            for c in range(lo, hi + 1):
                for d in (chr(c).lower(), chr(c).upper()):
                    if len(d) == 1:
                        extra.append((ord(d), ord(d)))
        out += extra
    if neg:
        pts = sorted(out)
        res, cur = [], 0
        for lo, hi in pts:
            if lo > cur:
                res.append((cur, lo - 1))
            cur = max(cur, hi + 1)
        if cur <= MAXC:
            res.append((cur, MAXC))
        return res
    return merge(out)


def merge(rs):
    out = []
    for lo, hi in sorted(rs):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return out


_cats = {}


def cat_ranges(cat, ascii_):
    key = (cat, ascii_)
    if key not in _cats:
        r = re.compile(cat, re.ASCII if ascii_ else 0)
        out = []
        start = None
        for c in range(MAXC + 1):
            if r.match(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                out.append((start, c - 1))
                start = None
        if start is not None:
            out.append((start, MAXC))
        _cats[key] = out
    return _cats[key]


def union(rs):
    rs = list(rs)
    if not rs:
        return z3.Empty(z3.ReSort(S))
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


APPROX = [False]  # look-around and anchors inside a pattern may be dropped (the language becomes bigger)


def to_z3(tree, flags):
    parts = []
    for op, av in tree:
        if op is sc.LITERAL:
            if flags & re.IGNORECASE:
                parts.append(union([chr_re(lo, hi) for lo, hi in class_ranges([(op, av)], flags)]))
            else:
                parts.append(chr_re(av))
        elif op is sc.NOT_LITERAL:
            parts.append(union([chr_re(lo, hi) for lo, hi in class_ranges([(sc.NEGATE, None), (sc.LITERAL, av)], flags)]))
        elif op is sc.ANY:
            if flags & re.DOTALL:
                parts.append(chr_re(0, MAXC))
            else:
                parts.append(z3.Union(chr_re(0, 9), chr_re(11, MAXC)))
        elif op is sc.IN:
            parts.append(union([chr_re(lo, hi) for lo, hi in class_ranges(av, flags)]))
        elif op is sc.BRANCH:
            parts.append(union([to_z3(t, flags) for t in av[1]]))
        elif op is sc.SUBPATTERN:
            parts.append(to_z3(av[3], flags))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            r = to_z3(sub, flags)
            if hi is sc.MAXREPEAT:
                if lo == 0:
                    parts.append(z3.Star(r))
                elif lo == 1:
                    parts.append(z3.Plus(r))
                else:
                    parts.append(z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            elif (lo, hi) == (0, 1):
                parts.append(z3.Option(r))
            else:
                parts.append(z3.Loop(r, lo, hi))
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            if not APPROX[0]:
                raise Unsupported(f"regex {op}")
        elif op is sc.AT:
            if not APPROX[0]:
                raise Unsupported(f"regex {op}")
        else:
            raise Unsupported(f"regex {op}")
    if not parts:
        return z3.Re("")
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def anchored(tree, flags, how):
    """the strings in which the pattern is found: anchors at the ends of the pattern, or of its alternatives"""
    if flags & re.MULTILINE and any(op is sc.AT for op, _ in tree):
        raise Unsupported("regex anchors of lines")
    any_ = z3.Star(chr_re(0, MAXC))
    pre = how == "search"
    post = how in ("search", "match")
    while tree and tree[0][0] is sc.AT and tree[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        tree = tree[1:]
        pre = False
    dollar = False
    while tree and tree[-1][0] is sc.AT and tree[-1][1] in (sc.AT_END_STRING, sc.AT_END):
        if tree[-1][1] is sc.AT_END:
            dollar = True
        tree = tree[:-1]
        post = False
    r = to_z3(tree, flags)
    if dollar and how != "fullmatch":
        r = z3.Concat(r, z3.Option(chr_re(10)))
    if pre:
        r = z3.Concat(any_, r)
    if post:
        r = z3.Concat(r, any_)
    return r


def full_re(pat, how):
    key = (pat.pattern, pat.flags, how)
    if key in _cache:
        return _cache[key]
    tree = list(sp.parse(pat.pattern, pat.flags))
    if len(tree) == 1 and tree[0][0] is sc.BRANCH and how != "fullmatch":
        r = union([anchored(list(t), pat.flags, how) for t in tree[0][1][1]])
    else:
        r = anchored(tree, pat.flags, how)
    _cache[key] = r
    return r


def single_class(pat):
    """set of characters of a pattern that matches exactly one character, as a predicate; else None"""
    tree = list(sp.parse(pat.pattern, pat.flags))
    if len(tree) != 1:
        return None
    op, av = tree[0]
    if op is sc.SUBPATTERN and len(av[3]) == 1:
        op, av = av[3][0]
    if op is sc.IN or op is sc.LITERAL:
        return True
    return None


# Membership in a language is first an uninterpreted predicate per language; the solver sees its definition only where that is not enough.
RE_FUNS: dict = {}


def in_re(t, r):
    key = r.sexpr()
    if key not in RE_FUNS:
        RE_FUNS[key] = (z3.Function(f"in_re!{len(RE_FUNS)}", S, z3.BoolSort()), r)
    return RE_FUNS[key][0](t)


def define_res(fs):
    """formulas with every membership predicate replaced by its definition; None if there is none"""
    if not RE_FUNS:
        return None
    subst = [(f, z3.InRe(z3.Var(0, S), r)) for f, r in RE_FUNS.values()]
    out, changed = [], False
    for f in fs:
        g = z3.substitute_funs(f, *subst) if "in_re!" in f.sexpr() else f
        changed = changed or g is not f
        out.append(g)
    return out if changed else None


ALL = z3.Full(z3.ReSort(S))
_incl = {}


def empty_re(r):
    """is the language empty? None if not found out"""
    k = r.sexpr()
    if k not in _incl:
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(z3.InRe(z3.Const("w!lang", S), r))
        c = s.check()
        _incl[k] = True if c == z3.unsat else False if c == z3.sat else None
    return _incl[k]


def included(a, b):
    return empty_re(z3.Intersect(a, z3.Complement(b))) is True


def lang_term(vm, t, conds=()):
    """a language that is known to contain the term: the intersection of those in which the path condition puts it"""
    out = []
    for f, r in list(RE_FUNS.values()):
        if vm.check([*conds, z3.Not(f(t))])[0] == z3.unsat:
            out.append(r)
    if not out:
        return ALL
    return out[0] if len(out) == 1 else z3.Intersect(*out)


def lang(vm, v, conds=()):
    """a language (z3 regular expression) which contains the string"""
    if isinstance(v, str):
        return z3.Re(py_to_z3_str(v))
    parts = []
    for p in v.pieces:
        if isinstance(p, str):
            parts.append(z3.Re(py_to_z3_str(p)))
        elif isinstance(p, JoinPiece):
            parts.append(lang_join(vm, p, conds))
        else:
            parts.append(lang_term(vm, p, conds))
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def lang_join(vm, p, conds):
    var, guard, alts = vm.chunk_generic(p.chunk)
    rows = []
    some = True
    for pc, items in alts:
        if vm.check([*conds, guard, pc])[0] == z3.unsat:
            continue
        if len(items) > 1 or any(not isinstance(x, (str, SStr)) for x in items):
            return ALL
        if not items:
            some = False
            continue
        rows.append(lang(vm, items[0], (*conds, guard, pc)))
    if not rows:
        return z3.Re("")
    one = union(rows)
    more = z3.Star(one if p.sep == "" else z3.Concat(z3.Re(py_to_z3_str(p.sep)), one))
    if some and vm.check([*conds, z3.Not(vm.nonempty(p.chunk))])[0] == z3.unsat:
        return z3.Concat(one, more)
    return more if p.sep == "" else z3.Option(z3.Concat(one, more))


def decide(vm, v, r):
    """True or False if what is known about the parts of a string puts it inside or outside of the language"""
    if len(v.pieces) == 1 and z3.is_expr(v.pieces[0]):
        return None
    k = lang(vm, v)
    if included(k, r):
        return True
    if empty_re(z3.Intersect(k, r)) is True:
        return False
    return None


def sym_pattern(vm, pat, name, args, kwargs):
    if name in ("match", "fullmatch", "search"):
        subj = vm.resolve(args[0])
        if not vm.isstr(subj):
            vm.raise_(TypeError, "expected string")
        t = vm.zstr(subj)
        at = z3.IntVal(0)
        vm.used_models.add(f"re {name} {pat.pattern!r}")
        if len(args) > 1:
            if len(args) > 2:
                raise Unsupported("regex match with an end position")
            if any(op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING, sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY) or op in (sc.ASSERT, sc.ASSERT_NOT) and av[0] < 0 for op, av in sp.parse(pat.pattern, pat.flags)):
                raise Unsupported("regex match at a position that looks back")
            at = vm.zint(vm.resolve(args[1]))
            n = z3.Length(t)
            at = z3.simplify(z3.If(at < 0, z3.IntVal(0), z3.If(at > n, n, at)))
        if z3.is_int_value(at) and at.as_long() == 0 and isinstance(subj, SStr) and len(args) == 1:
            st = decide(vm, subj, full_re(pat, name))
            if st is False:
                return None
            if st:
                return new_match(vm, pat, name, subj, t, at, (t, at), in_re(t, full_re(pat, name)) if vm.assume(in_re(t, full_re(pat, name))) is None else None)
        rest = t if z3.is_int_value(at) and at.as_long() == 0 else z3.SubString(t, at, z3.Length(t) - at)
        c = in_re(rest, full_re(pat, name))
        if vm.branch(c):
            return new_match(vm, pat, name, subj, t, at, (t, at), c)
        return None
    if name == "finditer" and len(args) == 1:
        return finditer(vm, pat, vm.resolve(args[0]))
    if name == "sub":
        repl, subj = args[0], vm.resolve(args[1])
        if len(args) > 2:
            raise Unsupported("re.sub with count")
        return re_sub(vm, pat, repl, subj)
    if name == "split" and len(args) == 1:
        from .strings import split_base

        return split_base(vm, vm.resolve(args[0]), "re:" + pat.pattern)
    raise Unsupported(f"regex {name} on a symbolic string")


def repl_key(vm, repl):
    if isinstance(repl, str):
        return repr(repl)
    if isinstance(repl, Closure):
        import ast

        return ast.dump(repl.node)
    if hasattr(repl, "__qualname__"):
        return repl.__module__ + ":" + repl.__qualname__
    raise Unsupported("replacement function")


def re_sub(vm, pat, repl, subj):
    """re.sub as a deterministic function of the subject, applied piecewise when the pattern is one character"""
    key = f"re.sub[{pat.pattern!r},{pat.flags},{repl_key(vm, repl)}]"
    vm.used_models.add(f"re.sub {pat.pattern!r}")
    f = z3.Function(key, S, S)
    if isinstance(subj, SStr) and single_class(pat):
        out = []
        for p in subj.pieces:
            if isinstance(p, str):
                out.append(native_sub(vm, pat, repl, p))
            elif isinstance(p, JoinPiece):
                out.append(f(vm.zstr(SStr((p,)))))
            else:
                out.append(f(p))
        return mkstr(out)
    if isinstance(subj, str):
        return native_sub(vm, pat, repl, subj)
    return SStr((f(vm.zstr(subj)),))


def native_sub(vm, pat, repl, s):
    if isinstance(repl, str):
        return pat.sub(repl, s)
    out = []
    pos = 0
    for m in pat.finditer(s):
        out.append(s[pos : m.start()])
        out.append(vm.call(repl, [m], {}))
        pos = m.end()
    out.append(s[pos:])
    return mkstr(out)
