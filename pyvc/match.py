"""re.Match objects on symbolic subjects: positions, and groups by decomposition of the regular expression (trusted model)."""
from __future__ import annotations
import re, re._parser as sp, re._constants as sc
import z3
from .values import *

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()


class SMatchObj:
    """stands for re.Match"""

    def group(self, *args): ...
    def groups(self, default=None): ...
    def start(self, group=0): ...
    def end(self, group=0): ...
    def span(self, group=0): ...
    def __getitem__(self, key): ...
    def __bool__(self): ...
    def groupdict(self): ...


def key_of(m):
    """(name of the uninterpreted functions, their arguments)"""
    pat, how = m.fields["pat"], m.fields["how"]
    return f"[{pat.pattern!r},{pat.flags},{how}]", tuple(m.fields["args"])


def positions(vm, m):
    """start and end of the match in the subject, with their facts"""
    nm, args = key_of(m)
    st, en = vm.uf("re.start" + nm, args, I), vm.uf("re.end" + nm, args, I)
    if not m.fields.get("_pos"):
        pat, how, t = m.fields["pat"], m.fields["how"], m.fields["t"]
        lo, hi = sp.parse(pat.pattern, pat.flags).getwidth()
        n = z3.Length(t)
        fs = [st >= 0, en <= n, en - st >= lo]
        if hi < 1000:
            fs.append(en - st <= hi)
        at = m.fields["at"]
        if how in ("match", "fullmatch"):
            fs.append(st == at)
        elif how == "search":
            fs.append(st >= at)
        if how == "fullmatch":
            fs.append(en == n)
        if how == "finditer":
            i = args[-1]
            prev = vm.uf("re.end" + nm, args[:-1] + (z3.simplify(i - 1),), I)
            fs.append(z3.Implies(i > 0, z3.And(prev <= st, prev >= 0)))
        for f in fs:
            vm.axiom(z3.Implies(m.fields["cond"], f))
        m.fields["_pos"] = True
    return st, en


def whole(vm, m):
    if m.fields["how"] == "fullmatch" and z3.is_int_value(m.fields["at"]):
        return m.fields["t"]
    st, en = positions(vm, m)
    return z3.SubString(m.fields["t"], st, en - st)


def decompose(vm, m):
    """group number -> (z3 Bool: it took part, string term)"""
    if "_groups" in m.fields:
        return m.fields["_groups"]
    from .regex import to_z3, in_re
    from .engine import zand, zimp

    pat = m.fields["pat"]
    nm, args = key_of(m)
    cond = m.fields["cond"]
    facts = []
    groups = {}
    n = [0]

    def name(kind):
        n[0] += 1
        return f"re.{kind}{n[0]}{nm}"

    def seq(tree, active):
        """term for the text matched by the sequence of nodes, valid where `active` holds"""
        parts = []
        for op, av in tree:
            parts.append(node(op, av, active))
        parts = [p for p in parts if p is not None]
        if not parts:
            return z3.StringVal("")
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def has_groups(tree):
        for op, av in tree:
            if op is sc.SUBPATTERN:
                if av[0] is not None or has_groups(av[3]):
                    return True
            elif op is sc.BRANCH:
                if any(has_groups(t) for t in av[1]):
                    return True
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                if has_groups(av[2]):
                    return True
            elif op in (sc.GROUPREF, sc.GROUPREF_EXISTS):
                raise Unsupported("regex back reference")
        return False

    def inactive(tree):
        for op, av in tree:
            if op is sc.SUBPATTERN:
                if av[0] is not None:
                    groups.setdefault(av[0], (z3.BoolVal(False), z3.StringVal("")))
                inactive(av[3])
            elif op is sc.BRANCH:
                for t in av[1]:
                    inactive(t)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                inactive(av[2])

    def node(op, av, active):
        if op is sc.LITERAL and not pat.flags & re.IGNORECASE:
            return py_to_z3_str(chr(av))
        if op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
            return None
        if op is sc.SUBPATTERN and (av[0] is not None or has_groups(av[3])):
            if not has_groups(av[3]):
                x = vm.uf(name("g"), args, S)
                facts.append(zimp(active, in_re(x, to_z3(av[3], pat.flags))))
            else:
                x = seq(av[3], active)
            if av[0] is not None:
                groups[av[0]] = (active, x)
            return x
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and has_groups(av[2]):
            lo, hi, sub = av
            if (lo, hi) != (0, 1):
                raise Unsupported("group in a repeat")
            b = vm.uf(name("opt"), args, B)
            a2 = zand([active, b])
            x = seq(sub, a2)
            r = vm.uf(name("o"), args, S)
            facts.append(zimp(active, r == z3.If(b, x, z3.StringVal(""))))
            return r
        if op is sc.BRANCH and any(has_groups(t) for t in av[1]):
            k = vm.uf(name("br"), args, I)
            facts.append(z3.And(k >= 0, k < len(av[1])))
            r = vm.uf(name("b"), args, S)
            for j, t in enumerate(av[1]):
                a2 = zand([active, k == j])
                x = seq(t, a2)
                facts.append(zimp(a2, r == x))
            return r
        x = vm.uf(name("p"), args, S)
        facts.append(zimp(active, in_re(x, to_z3([(op, av)], pat.flags))))
        return x

    tree = list(sp.parse(pat.pattern, pat.flags))
    text = seq(tree, z3.BoolVal(True))
    facts.append(whole(vm, m) == text)
    for f in facts:
        vm.heavy_axiom(zimp(cond, f))
    m.fields["_groups"] = groups
    return groups


def group(vm, m, k, default=None):
    k = vm.resolve(k)
    if isinstance(k, str):
        k = m.fields["pat"].groupindex.get(k, -1)
    if k == 0:
        return mkstr([whole(vm, m)])
    if not isinstance(k, int) or not 0 < k <= m.fields["pat"].groups:
        vm.raise_(IndexError, "no such group")
    d, x = decompose(vm, m)[k]
    if vm.branch(d):
        return mkstr([x])
    return default


def new_match(vm, pat, how, subj, t, at, args, cond):
    return Obj(SMatchObj, {"pat": pat, "subject": subj, "how": how, "t": t, "at": at, "args": tuple(args), "cond": cond})


def install(vm):
    M = vm.models
    C = SMatchObj
    M[C.group] = lambda vm, a, k: group(vm, a[0], a[1] if len(a) > 1 else 0) if len(a) < 3 else tuple(group(vm, a[0], x) for x in a[1:])
    M[C.__getitem__] = lambda vm, a, k: group(vm, a[0], a[1])
    M[C.groups] = lambda vm, a, k: tuple(group(vm, a[0], i + 1, a[1] if len(a) > 1 else None) for i in range(a[0].fields["pat"].groups))
    M[C.__bool__] = lambda vm, a, k: True

    def whole_only(a):
        if len(a) > 1 and a[1] != 0:
            raise Unsupported("position of a group")

    def start(vm, a, k):
        whole_only(a)
        return SInt(positions(vm, a[0])[0])

    def end(vm, a, k):
        whole_only(a)
        return SInt(positions(vm, a[0])[1])

    M[C.start], M[C.end] = start, end
    M[C.span] = lambda vm, a, k: (start(vm, a, k), end(vm, a, k))


def finditer(vm, pat, subj):
    from . import types as T
    from .engine import zand

    t = vm.zstr(subj)
    path = f"finditer[{pat.pattern!r},{pat.flags}]"
    holder = []

    def make(vm, p, args):
        base = holder[0]
        i = args[-1]
        n = vm.blen(base)
        cond = z3.And(i >= 0, i < n)
        tt = args[0]
        return new_match(vm, pat, "finditer", SStr((tt,)), tt, z3.IntVal(0), (tt, i), cond)

    base = Base("list", path, (t,), None, T.TConst(make), 0)
    holder.append(base)
    vm.axiom(vm.blen(base) >= 0)
    vm.used_models.add(f"re finditer {pat.pattern!r}")
    return LSeq("iter", [SymChunk(base)])
