"""How much the contracts say: single-token mutants of a function under contract, and how many the proofs refuse.

    python3 tools/mutscore.py CONTRACT_MODULE [FILTER] [MAX]

Runs in a scratch copy of /repo's package (a directory it creates and removes). No check uses this."""
import ast, importlib, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
out = []


class V(ast.NodeVisitor):
    def __init__(s,f,src):
        s.f=f;s.src=src;s.lines=src.splitlines(keepends=True)
        s.off=[0]
        for l in s.lines:s.off.append(s.off[-1]+len(l.encode()))
        s.b=src.encode()
        s.infn=0
    def span(s,n): return s.off[n.lineno-1]+n.col_offset, s.off[n.end_lineno-1]+n.end_col_offset
    def text(s,n): a,b=s.span(n);return s.b[a:b].decode()
    def add(s,n,new,kind):
        a,b=s.span(n); out.append((s.f,a,b,s.b[a:b].decode(),new,kind,n.lineno))
    def visit_FunctionDef(s,n):
        s.infn+=1
        for st in n.body: s.visit(st)
        s.infn-=1
    visit_AsyncFunctionDef=visit_FunctionDef
    def visit_ClassDef(s,n):
        for st in n.body: s.visit(st)
    def visit_Raise(s,n):
        if n.exc: pass
        s.add(n,'pass','noraise')
    def visit_Expr(s,n):
        if isinstance(n.value,ast.Constant): return
        t=s.text(n)
        if 'log' in t or 'parser.add' in t or 'print' in t: return
        if s.infn and isinstance(n.value,ast.Call): s.add(n,'pass','delcall')
        s.generic_visit(n)
    def visit_If(s,n):
        s.add(n.test,'(not (%s))'%s.text(n.test),'negif') if random.random()<.3 else None
        s.generic_visit(n)
    def visit_BoolOp(s,n):
        for i,v in enumerate(n.values):
            rest=[s.text(x) for j,x in enumerate(n.values) if j!=i]
            s.add(n,(' and ' if isinstance(n.op,ast.And) else ' or ').join('(%s)'%r for r in rest),'dropcond')
        ws=[s.text(x) for x in n.values]
        s.add(n,(' or ' if isinstance(n.op,ast.And) else ' and ').join('(%s)'%r for r in ws),'andor')
        s.generic_visit(n)
    def visit_Compare(s,n):
        if len(n.ops)==1:
            m={ast.Eq:'!=',ast.NotEq:'==',ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.In:'not in',ast.NotIn:'in',ast.Is:'is not',ast.IsNot:'is'}
            o=m.get(type(n.ops[0]))
            if o and not(isinstance(n.ops[0],(ast.Is,ast.IsNot)) and 0): s.add(n,'(%s %s %s)'%(s.text(n.left),o,s.text(n.comparators[0])),'cmp')
        s.generic_visit(n)
    def visit_Constant(s,n):
        if not s.infn: return
        v=n.value
        if isinstance(v,bool): s.add(n,str(not v),'bool')
        elif isinstance(v,int): s.add(n,str(v+1),'int')
        elif isinstance(v,str) and v and len(v)<6 and s.text(n)[0] in '"\'':
            s.add(n,'""','str')
    def visit_JoinedStr(s,n): 
        return
    def visit_BinOp(s,n):
        if isinstance(n.op,(ast.Add,)):
            s.add(n,s.text(n.left),'dropadd')
        elif isinstance(n.op,ast.Sub): s.add(n,'(%s + %s)'%(s.text(n.left),s.text(n.right)),'sub')
        s.generic_visit(n)
    def visit_Call(s,n):
        t=s.text(n)
        if isinstance(n.func,ast.Attribute) and n.func.attr in('strip','rstrip','lstrip','replace','lower','sub'):
            if n.func.attr!='sub': s.add(n,s.text(n.func.value),'dropmeth')
        if isinstance(n.func,ast.Name) and n.func.id=='sorted': s.add(n,'list(%s)'%s.text(n.args[0]),'unsort')
        s.generic_visit(n)
    def visit_Continue(s,n): s.add(n,'break','cont')
    def visit_Break(s,n): s.add(n,'continue','brk')
    def visit_Assign(s,n):
        if s.infn and isinstance(n.targets[0],(ast.Attribute,ast.Subscript)): s.add(n,'pass','delassign')
        s.visit(n.value)
    def visit_AugAssign(s,n):
        s.add(n,'pass','delaug'); s.visit(n.value)
    def visit_AnnAssign(s,n):
        if n.value: s.visit(n.value)


RUN = """
import sys; sys.path.insert(0, %r)
import pyvc.boot, importlib
from pyvc.contract import REGISTRY, verify
importlib.import_module("contracts." + %r)
cs = {}
for c in REGISTRY:
    if not c.is_lemma:
        f = c.find()
        if f is not None and (c.use or f not in cs): cs[f] = c
res = []
for c in REGISTRY:
    if c.name in %r:
        r = verify(c, cs)
        res.append(r.status + ":" + (r.reason or "")[:90].replace("\\n", " "))
print("RES", " | ".join(res))
"""


def main(mod, filt="", limit=200):
    text = open(os.path.join(VERIF, "contracts", mod + ".py")).read()
    lst = subprocess.run(["python3-vt", "-c", "import sys; sys.path.insert(0, %r)\nimport pyvc.boot, importlib\nfrom pyvc.contract import REGISTRY\nimportlib.import_module('contracts.%s')\nimport inspect\nfor c in REGISTRY:\n  if not c.is_lemma and %r in c.name:\n    f = c.find()\n    f = getattr(f, 'fget', f)\n    l, n = inspect.getsourcelines(f)\n    print('C', c.name, inspect.getsourcefile(f), n, n + len(l) - 1)" % (VERIF, mod, filt)], capture_output=True, text=True, cwd="/")
    by = {}
    for l in lst.stdout.splitlines():
        if l.startswith("C "):
            _, name, file, a, b = l.split()
            by.setdefault((file, int(a), int(b)), []).append(name)
    muts = []
    for (file, a, b), names in by.items():
        src = open(file).read()
        out.clear()
        v = V(file, src)
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, (ast.FunctionDef,)) and a <= n.lineno <= b and n.end_lineno == b:
                v.visit(n)
                break
        for m in out:
            muts.append((file, m, names))
    random.Random(1).shuffle(muts)
    muts = muts[:limit]
    base = tempfile.mkdtemp(prefix="mutscore")
    n = 8
    try:
        for i in range(n):
            shutil.copytree(REPO, f"{base}/{i}", symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "node_modules", "tests"))
        free = list(range(n))

        def one(x):
            file, m, names = x
            w = free.pop()
            try:
                rel = os.path.relpath(file, REPO)
                p = f"{base}/{w}/{rel}"
                b = open(file, "rb").read()
                new = b[: m[1]] + m[4].encode() + b[m[2] :]
                try:
                    compile(new, p, "exec")
                except SyntaxError:
                    return None
                open(p, "wb").write(new)
                try:
                    r = subprocess.run(["timeout", "300", "python3-vt", "-c", RUN % (VERIF, mod, names)], capture_output=True, text=True, cwd="/", env=dict(os.environ, VERIF_REPO=f"{base}/{w}"))
                finally:
                    open(p, "wb").write(b)
                s = [l for l in r.stdout.splitlines() if l.startswith("RES")]
                return s[0][4:] if s else "error " + r.stderr[-200:]
            finally:
                free.append(w)

        tot = {}
        with ThreadPoolExecutor(n) as ex:
            for (file, m, names), r in zip(muts, ex.map(one, muts)):
                if r is None:
                    continue
                k = "failed" if "failed:" in r or "error" in r.split(":")[0] else "unsupported" if "unsupported:" in r else "proved"
                f = names[0].split(":")[1]
                tot.setdefault(f, {}).setdefault(k, 0)
                tot[f][k] += 1
                if k != "failed":
                    print(k, f, f"line {m[6]} {m[5]}: {m[3][:90]!r} -> {m[4][:90]!r}", r[:140] if k == "unsupported" else "", flush=True)
        for f, d in tot.items():
            print("SCORE", f, d)
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "", int(sys.argv[3]) if len(sys.argv) > 3 else 200)
