import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pyvc.boot
import importlib
from pyvc.contract import REGISTRY, verify
mods = sys.argv[1].split(",")
for m in mods: importlib.import_module("contracts." + m)
filt = sys.argv[2] if len(sys.argv) > 2 else ""
bounded = int(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[3] != "i" else None
inline = len(sys.argv) > 3 and sys.argv[-1] == "i"
cs = {}
for c in REGISTRY:
    if not c.is_lemma:
        f = c.find()
        if f is not None and (c.use or f not in cs): cs[f] = c
for c in REGISTRY:
    if filt in c.name:
        r = verify(c, cs, bounded=bounded, inline=inline)
        n, d = r.counts()
        print(f"{r.status:12} {c.name} {d}/{n} paths={r.paths} {r.time:.2f}s solver={r.solver_s:.2f}s q={r.queries} contracts={r.used_contracts}")
        if r.status != "proved": print("    ", r.reason[:int(os.environ.get("RL","700"))])
