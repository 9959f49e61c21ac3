"""assembles DESIGN.md"""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
out = open(os.path.join(T, "DESIGN.head.md")).read()
out += subprocess.run([sys.executable, os.path.join(T, "design_table.py")], capture_output=True, text=True, check=True).stdout
out += "## 5. Planted bugs and the checks that catch them\n\nEach is in `/verif/seeded` with a demonstration; no check reads that directory.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n"
res = json.load(open(os.path.join(T, "seeded_results.json")))
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    out += f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |\n"
out += "\n" + open(os.path.join(T, "DESIGN.sweep.md")).read() + "\n" + open(os.path.join(T, "DESIGN.tail.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(out)
