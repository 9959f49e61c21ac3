"""writes MANIFEST.json from properties.jsonl and the bounded/cNN.py modules"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C27": "the JavaScript library is TypeScript; no deductive verifier for TypeScript or JavaScript is installed, and js/ cannot be built here (no node_modules)",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(V, "bounded", p.lower() + ".py")
    if p in NA or not os.path.exists(f):
        na.append(dict(property=p, reason=NA.get(p, "no check has been built for it yet")))
        continue
    d = {}
    for st in ast.parse(open(f).read()).body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            try:
                d[st.targets[0].id] = ast.literal_eval(st.value)
            except ValueError:
                pass
    level = d.get("LEVEL", "other")
    checks.append(dict(
        property=p,
        quick_cmd=f"python3-vt check.py {p}",
        thorough_cmd=f"python3-vt check.py {p} --tier thorough",
        evidence_file=f"evidence/{p}.json",
        technique=d.get("TECHNIQUE", "contracts on the real functions, discharged by z3/cvc5 (pyvc); the same contracts evaluated at run time as bounded stand-in"),
        level=level,
        level_note=d.get("NOTE", d.get("EXPLANATION", "")) + " Trusts the pyvc translation, z3 and cvc5; strings are sequences of code points, inputs have their annotated types.",
    ))
json.dump(dict(version=1, setup_cmd="python3-vt -c \"import sys; sys.path.insert(0, '.'); import pyvc.boot, z3; import moz.l10n.model\"",
               checks=checks, not_applicable=na,
               notes="Every check reads /repo's current sources; nothing is compiled. No hooks in /repo."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
