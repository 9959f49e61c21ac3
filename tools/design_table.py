"""prints the per-property table of DESIGN.md from the evidence files of the last run and the bounded modules"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(V, "bounded", p["id"].lower() + ".py")
    if not os.path.exists(f):
        continue
    d = {}
    for st in ast.parse(open(f).read()).body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            try:
                d[st.targets[0].id] = ast.literal_eval(st.value)
            except ValueError:
                pass
    e = os.path.join(V, "evidence", p["id"] + ".json")
    c = json.load(open(e))["coverage"] if os.path.exists(e) else {}
    fns = c.get("functions_under_contract", {})
    ob = f"{c.get('discharged', 0)}/{c.get('obligations', 0)} obligations of {len(fns)} contracts and lemmas" if fns else "no contracts"
    print(f"### {p['id']} {p['title']}\n\n{d.get('EXPLANATION', '')}\n\n*Deductive:* {ob}; level `{d.get('LEVEL')}`. *Bounded:* {d.get('RULE', '')}.\n")
