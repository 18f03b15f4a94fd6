#!/opt/venv/bin/python
"""
Assemble DESIGN.md from tools/design_text.md, properties.jsonl, the bounds stated in props/, and seeded/

The hand-written parts are in design_text.md; {{PROPERTIES}} and {{SEEDED}} are filled in.
"""
import ast
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(pid):
    out = {}
    for n in ast.parse(open(f"{ROOT}/props/{pid}.py").read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def cost(pid):
    try:
        e = json.load(open(f"{ROOT}/evidence/{pid}.json"))
        x = e["coverage"]["explanation"]
        m = re.search(r"(\d+) harness configuration\(s\), (\d+) feasible path\(s\), (\d+) assertion\(s\) put to the solver in (\d+) SMT", x)
        return f"{m[1]} configurations, {m[2]} paths, {m[3]} assertions, {m[4]} SMT queries, {e.get('wall_s', 0):.0f} s wall" if m else ""
    except Exception:
        return ""


def main():
    text = open(f"{ROOT}/tools/design_text.md").read()
    how = {}
    for part in re.split(r"^@@", text.split("{{HOW}}")[1], flags=re.M)[1:]:
        pid, body = part.split(None, 1)
        how[pid] = " ".join(body.split())
    text = text.split("{{HOW}}")[0]
    costs = json.load(open(f"{ROOT}/tools/costs.json")) if os.path.exists(f"{ROOT}/tools/costs.json") else {}
    props = sorted((json.loads(l) for l in open(f"{ROOT}/properties.jsonl")), key=lambda d: d["id"])
    sec = []
    for d in props:
        pid = d["id"]
        c = consts(pid)
        costs[pid] = cost(pid) or costs.get(pid, "")
        s = f"### {pid} {d['title']}\n\n{how.get(pid, 'TODO')}\n\n- Bounds: {c['BOUNDS']}.\n- Outside: {c['OUTSIDE'] or 'nothing further'}.\n"
        if c["ASSUMPTIONS"]:
            s += f"- Assumes: {'; '.join(c['ASSUMPTIONS'])}.\n"
        s += f"- Code: {', '.join(m['where'] if isinstance(m, dict) else m for m in d['anchors']['mechanism'])}.\n- Quick run: {costs[pid]}.\n"
        sec.append(s)
    json.dump(costs, open(f"{ROOT}/tools/costs.json", "w"), indent=1, sort_keys=True)
    rows = ["| planted change | property | needs |", "|---|---|---|"]
    for i in sorted(os.listdir(f"{ROOT}/seeded")):
        m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
        rows.append(f"| {i} | {m['property']} | {m['needs']} |")
    text = text.replace("{{PROPERTIES}}", "\n".join(sec)).replace("{{SEEDED}}", "\n".join(rows))
    k = json.load(open(f"{ROOT}/known_findings.json"))
    text = text.replace("{{FIXED}}", "\n".join("- " + x.replace("fixed: property=", "") for x in k["fixed"]))
    text = text.replace("{{KNOWN}}", "\n".join(f"- {x['id']} ({x['property']}, case {x['case']}): {x['what']}" for x in k["known"]))
    open(f"{ROOT}/DESIGN.md", "w").write(text)
    print([p["id"] for p in props if p["id"] not in how])


main()
