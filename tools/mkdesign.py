"""Writes DESIGN.md: the prose below, and per property the bounds, stubs and exclusions of its harness."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
KNOWN = json.load(open(os.path.join(HERE, "known_findings.json")))


def consts(i):
    out = {}
    p = os.path.join(HERE, "harness", i + ".py")
    if os.path.exists(p):
        for n in ast.parse(open(p).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "STUBS", "OUTSIDE", "ASSUMPTIONS"):
                out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


intro, method, outro = open(os.path.join(HERE, "tools", "design.txt")).read().split("=====\n")
m = {}
for para in method.strip().split("\n\n"):
    i, t = para.split(" ", 1)
    m[i] = t.replace("\n", " ")
out = [intro]
for p in P:
    i = p["id"]
    c = consts(i)
    out.append("### %s %s\n" % (i, p["title"]))
    if not c:
        out.append("Not applicable: %s\n" % m[i])
        continue
    out.append(m.get(i, "") + "\n")
    out.append("- Bounds: %s.\n- Stubs: %s.\n- Outside: %s." % (c["BOUNDS"], c["STUBS"], c["OUTSIDE"]))
    if "ASSUMPTIONS" in c:
        out.append("- Assumed: %s." % "; ".join(c["ASSUMPTIONS"]))
    seeds = sorted(s for s in os.listdir(os.path.join(HERE, "seeded")) if json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))["property"] == i) if os.path.isdir(os.path.join(HERE, "seeded")) else []
    if seeds:
        out.append("- Planted bugs it catches: %s." % ", ".join("`%s`" % s for s in seeds))
    k = [e for e in KNOWN["known"] if i in e["properties"]]
    for e in k:
        out.append("- Known finding %s: %s (%s)." % (e["id"], e["what"], e["where"]))
    f = [e.split(" ", 3) for e in KNOWN["fixed"] if e.startswith("fixed: property=%s " % i)]
    for e in f:
        out.append("- Repaired (%s): %s." % (e[2], e[3]))
    out.append("")
out.append(outro)
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
