"""Writes DESIGN.md: design_head.md, one section per check from its bounds(), design_tail.md and the table of planted bugs."""
import sys, os, importlib, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
P = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
O = json.load(open(V + "/tools/design_oracles.json"))
out = [open(V + "/tools/design_head.md").read()]
for f in sorted(os.listdir(V + "/mc/checks"), key=lambda f: (f[0] != "r", f)):
    if f[0] not in "rd" or not f.endswith(".py"):
        continue
    sys.modules.pop("graphicsUtils", None)     # D04 puts a stand-in there
    m = importlib.import_module("mc.checks." + f[:-3])
    i, q, t = m.ID, m.bounds("quick"), m.bounds("thorough")
    wall = ""
    try:
        e = json.load(open(f"{V}/tools/walls.json"))[i]
        wall = f" ({e:.0f} s)"
    except (OSError, KeyError):
        pass
    out.append(f"### {i} {P[i]['title']}\n\n*Check* `mc/checks/{f}`{wall}.  \n*Explored*: {q}.  \n")
    if q != t:
        out.append(f"*Thorough*: {t}.  \n")
    out.append(f"*Oracle*: {O[i][0]}  \n*Beyond tests*: {O[i][1]}\n")
    if m.ASSUMPTIONS:
        out.append("*Assumes*: " + "; ".join(m.ASSUMPTIONS) + ".\n")
    out.append("\n")
out.append(open(V + "/tools/design_tail.md").read())
notes = json.load(open(V + "/tools/planted_notes.json"))
out.append("| planted bug | needs | caught by | note |\n|---|---|---|---|\n")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    n = notes.get(d, ["caught", ""])
    by = m["property"] if n[0] == "caught" else "**missed**"
    out.append(f"| {d} | {m['needs']} | {by} | {n[1]} |\n")
open(V + "/DESIGN.md", "w").write("".join(out))
