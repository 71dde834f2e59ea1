"""Regenerates the generated parts of DESIGN.md (development tool, no check uses it).

DESIGN.md = tools/design_head.md + one section per property (checks/*.py RULE, ASSUMPTIONS, PARTS and
the NOTES below) + the table of planted bugs + tools/design_tail.md.
"""
import importlib, json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
os.chdir(VERIF)
notes = {}
cur = None
for line in open("tools/design_notes.md"):
    if line.startswith("## "):
        cur = line[3:].strip()
        notes[cur] = []
    elif cur:
        notes[cur].append(line)
props = [json.loads(l) for l in open("properties.jsonl")]
out = [open("tools/design_head.md").read().rstrip(), "", "## The properties", ""]
for p in props:
    mod = importlib.import_module("checks." + p["id"].lower())
    out.append(f"### {p['id']} {p['title']}")
    out.append("")
    out.append("*Cases and oracle.* " + mod.RULE)
    out.append("")
    if p["id"] in notes:
        out.append("".join(notes[p["id"]]).strip())
        out.append("")
    out.append("*Taken as given.* " + " ".join(mod.ASSUMPTIONS))
    out.append("")
    out.append("*Bounds.* " + "; ".join(f"part `{x.name}`: {x.quick} generated cases quick, {x.thorough} thorough" for x in mod.PARTS) + ".")
    out.append("")
bugs = []
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    bugs.append((d, m))
out += ["## Planted bugs", "", open("tools/design_bugs.md").read().strip(), "", "| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d, m in bugs:
    out.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
out += ["", open("tools/design_tail.md").read().strip(), "", "## Defects found and repaired", ""]
k = json.load(open("known_findings.json"))
for f in k["fixed"]:
    out.append("- " + f.replace("fixed: ", "").replace("property=", ""))
out.append("")
open("DESIGN.md", "w").write("\n".join(out))
print(len("\n".join(out)))
