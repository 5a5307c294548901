#!/usr/bin/env python3
"""The properties, and what MANIFEST.json says of their checks: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []

def P(id, title, statement, over, text, why, files, mech, technique, note, state=(), na=None):
    j = dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over.split(), text=text), why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    PROPS.append((j, technique, " ".join((note or "").split())))
    if na: NA.append(dict(property=id, reason=" ".join(na.split())))

TERM = "path enumeration over MIR with value numbering (linear terms), no solver, no execution"
FLOW = "path-sensitive must/must-not dataflow over MIR events (typestate), interprocedural"

exec(open(f"{V}/tools/props_core.py").read())
for n in ("fraos", "ilm", "multiverse", "select", "chain"):
    if os.path.exists(f"{V}/tools/props_{n}.py"): exec(open(f"{V}/tools/props_{n}.py").read())

ids = [j["id"] for j, _, _ in PROPS]
assert len(ids) == len(set(ids)), ids
for j, _, _ in PROPS: assert len(j["title"]) <= 80, j["title"]
with open(f"{V}/properties.jsonl", "w") as f:
    for j, _, _ in PROPS: f.write(json.dumps(j) + "\n")
na = {x["property"] for x in NA}
m = dict(version=1, setup_cmd="./setup.sh", checks=[
    dict(property=j["id"], quick_cmd=f"./check {j['id']} quick", thorough_cmd=f"./check {j['id']} thorough", technique="static analysis: " + t, level="other", level_note=n)
    for j, t, n in PROPS if j["id"] not in na], not_applicable=NA,
    notes="Every check rebuilds the MIR facts of /repo's current sources with its own rustc driver (no hooks in /repo) and decides its rule over them; see DESIGN.md.")
with open(f"{V}/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(PROPS), "properties,", len(m["checks"]), "checks,", len(NA), "not applicable")

# the per-property part of DESIGN.md, from what is said above and from the rules' own words
import sys
sys.path.insert(0, f"{V}/sa")
import rules
out = []
for j, t, n in PROPS:
    out.append(f"### {j['id']} {j['title']}\n")
    if j["id"] in na:
        out.append(f"Not applicable: {next(x['reason'] for x in NA if x['property'] == j['id'])}\n"); continue
    f, crates, doc = rules.RULES[j["id"]]
    out.append(f"* Holds over: {j['quantifier']['text']}.\n* Analysed: {', '.join(crates)} ({', '.join(j['anchors']['files'])}); technique: {t}.\n"
               f"* Decided: {doc[:1].upper() + doc[1:]}{'' if doc.endswith('.') else '.'}\n* Bounds and assumptions: {n}\n* Beyond tests: {j['why_tests_cant']}\n")
seeds = []
for d in sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []:
    s = json.load(open(f"{V}/seeded/{d}/meta.json"))
    seeds.append(f"| {d} | {s['property']} | {s['needs']} | {s.get('caught', s['property'])} |\n")
d = open(f"{V}/DESIGN.md").read()
def put(d, mark, text):
    a, b = f"<!-- {mark} -->", f"<!-- end {mark} -->"
    return d[:d.index(a) + len(a)] + "\n\n" + text + "\n" + d[d.index(b):]
d = put(d, "properties", "\n".join(out))
d = put(d, "seeded", "| planted bug | property | needs | caught by |\n|---|---|---|---|\n" + "".join(seeds))
open(f"{V}/DESIGN.md", "w").write(d)
