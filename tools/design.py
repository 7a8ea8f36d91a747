"""Fills the generated sections of DESIGN.md from tools/design.src.md, properties, known findings and seeded bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
how = {}
cur = None
sec = {}
for line in open(V + "/tools/design.txt"):
    if line.startswith("## "):
        cur = line[3:].strip(); sec[cur] = ""
    elif cur:
        sec[cur] += line
out = "## Properties and how they are decided\n"
for p in props:
    out += f"\n### {p['id']} {p['title']}\n\n{sec.get(p['id'], 'TODO').strip()}\n"
known = json.load(open(V + "/known-findings.json"))
d = "\n".join("* " + x for x in known["fixed"]) + "\n" + "\n".join(f"* known finding {k['id']} ({k['property']}): {k['what']}. Input: {k['input']}. {k.get('why', '')}" for k in known["known"])
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
b = "| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    b += f"| {i} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {caught.get(i, j['property'] + ' (earlier run)')} |\n"
s = open(V + "/tools/design.src.md").read()
for k, v in (("PROPS", out), ("DEFECTS", sec["DEFECTS"].strip() + "\n\n" + d), ("FALSE", sec["FALSE"].strip()), ("BUGS", b + "\n" + sec.get("BUGS", "")), ("NOT", sec["NOT"].strip())):
    s = s.replace(f"@@{k}@@", v)
open(V + "/DESIGN.md", "w").write(s)
