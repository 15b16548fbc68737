"""DESIGN.md from doc/: design.in.md, one file per property, seeded bugs"""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
t = open(R + "/doc/design.in.md").read()
sec = ""
for p in props:
    f = f"{R}/doc/{p['id']}.md"
    body = open(f).read().strip() if os.path.exists(f) else "*(check being built)*"
    sec += f"### {p['id']} {p['title']}\n\n{body}\n\n"
caught = json.load(open(R + "/doc/caught.json")) if os.path.exists(R + "/doc/caught.json") else {}
rows = "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    rows += f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(i, [])) or '-'} |\n"
get = lambda n: open(f"{R}/doc/{n}.md").read() if os.path.exists(f"{R}/doc/{n}.md") else ""
t = (t.replace("@@SECTIONS@@", sec).replace("@@SEEDED@@", rows)
      .replace("@@OPEN@@", get("open")).replace("@@FALSE@@", get("false")))
open(R + "/DESIGN.md", "w").write(t)
