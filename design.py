"""DESIGN.md from its template, the known findings and the planted changes"""
import glob, json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
s = open("DESIGN.tmpl.md").read()
fx = "".join("* %s\n" % l.strip()[len("fixed: property="):] for l in open("known_findings.jsonl") if l.startswith("fixed:"))
caught = json.load(open("seeded.json")) if os.path.exists("seeded.json") else {}
sd = "| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    i = d.split("/")[1]
    sd += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "?"))
more = open("DESIGN.more.md").read() if os.path.exists("DESIGN.more.md") else ""
open("DESIGN.md", "w").write(s.replace("@@FIXES@@", fx).replace("@@SEEDS@@", sd).replace("@@MORE@@\n", more))
