# Fills the generated sections of DESIGN.md from specs.py, propdefs.py, known-findings.json and seeded/.
import json, glob, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import specs
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
how = {}
key = None
for l in open(R + "/tools/how.txt"):
    l = l.rstrip("\n")
    if l[:1] == "C" and l[3:4] == ":": key = l[:3]; how[key] = l[4:].strip()
    elif key and l.strip(): how[key] += " " + l.strip()
out = []
for p in props:
    if p["id"] not in specs.SPECS: continue
    sp = specs.SPECS[p["id"]]
    out.append("### %s %s\n%s\n\nBounds: %s.\n" % (p["id"], p["title"], how[p["id"]], sp["bounds"].rstrip(".")))
    if sp.get("assumptions"): out[-1] += "\nAssumed: %s.\n" % (sp["assumptions"] if isinstance(sp["assumptions"], str) else "; ".join(sp["assumptions"])).rstrip(".")
sec = {"properties": "\n".join(out)}
k = json.load(open(R + "/known-findings.json"))
sec["findings"] = "\n".join("* %s: %s." % (f["property"], f["what"]) for f in k["findings"])
sec["fixed"] = "\n".join("* " + f for f in k["fixed"])
rows = ["| change | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["needs"].replace("|", "/"), m["property"]))
sec["bugs"] = "\n".join(rows)
sec["na"] = "\n".join("* %s %s: %s." % (n["property"], next(p["title"] for p in props if p["id"] == n["property"]), n["reason"].rstrip(".")) for n in json.load(open(R + "/MANIFEST.json"))["not_applicable"])
d = open(R + "/DESIGN.md").read()
for n, t in sec.items():
    a, b = "<!-- %s -->\n" % n, "<!-- /%s -->" % n
    i, j = d.index(a) + len(a), d.index(b)
    d = d[:i] + t.rstrip("\n") + "\n" + d[j:]
open(R + "/DESIGN.md", "w").write(d)
