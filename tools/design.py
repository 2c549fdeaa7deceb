"""Writes DESIGN.md from tools/design.head, properties.jsonl, the evidence of
the last runs, tools/design.tail, the planted bugs and known-findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
out = [open("tools/design.head").read()]
P = [json.loads(l) for l in open("properties.jsonl")]
M = json.load(open("MANIFEST.json"))
C = {c["property"]: c for c in M["checks"]}
T = {}
if os.path.exists("tools/times.json"):
    T = json.load(open("tools/times.json"))
out.append("## 2. Property by property\n\n"
           "Figures are of the last quick run here (8 cores); thorough runs explore larger\n"
           "spaces of the same kind, as given in each `mc/<id>.py`.\n\n")
for p in P:
    c = C.get(p["id"])
    out.append("### %s: %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"]))
    if not c:
        out.append("Not decided: %s\n\n" % [x["reason"] for x in M["not_applicable"] if x["property"] == p["id"]][0])
        continue
    f = "evidence/%s.json" % p["id"]
    if os.path.exists(f):
        e = json.load(open(f))
        if e["tier"] == "quick":
            T[p["id"]] = [e["coverage"]["rule"], e["assumptions"], e["coverage"]["states"], e["coverage"]["transitions"], round(e["wall_s"]),
                          len(e["coverage"].get("caps", []))]
    t = T.get(p["id"])
    out.append("* *Enumerated:* %s.\n" % p["quantifier"]["text"])
    if t:
        out.append("* *States and transitions:* %s.\n" % t[0])
    out.append("* *Deciding step:* %s. %s\n" % (c["technique"], c["level_note"]))
    if t:
        if t[1]:
            out.append("* *Assumed:* %s.\n" % "; ".join(t[1]))
        out.append("* *Cost (quick):* %d states, %d transitions, about %d s%s.\n" % (
            t[2], t[3], t[4], "; %d spaces are capped, as listed in the evidence" % t[5] if t[5] else ""))
    out.append("* *Beyond tests:* %s\n\n" % p["why_tests_cant"])
json.dump(T, open("tools/times.json", "w"), indent=0, sort_keys=True)
out.append("\n" + open("tools/design.tail").read())
R = {}
for l in open("tools/trials.txt"):
    k, v = l.rstrip("\n").split(" ", 1)
    R[k] = v
out.append("\n## 5. Planted bugs\n\nEach is in seeded/, made from a property's text and the code; the result is that\nof the quick check of the property it breaks.\n\n"
           "| bug | property | needs | result |\n|---|---|---|---|\n")
for b in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % b))
    out.append("| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"].replace("|", "/"), R.get(b, "not run")))
K = json.load(open("known-findings.json"))
out.append("\n## 6. Defects found\n\nRepaired, each by a commit of its own in /repo:\n\n")
for x in K["fixed"]:
    out.append("* %s\n" % x.split(": ", 1)[1])
out.append("\nRecorded, not repaired:\n\n")
for x in K["findings"]:
    out.append("* %s: %s%s\n" % (x["property"], x["what"], ".  " + x["why"] if "why" in x else ""))
open("DESIGN.md", "w").write("".join(out))
