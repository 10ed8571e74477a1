"""Writes DESIGN.md from its parts, the known findings and the planted bugs."""
import glob
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = json.load(open(os.path.join(R, "known_findings.json")))
out = [open(os.path.join(R, "tools", "design_head.md")).read().rstrip(), "", "## 3. Defects repaired in /repo", "",
       "Each was found by a check (or by making one), shown on the real code, and repaired by one `fix:` commit:", ""]
out += ["* " + x[len("fixed: "):] for x in K["fixed"]]
out += ["", "## 4. Known findings, not repaired", "",
        "`known_findings.json`, `table_phase`: the characters of %d k points of the tables (data files) multiply with exp(+ik.t), all others with exp(-ik.t), which is what the program uses:" % len(K["table_phase"]),
        "", ", ".join("%d%s %s" % (x["sg"], " (spin)" if x["spinor"] else "", x["k"]) for x in K["table_phase"]) + ".", "",
        "The repair would be a change of data whose original source (Bilbao server) is not available here. C05 prints a KNOWN-FINDING line for each, any other irrep is still judged.", ""]
out += [open(os.path.join(R, "tools", "design_tail.md")).read().strip(), "", "| planted bug | file | manifests with |", "|-|-|-|"]
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    p = open(f.replace("meta.json", "patch.diff")).read().split("+++ b/")[1].split("\n")[0]
    out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), p, m["needs"]))
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out) + "\n")
