"""Writes DESIGN.md from tools/DESIGN.tmpl.md, the planted bugs, the findings and the claims."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/tools/DESIGN.tmpl.md").read()
claimed = {os.path.basename(f)[:3].upper() for f in glob.glob(V + "/sim/dst/props/[a-z][0-9][0-9].py")}
C = {
    "C02": "* **C02 failing commands.** Real commands through `improver.cli.main`, in one process and with files, with every fault: missing, truncated or unreadable inputs,\n  invalid metadata and options, an exception or interruption at a seeded line, disk errors while saving.  The directory\n  afterwards is as before; the command run again without the fault writes the file of an undisturbed run.",
    "C03": "* **C03 saving and loading** as histories of saves, overwrites, loads and deferred reads on a few paths, refined against a model that maps each path to the cubes last saved there.",
    "C05": "* **C05 loading several files**: permutations, read faults at any file or read, retries, deferred or immediate, against the union of what is stored.",
    "C06": "* **C06 deferred input**: the corpus with seeded subsets of inputs deferred in seeded chunks, and failing reads; results equal those of data in memory.",
    "C12": "* **C12 suites**: workflows of real commands linked by files, run in any dependency-respecting order, with crashes, errors, reruns and concurrent steps; in the end every output equals that of an undisturbed sequential run.",
}
s = s.replace("@@C_MORE@@\n", "".join(C[k] + "\n" for k in sorted(C) if k in claimed))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
open_ = [p for p in props if p["id"] not in claimed and not p["id"].startswith("N")]
s = s.replace("@@C_NA@@\n", "".join("* **%s** (%s): simulation applies, but its check is not built; not claimed.\n" % (p["id"], p["title"]) for p in open_) + "\n")
k = json.load(open(V + "/known_findings.json"))
s = s.replace("@@NFIX@@", "%d defects" % len(k["fixed"]))
rows = ["| planted bug | property | caught by its check | what it breaks | what it needs |", "|---|---|---|---|---|"]
missed = set(json.load(open(V + "/tools/missed.json"))) if os.path.exists(V + "/tools/missed.json") else set()
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], "no" if n in missed else "yes", m["what_it_breaks"].replace("|", "/"), str(m["needs"]).replace("|", "/")))
s = s.replace("@@BUGS@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
