"""Appends the table of planted bugs to DESIGN.md."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
mark = "the bug's own property catches it unless said otherwise.\n"
i = s.index(mark) + len(mark)
missed = json.load(open(os.path.join(root, "tools", "missed.json"))) if os.path.exists(os.path.join(root, "tools", "missed.json")) else {}
rows = ["", "| bug | needs | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (n, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), missed.get(n, m["property"])))
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
