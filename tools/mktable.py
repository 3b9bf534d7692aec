"""Writes the table of planted bugs (from seeded/*/meta.json) into DESIGN.md, between its two markers."""
import json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| planted bug (caught by the check of the property in its name) | manifests with | breaks |", "|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
s = open("DESIGN.md").read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open("DESIGN.md", "w").write(s)
