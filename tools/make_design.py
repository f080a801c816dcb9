"""Appends the table of planted bugs to DESIGN.md (from seeded/*/meta.json and tools/caught.json)."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
mark = "## 6. Planted bugs and the checks that catch them"
s = s[:s.index(mark)]
c = json.load(open(os.path.join(HERE, "tools", "caught.json")))
rows = [mark, "", "Quick tier, seed 1, unless noted. `first` is how the check did when the bug was planted, before it was strengthened.", "",
        "| bug | breaks | needs | caught by | first |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    k = c.get(i, {})
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"),
                                              k.get("by", "?"), k.get("first", "caught")))
open(p, "w").write(s + "\n".join(rows) + "\n")
print(len(rows) - 6)
