"""Writes known_findings.json: the repaired defects, taken from /repo's "fix:" commits, and the listed findings."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for line in """23b822f C09 C03
cd73d8c C11
034a15e C13
3a700d3 C01
ad5129f C12 C03
47e9610 C01
db516bf C12
7730bb7 C01 C12
74d7010 C03
8965e2d C03
382ebbd C05
e398345 C11
48c2bdb C11
46c56a4 C11
09920a6 C10
2fe2f24 C10
692614a C10
f79e195 C10
f94ef9a C10 C03
c5b3e85 C01 C07
fe6a4e1 C03 C01
0d63187 C01
fd94790 C04
8f74a5f C02
63bf193 C08
5cc6c95 C09
37d1563 C07
5086b81 C05
18d1625 C05
a4e97c9 C01
2e2f7d5 C01
518ed22 C08
74b6c1a C13
a5c809e C04
8a862d1 C03
d7bbd6a C11
1a59254 C11
91ccef1 C13
e2f6cc6 C13
646aff2 C13
e448ef7 C13
6b54316 C13
8233d9f C13
31615f4 C13
722853a C13
d7ddb41 C09""".splitlines():
    h, *ps = line.split()
    PROP[h] = ps
FINDINGS = []
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h|%s"], capture_output=True, text=True).stdout
fixed = []
for l in out.splitlines():
    h, s = l.split("|", 1)
    if s.startswith("fix:"):
        for p in PROP[h[:7]]:
            fixed.append("fixed: property=%s %s %s" % (p, h, s[5:]))
json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(fixed), "fixed entries")
