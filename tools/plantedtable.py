"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (all of them are caught; tools/seedcheck.py)."""
import glob, json, os, re, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = collections.defaultdict(list)
for m in sorted(glob.glob(V + "/seeded/*/meta.json")): t[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
s = open(V + "/DESIGN.md").read()
head = "| check | planted changes it catches |\n|---|---|\n"
i = s.index(head) + len(head); j = i
while s[j] == "|": j = s.index("\n", j) + 1
s = s[:i] + "".join("| %s | %s |\n" % (k, ", ".join(t[k])) for k in sorted(t)) + s[j:]
open(V + "/DESIGN.md", "w").write(s)
