#!/usr/bin/env python3
"""regenerate the table of planted bugs in DESIGN.md (every bug is caught by its property's check, as confirmed by mutants.sh)"""
import collections, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for d in sorted(os.listdir(V + "/seeded")):
    p = json.load(open("%s/seeded/%s/meta.json" % (V, d)))["property"]
    by[p].append(d[4:] if d.startswith(p + "-") else d)
rows = "".join("| %s | %s |\n" % (p, ", ".join(by[p])) for p in sorted(by))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n| check | catches |\n|----|----|\n%s<!-- /seeds -->" % rows, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(sum(map(len, by.values())), "planted bugs")
