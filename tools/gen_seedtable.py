#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
head = s[:s.index("## 5. Planted bugs")]
NOTE = {"C16-stable-index16": "missed at first: inputs past 2^16 elements added to C16 (and C02, C17, C18, C20, C28)"}
NOTE.update(json.load(open(V + "/tools/seed_notes.json")) if os.path.exists(V + "/tools/seed_notes.json") else {})
t = ["## 5. Planted bugs and what catches them", "",
     "Each was written from a property's text, confirmed to pass the existing tests, and is caught by the quick check of its own",
     "property (exit 1, VIOLATION). Where a change was missed at first, the note says what was strengthened.", "",
     "| planted bug | file | needs | caught by | note |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    f = [l[6:].strip() for l in open(os.path.dirname(d) + "/patch.diff") if l.startswith("+++ b/")]
    t.append("| %s | %s | %s | %s | %s |" % (i, ", ".join(x.replace("include/cpp-sort/", "") for x in f), m["needs"].replace("|", "/"), m["property"], NOTE.get(i, "")))
open(p, "w").write(head + "\n".join(t) + "\n")
