"""writes the table of planted bugs (seeded/*/meta.json) into DESIGN.md, section 6"""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].replace("|", "/").split("\n")[0][:140]))
head = "## 6 Planted bugs and the check that reports each\n"
txt = head + '''Every one of these compiles and passes the suite, has a demonstration, and is reported (exit 1 with the property's
VIOLATION line) by the check of the property named.

| seed | caught by | what it breaks |
|------|-----------|----------------|
''' + "\n".join(rows) + "\n"
p = root + "/DESIGN.md"
s = open(p).read()
s = s[:s.index(head)] if head in s else s.rstrip() + "\n\n"
open(p, "w").write(s + txt)
