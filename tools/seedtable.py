#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
rows = []
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
t = "<!--seeds-->\n| planted bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n<!--/seeds-->"
s = open('/verif/DESIGN.md').read()
s = re.sub(r"<!--seeds-->.*<!--/seeds-->", lambda m: t, s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
