#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | what it needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    need = m['needs']
    need = need if isinstance(need, str) else '; '.join(need)
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {need.replace('|','/')} | {m.get('caught_by', m['property'])} |")
p = R + '/DESIGN.md'
s = open(p).read()
new = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
if '@TABLE@' in s:
    s = s.replace('@TABLE@', new)
else:
    s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: new, s, flags=re.S)
open(p, 'w').write(s)
