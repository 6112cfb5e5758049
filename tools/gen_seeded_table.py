#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,glob,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    f=sorted(set(re.findall(r"^\+\+\+ b/(\S+)",open(os.path.dirname(d)+"/patch.diff").read(),re.M)))
    rows.append((m["property"],n,", ".join(f),m["needs"],m["what_it_breaks"]))
rows.sort()
t="| caught by | bug | file | needs | breaks |\n|---|---|---|---|---|\n"+"".join("| %s | %s | %s | %s | %s |\n"%r for r in rows)
p=V+"/DESIGN.md"; s=open(p).read()
a="<!-- planted -->\n"; b="<!-- /planted -->"
i,j=s.index(a)+len(a),s.index(b)
open(p,"w").write(s[:i]+t+s[j:])
print(len(rows))
