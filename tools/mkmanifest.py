#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/claims.py and properties.jsonl."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,'tools'))
from claims import CLAIMS, NA
props=[json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
checks=[]
for p in props:
    if p in CLAIMS:
        c=CLAIMS[p]
        checks.append(dict(property=p, quick_cmd=f"python3 checks/{c['check']} {p}",
            thorough_cmd=f"env VERIF_TIER=thorough python3 checks/{c['check']} {p}", evidence_file=f"evidence/{p}.json",
            technique=c['technique'], level=c.get('level','model_checking'), level_note=c['note']))
na=[dict(property=p, reason=NA.get(p,'check not built yet')) for p in props if p not in CLAIMS]
m=dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
       notes="One TLA+ specification per domain in spec/, bound to the code by trace validation with TLC. See DESIGN.md.")
json.dump(m, open(os.path.join(V,'MANIFEST.json'),'w'), indent=1)
print(len(checks),'claimed', len(na),'not')
