#!/usr/bin/env python3
# kf.py PROPERTY COMMIT WHAT...   records a repaired defect
import json, sys
p, c, w = sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:])
f = '/verif/known_findings.json'
d = json.load(open(f))
d.append(dict(property=p, status='fixed', commit=c, what=w, record=f'fixed: property={p} {c} {w}'))
json.dump(d, open(f, 'w'), indent=1)
open(f, 'a').write('\n')
