#!/usr/bin/env python3
"""add_known.py fixed PROP COMMIT WHAT | open PROP UNIT CHECK WHAT [kind] [where]"""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(P)) if os.path.exists(P) else []
a = sys.argv[1:]
if a[0] == 'fixed':
    k.append({'status': 'fixed', 'property': a[1], 'commit': a[2], 'what': 'fixed: property=%s %s %s' % (a[1], a[2], a[3])})
else:
    e = {'status': 'open', 'property': a[1], 'unit': a[2], 'check': a[3], 'what': a[4]}
    if len(a) > 5 and a[5]: e['kind'] = a[5]
    if len(a) > 6: e['where'] = a[6]
    k.append(e)
json.dump(k, open(P, 'w'), indent=1)
