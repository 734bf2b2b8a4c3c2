#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the properties, the unit lines, the known findings and the trials of planted bugs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
T = os.path.join(V, 'tools')
units = check.load_units()
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
na = json.load(open(os.path.join(T, 'not_applicable.json')))
known = json.load(open(os.path.join(V, 'known_findings.json')))
p = os.path.join(T, 'seed_results.json')
res = json.load(open(p)) if os.path.exists(p) else {}
notes = {}
n = os.path.join(T, 'design_notes.json')
if os.path.exists(n):
    notes = json.load(open(n))
out = [open(os.path.join(T, 'design_head.md')).read().rstrip(), '', '## 6. The properties', '']
for q in props:
    us = [u for u in units if u['prop'] == q['id']]
    out.append('### %s %s' % (q['id'], q['title']))
    out.append('')
    out.append(q['statement'])
    out.append('')
    if q['id'] in na or not us:
        out += ['Not claimed: ' + na.get(q['id'], 'no finished harness'), '']
        continue
    out.append('*Code:* ' + '; '.join('%s (%s)' % (a['name'], a['where']) for a in q['anchors']['mechanism']) + '.')
    if q['id'] in notes:
        out += ['', notes[q['id']]]
    out += ['', '*Units* (harness `%s`; bounds where two numbers are given: quick/thorough):' % '`, `'.join(sorted({u['file'] for u in us})), '']
    for u in us:
        ps = ', '.join('%s=%d/%d' % (k, v[0], v[1]) if v[0] != v[1] else '%s=%d' % (k, v[0]) for k, v in sorted(u['params'].items()))
        out.append('- `%s`%s: %s' % (u['name'], ' (' + ps + ')' if ps else '', u['bound']))
    out.append('')
    f = [k for k in known if k['property'] == q['id']]
    if f:
        out.append('*Defects:* ' + '; '.join((k['what'].split(' ', 3)[-1] if k['status'] == 'fixed' else 'OPEN ' + k['what']) + (' (%s)' % k['commit'] if k.get('commit') else '') for k in f) + '.')
        out.append('')
out += ['## 7. Planted bugs and what catches them', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    r = res.get(d, {})
    c = 'not tried since the last change' if not r else ('%s: %s' % (m['property'], r['by']) if r['caught'] else 'missed')
    out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), c.replace('|', '/')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
