#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has units, the others under not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
units = check.load_units()
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
na = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
checks, nas = [], []
for p in props:
    us = [u for u in units if u['prop'] == p['id']]
    if p['id'] in na or not us:
        nas.append({'property': p['id'], 'reason': na.get(p['id'], 'its harness is not finished; no check is claimed yet')})
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'symbolic execution of the LLVM IR compiled from /repo, every assertion and memory access decided by Z3 within bounds; counterexamples replayed natively',
                   'level': 'model_checking',
                   'level_note': '%d units: %s. Bounded: nothing is claimed outside the bounds stated per unit in the evidence. Trusted: clang front end and a few LLVM passes, the engine, Z3, the runtime model of libc/libstdc++ streams (sampled paths are compared with native runs).' % (
                       len(us), ', '.join(u['name'] for u in us))})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': nas,
     'notes': 'No hooks in /repo: the harnesses use the public interface only. Repairs are separate fix: commits, listed in known_findings.json.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(nas), 'not applicable')
