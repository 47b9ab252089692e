#!/usr/bin/env python3
# Writes MANIFEST.json: every property with a committed harness is claimed (tools/unclaimed.txt lists the others with a reason).
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open('properties.jsonl')]
un = {}
if os.path.exists('tools/unclaimed.txt'):
    for l in open('tools/unclaimed.txt'):
        l = l.strip()
        if l and not l.startswith('#'):
            k, v = l.split(' ', 1)
            un[k] = v
notes = {}
if os.path.exists('tools/notes.txt'):
    for l in open('tools/notes.txt'):
        l = l.strip()
        if l and not l.startswith('#'):
            k, v = l.split(' ', 1)
            notes[k] = v
checks, na = [], []
for p in props:
    i = p['id']
    d = os.path.join('harness', i)
    if i in un or not os.path.isdir(d) or not any(f.endswith('.go') for f in os.listdir(d)):
        na.append({'property': i, 'reason': un.get(i, 'no check built yet: the code is in reach of the technique, the harness is still missing')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check %s' % i,
        'thorough_cmd': 'VERIF_TIER=thorough ./check %s' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of the SSA of the real code, assertions decided by Z3, counterexamples replayed on the compiled code',
        'level': 'model_checking',
        'level_note': notes.get(i, 'every value within the bounds listed in the evidence file; hashes are ideal functions'),
    })
json.dump({'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
