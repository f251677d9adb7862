#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry, vt
ids = [json.loads(l)['id'] for l in open(os.path.join(vt.VERIF, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in registry.PROPS:
        continue
    fam, level, assume = registry.PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': fam.TECHNIQUE, 'level': level,
                   'level_note': fam.NOTE + ' Assumes: ' + '; '.join(assume) + '.'})
na = [{'property': i, 'reason': registry.NA.get(i, 'not built yet')} for i in ids if i not in registry.PROPS]
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harnesses compile its sources with the allocator macros it already has. TLA+ with TLC throughout, see DESIGN.md.'}
with open(os.path.join(vt.VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
