#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
import registry
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    c = registry.CHECKS.get(pid)
    if not c:
        na.append({'property': pid, 'reason': registry.NOT_CLAIMED.get(pid, 'not decided yet: the exploration for it is still being built')})
        continue
    checks.append({'property': pid, 'quick_cmd': 'python3 run.py %s quick' % pid, 'thorough_cmd': 'python3 run.py %s thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': c.get('technique', 'exhaustive bounded exploration of the real code against an independent reference model'),
                   'level': c.get('level', 'model_checking'),
                   'level_note': c.get('note', 'Every behaviour within the bounds is executed on the real code and compared with an independent reference; nothing is sampled. Bounds: %s.' % c['bounds'])})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
