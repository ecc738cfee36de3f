#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from spec/*.py (one table per property)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, V + '/spec')
import table
props, checks, na = [], [], []
for p in table.P:
    d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
    d['anchors'].setdefault('hook_needed', None)
    assert len(d['title']) <= 80, d['title']
    props.append(d)
    if 'na' in p: na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'bash check.sh %s quick' % p['id'], 'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
props.sort(key=lambda d: d['id']); checks.sort(key=lambda d: d['property']); na.sort(key=lambda d: d['property'])
with open(V + '/properties.jsonl', 'w') as f:
    for d in props: f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: all checks inspect the source of /repo as it is. ' + table.NOTES}
with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
