#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
T = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
# the commits that touched the hooks
HOOKS = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--reverse', '--', 'hooks_verif.go'], stdout=subprocess.PIPE, text=True).stdout.split()
checks, missing = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness/props', i.lower(), i.lower() + '_test.go')):
        tech, note = T[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s quick' % i,
            'thorough_cmd': 'python3 check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': tech,
            'level': 'exploration',
            'level_note': note,
        })
    else:
        missing.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': missing,
           'hooks': {'guard': 'verif (Go build tag)', 'enable': 'go test -c -tags=verif (only C26 uses a hook, and goes on without it if it does not build any more)',
                     'source_commits': HOOKS},
           'notes': 'The checks build the packages of /repo from its working tree through a replace directive. All but C26 need no hooks in it.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
