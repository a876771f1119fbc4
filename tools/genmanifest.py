"""Writes MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in props.CHECKS:
        t, note = props.NOTES[p]
        checks.append(dict(property=p, quick_cmd='python3 tools/check.py %s quick' % p,
                           thorough_cmd='python3 tools/check.py %s thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=t,
                           level='model_checking', level_note=note))
    else:
        na.append(dict(property=p, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC; harness/ binds them to the real code through its '
               'public API, HTTP handlers and RPC service. No hooks in /repo are needed: preemption points for the '
               'concurrent recordings are inserted by a build overlay made from the working tree. Repairs of genuine '
               'defects are listed in known_findings.jsonl.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
