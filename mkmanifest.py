"""Writes MANIFEST.json from the table below."""
import json
CH = {}
exec(open('manifest_table.py').read())
checks = []
for p, (tech, note) in sorted(CH.items()):
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p, 'thorough_cmd': 'python3-vt check.py %s thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': tech, 'level': 'proof', 'level_note': note})
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
na = [{'property': i, 'reason': NA.get(i, 'machinery for this property is still being built')} for i in ids if i not in CH]
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the public API only', 'source_commits': []},
           'notes': NOTES}, open('MANIFEST.json', 'w'), indent=1)
