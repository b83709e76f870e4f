#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the list of implemented checks and the hook commits."""
import json, subprocess, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
impl = subprocess.check_output(['sh', '-c', r"grep -ho 'ID: *\"[A-Z][0-9][0-9]\"' harness/*.go | grep -o '[A-Z][0-9][0-9]'"], cwd=root, text=True).split()
hooks = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'], text=True).split()
tech = json.load(open(root + '/tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i not in impl:
        na.append({'property': i, 'reason': tech.get(i, {}).get('na', 'check not built yet')})
        continue
    t = tech[i]
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i}',
        'thorough_cmd': f'./check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': t['technique'],
        'level': t.get('level', 'exploration'),
        'level_note': t['note'],
    })
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {
        'guard': "Go build tag 'verif'",
        'enable': "the checks build with -tags cppbtree,verif",
        'source_commits': hooks,
    },
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks are property-based tests over generated histories, operation sequences, byte strings, schedules or crash points with explicit oracles; see DESIGN.md. check.sh builds the harness from /repo with the module replaced by /repo, in a scratch directory it removes.',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
