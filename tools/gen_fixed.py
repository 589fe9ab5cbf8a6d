#!/usr/bin/env python3
"""Lists the repairs made in /repo under "fixed" in known_findings.json (run by hand after a fix commit)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHICH = json.load(open(os.path.join(HERE, 'tools', 'fixed.json')))       # subject of the commit -> property

log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
path = os.path.join(HERE, 'known_findings.json')
data = json.load(open(path))
data['fixed'] = []
for line in log.splitlines():
    commit, _, subject = line.partition(' ')
    if subject.startswith('fix: '):
        data['fixed'].append(f'fixed: property={WHICH[subject]} {commit} did not hold before: {subject[5:]}')
with open(path, 'w') as handle:
    json.dump(data, handle, indent=1)
    handle.write('\n')
