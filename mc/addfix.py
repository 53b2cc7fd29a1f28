#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT-SUBJECT-PREFIX WHAT: record a fix: commit of /repo in known_findings.json"""
import json, subprocess, sys
pid, key, what = sys.argv[1:4]
p = '/verif/known_findings.json'
k = json.load(open(p))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
h = [l.split()[0] for l in log if ('fix: ' + key) in l]
assert len(h) == 1, (key, h)
line = f'fixed: property={pid} {h[0]} {what}'
if line not in k['fixed']: k['fixed'].append(line)
json.dump(k, open(p, 'w'), indent=1)
