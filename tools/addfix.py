#!/usr/bin/env python3
"""addfix.py PROPERTY TEXT [REV]: records /repo's REV (HEAD) as a repaired finding."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, 'known_findings.json')
h = subprocess.check_output(
    ['git', '-C', '/repo', 'rev-parse', '--short', (sys.argv + ['HEAD'])[3]]).decode().strip()
d = json.load(open(p))
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[2]))
open(p, 'w').write(json.dumps(d, indent=1) + '\n')
