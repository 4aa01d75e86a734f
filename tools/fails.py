#!/usr/bin/env python3
"""Show the undischarged obligations and the slowest functions of a govc result file."""
import json, sys
d = json.load(open(sys.argv[1]))
for f in sorted(d['Results'], key=lambda f: -(f.get('WallMS') or 0))[:6]:
    print(f['Key'], f.get('WallMS'), 'ms', f.get('Paths'), 'paths', len(f.get('Obls') or []))
for f in d['Results']:
    if f.get('Unsupported'): print('UNSUPPORTED', f['Key'], f['Unsupported'])
    for o in f.get('Obls') or []:
        if not o.get('OK'):
            print('FAIL', f['Key'], o['Kind'], o['Label'], o['Text'][:140], o['Pos'], 'TRACE', o['Trace'][-200:])
