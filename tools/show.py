#!/usr/bin/env python3
"""show.py TRACES INDEX [FRONTIER]: print a recorded trace (1-based index)."""
import json, sys
t = [json.loads(l) for l in open(sys.argv[1])][int(sys.argv[2]) - 1]
fr = int(sys.argv[3]) if len(sys.argv) > 3 else 0
print(t['id'], t['cfg'])
for i, e in enumerate(t['ev'], 1):
    s = {k: v for k, v in e.items() if k not in ('e', 'f')}
    f = e.get('f')
    if f:
        s = f"{s} {f['cmd']} {' '.join(k + ':' + v for k, v in f['h'])} [{f['b'][:40]}]"
    print('>>>' if i == fr else '   ', i, e['e'], s)
