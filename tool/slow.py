#!/usr/bin/env python3
"""dev: slowest functions of .build/dev/x.rs"""
import subprocess, json, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '.build', 'dev', 'x.rs')
r = subprocess.run(['verus', '--crate-type=lib', p, '--num-threads', '8', '--time-expanded', '--output-json'], capture_output=True, text=True)
t = r.stdout
j = json.loads(t[t.index('{'):t.rindex('}') + 1])
res = []
def walk(o):
    if isinstance(o, dict):
        if 'function' in o and 'time' in o:
            res.append((o['time'], o.get('rlimit'), o['function'], o.get('success')))
        for v in o.values():
            walk(v)
    elif isinstance(o, list):
        for v in o:
            walk(v)
walk(j)
for x in sorted(res, key=lambda x: -x[0])[:12]:
    print(x)
