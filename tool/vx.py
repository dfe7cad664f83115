#!/usr/bin/env python3
"""dev driver: vx.py [-v] fn... : generate and verify the given overlays"""
import sys, os, subprocess, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
args = sys.argv[1:]
extra = []
roots = []
th = []
i = 0
vac = False
mod = []
while i < len(args):
    a = args[i]
    if a == '--':
        extra = args[i + 1:]
        break
    if a == '-t':
        th.append(args[i + 1]); i += 2; continue
    if a == '-m':
        mod.append(args[i + 1]); i += 2; continue
    if a == '-faults':
        gen.FAULTS = True; i += 1; continue
    if a == '-vac':
        vac = True; i += 1; continue
    roots.append(a); i += 1
g = gen.Gen(gen.load_overlays(), roots, th, vac, modular=mod)
text = g.generate()
d = os.path.join(gen.ROOT, '.build', 'dev')
os.makedirs(d, exist_ok=True)
p = os.path.join(d, 'x.rs')
open(p, 'w').write(text)
for l in g.lost:
    print('LOST', l)
t = time.time()
r = subprocess.run(['verus', '--crate-type=lib', p, '--num-threads', '8', '--triggers-mode', 'silent'] + extra, capture_output=True, text=True)
out = r.stderr + r.stdout
print(out[-9000:])
import re
for m in sorted(set(int(x) for x in re.findall(r'x\.rs:(\d+):', out))):
    print(m, g.where(m))
print('%.1fs' % (time.time() - t))
