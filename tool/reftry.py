#!/usr/bin/env python3
"""dev tool: reftry.py [-v] [-j N] [NAME...]: for each behaviour-preserving edit, the deductive part alone (no build, no harness)"""
import sys, os, subprocess, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors import R
from props import P
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
verbose = '-v' in args
args = [a for a in args if a not in ('-v', '-all')]
n = 3
if '-j' in args:
    k = args.index('-j'); n = int(args[k + 1]); del args[k:k + 2]
prop_only = [a for a in args if a.startswith('P') and a[1:].isdigit()]
names = [a for a in args if a not in prop_only] or list(R)
CODE = '''
import sys, os
sys.path.insert(0, %r)
import check, gen
check.BUILD = %r
v = check.Verus(%r, 'quick')
v.no_vacuity = True
v.run()
print(v.status, v.verified, v.errors, v.reason)
if %r: print(v.out[-5000:])
'''
def one(job):
    name, prop = job
    props, f, edits = R[name]
    t = tempfile.mkdtemp(prefix='rt.', dir='/tmp')
    try:
        shutil.copytree('/repo/src', t + '/repo/src')
        s = open(t + '/repo/' + f).read()
        for a, b in edits:
            if s.count(a) != 1:
                return name, prop, 'EDIT DOES NOT APPLY %d %s' % (s.count(a), a[:50])
            s = s.replace(a, b)
        open(t + '/repo/' + f, 'w').write(s)
        p = subprocess.run(['python3', '-c', CODE % (ROOT + '/tool', t + '/b', prop, verbose)], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=t + '/repo'))
        return name, prop, (p.stdout if verbose else p.stdout[:300]).strip() or p.stderr[-500:]
    finally:
        shutil.rmtree(t)
jobs = [(x, p) for x in names if R.get(x) for p in R[x][0] if not prop_only or p in prop_only]
if '-all' in sys.argv:
    # also the checks that concern every tool, on the edits of any tool
    jobs = [(x, p) for x in names if R.get(x) for p in ('P26', 'P30') if p not in R[x][0] and R[x][1][len('src/bin/'):-3] in P[p]['bins']]
with ThreadPoolExecutor(n) as ex:
    for a, b, c in ex.map(one, jobs):
        print('%-16s %s %s' % (a, b, c), flush=True)
