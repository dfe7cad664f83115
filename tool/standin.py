#!/usr/bin/env python3
"""dev tool: standin.py [-jN] [ID...]: which planted bugs does the bounded stand-in find alone, in the time it has when the proof is undecided?"""
import sys, os, subprocess, json, shutil, tempfile, queue
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(ROOT + '/seeded'))
N = next((int(a[2:]) for a in sys.argv[1:] if a.startswith('-j')), 1)
CODE = '''
import sys
sys.path.insert(0, %r)
import check
h = check.Harness(%r, 'quick', 1)
if not h.build(): print('BUILD', h.err[-300:]); sys.exit()
for a in ((8, 1, False), (20, 501, False), (20, 501, True)):
    h.go(a[0], a[1], deep=a[2], hangs=a[2] and %r in ('P03', 'P05', 'P08', 'P09'))
    if h.fail: print('found', a, str(h.fail.get('what'))[:80], str(h.fail.get('message'))[:150].replace(chr(10), ' ')); break
else: print('MISSED', h.evals)
'''
slots = queue.Queue()
for k in range(N):
    slots.put('/tmp/pvb/w%d' % k)
def one(i):
    d = ROOT + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    b = slots.get()
    t = tempfile.mkdtemp(prefix='si.', dir='/tmp')
    try:
        os.makedirs(t + '/repo')
        for y in ('Cargo.toml', 'Cargo.lock'):
            shutil.copy('/repo/' + y, t + '/repo/')
        shutil.copytree('/repo/src', t + '/repo/src')
        subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + t + '/repo', d + '/patch.diff'], cwd='/', check=True)
        p = subprocess.run(['python3', '-c', CODE % (ROOT + '/tool', prop, prop)], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=t + '/repo', VERIF_BUILD=b))
        print(i, prop, p.stdout.strip().split('\n')[-1], p.stderr[-300:], flush=True)
    finally:
        slots.put(b)
        shutil.rmtree(t)
with ThreadPoolExecutor(N) as ex:
    list(ex.map(one, ids))
