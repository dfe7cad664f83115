#!/usr/bin/env python3
"""dev tool: refactortest.py [NAME...]: apply each behaviour-preserving edit to a scratch copy and run the checks of its properties"""
import sys, os, subprocess, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors import R
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, RUST_BACKTRACE='0', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
names = sys.argv[1:] or list(R)
for name in names:
    if R.get(name) is None: continue
    props, f, edits = R[name]
    t = tempfile.mkdtemp(prefix='rf.', dir='/tmp')
    r = t + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    try:
        s = open(r + '/' + f).read()
        for a, b in edits:
            if s.count(a) != 1:
                print(name, 'EDIT DOES NOT APPLY', s.count(a), a[:60]); break
            s = s.replace(a, b)
        open(r + '/' + f, 'w').write(s)
        p = subprocess.run(['cargo', 'build', '--offline'], cwd=r, env=env, capture_output=True, text=True)
        if p.returncode:
            print(name, 'DOES NOT BUILD', p.stderr[-800:]); continue
        for prop in props:
            p = subprocess.run(['python3', ROOT + '/tool/check.py', prop], cwd=ROOT, env=dict(env, VERIF_REPO=r), capture_output=True, text=True)
            lines = p.stdout.strip().split('\n')
            v = [l for l in lines if 'verus:' in l]
            print('%-16s %s rc %d | %s | %s' % (name, prop, p.returncode, v[-1].split('verus:')[1].strip()[:260] if v else '', lines[-1][:90]), flush=True)
            if p.returncode not in (0, 1): print(p.stdout[-600:], p.stderr[-600:])
    finally:
        shutil.rmtree(t)
