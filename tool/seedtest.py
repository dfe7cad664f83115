#!/usr/bin/env python3
"""dev tool: seedtest.py [-q] [-jN] ID... : confirm a planted bug in a scratch copy and run its property's check on it"""
import sys, os, subprocess, json, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
base = json.load(open('/opt/vp/BASELINE.json'))
stable = set(base.get('stable') or base.get('tests') or [])
if not ids:
    ids = sorted(os.listdir(ROOT + '/seeded'))
env = dict(os.environ, RUST_BACKTRACE='0', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='1')
import queue
from concurrent.futures import ThreadPoolExecutor
N = next((int(a[2:]) for a in sys.argv[1:] if a.startswith('-j')), 1)
builds = queue.Queue()
for k in range(N):
    b = ROOT + '/.build'
    if N > 1:
        b = '/tmp/pvb/w%d' % k
        if not os.path.exists(b):
            shutil.copytree(ROOT + '/.build', b)
    builds.put(b)


def one(i):
    b = builds.get()
    try:
        print('\n'.join(one_(i, dict(env, VERIF_BUILD=b))), flush=True)
    finally:
        builds.put(b)


def one_(i, env):
    d = ROOT + '/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    prop = meta['property']
    t = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    r = t + '/repo'
    dd = t + '/demo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    shutil.copytree(d, dd)
    msgs = []
    try:
        if '-q' not in sys.argv:
            p = subprocess.run(['bash', dd + '/demo.sh'], cwd=r, env=env, capture_output=True, text=True)
            msgs.append('demo clean: %d' % p.returncode)
            if p.returncode: msgs.append(p.stdout[-1500:] + p.stderr[-1500:])
        p = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, capture_output=True, text=True)
        if p.returncode:
            return [i + ' PATCH DOES NOT APPLY ' + p.stderr]
        if '-q' not in sys.argv:
            p = subprocess.run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline'], cwd=r, env=env, capture_output=True, text=True)
            failed = [l for l in p.stdout.split('\n') if l.endswith('... FAILED')]
            msgs.append('tests: rc %d %s' % (p.returncode, failed))
            if p.returncode and not failed: msgs.append(p.stderr[-3000:])
            p = subprocess.run(['bash', dd + '/demo.sh'], cwd=r, env=env, capture_output=True, text=True)
            msgs.append('demo patched: %d' % p.returncode)
        p = subprocess.run(['python3', ROOT + '/tool/check.py', prop], cwd=ROOT, env=dict(env, VERIF_REPO=r), capture_output=True, text=True)
        lines = p.stdout.strip().split('\n')
        msgs.append('check: rc %d %s' % (p.returncode, lines[-1] if lines else ''))
        for l in lines:
            if 'verus:' in l or 'failing input' in l: msgs.append('   ' + l[:300])
        if p.returncode not in (0, 1): msgs.append(p.stdout[-1500:] + p.stderr[-1500:])
    finally:
        shutil.rmtree(t)
    return ['== %s %s' % (i, prop)] + ['   ' + m for m in msgs]


with ThreadPoolExecutor(N) as ex:
    list(ex.map(one, ids))
