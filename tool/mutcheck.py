#!/usr/bin/env python3
"""dev tool: mutcheck.py [-j N] FILE: the complete check (bounded stand-in included) on the changes that mutate.py -o FILE kept"""
import sys, os, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
n = 3
if '-j' in args:
    k = args.index('-j'); n = int(args[k + 1]); del args[k:k + 2]
jobs = json.load(open(args[0]))
only = args[1:]
import queue
slots = queue.Queue()
for i in range(n):
    slots.put(i)
def one(x):
    fn, f, (a, b, r) = x
    s = slots.get()
    try:
        d = '/tmp/mc%d' % s
        shutil.rmtree(d + '/repo', ignore_errors=True)
        os.makedirs(d + '/repo', exist_ok=True)
        for y in ('Cargo.toml', 'Cargo.lock'):
            shutil.copy('/repo/' + y, d + '/repo/')
        shutil.copytree('/repo/src', d + '/repo/src')
        src = open('/repo/src/' + f).read()
        open(d + '/repo/src/' + f, 'w').write(src[:a] + r + src[b:])
        if not os.path.isdir(d + '/verif'):
            os.makedirs(d + '/verif')
        for y in ('tool', 'contracts', 'harness'):
            shutil.rmtree(d + '/verif/' + y, ignore_errors=True)
            shutil.copytree(ROOT + '/' + y, d + '/verif/' + y)
        shutil.copy(ROOT + '/known_findings.txt', d + '/verif/')
        p = subprocess.run(['cargo', 'check', '--offline', '--locked', '-q', '--manifest-path', d + '/repo/Cargo.toml', '--lib', '--bins'], capture_output=True, text=True,
                           env=dict(os.environ, CARGO_TARGET_DIR=d + '/chk', RUSTFLAGS='-Awarnings'))
        if p.returncode:
            return x, 'no'
        prop = next((q for q in P if fn in P[q]['fns'] and fn not in P[q].get('modular', ()) and q not in ('P26', 'P30')), None) or next(q for q in P if fn in P[q]['fns'] or fn in P[q].get('mains', ()))
        p = subprocess.run(['python3', d + '/verif/tool/check.py', prop], capture_output=True, text=True, cwd=d + '/verif',
                           env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/b', VERIF_SEED='1', VERIF_TIER='quick', RUST_BACKTRACE='0'))
        return x, '%s rc %d %s' % (prop, p.returncode, (p.stdout.strip().split(chr(10)) or [''])[-1][:160])
    finally:
        slots.put(s)
with ThreadPoolExecutor(n) as ex:
    for x, res in ex.map(one, jobs):
        fn, f, (a, b, r) = x
        if only and fn not in only:
            continue
        if res == 'no':
            continue
        src = open('/repo/src/' + f).read()
        ln = src.count('\n', 0, a) + 1
        s0 = src.rfind('\n', 0, a) + 1; e0 = src.find('\n', b)
        print('%s %s:%d %s' % (res.replace('/tmp/', ''), f, ln, fn), flush=True)
        if 'rc 1' not in res:
            print('    - %s\n    + %s' % (src[s0:e0].strip(), (src[s0:a] + r + src[b:e0]).strip()), flush=True)
