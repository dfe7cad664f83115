#!/usr/bin/env python3
"""dev tool: mutate.py [-j N] [-o LOG] [FN...]: single-token changes of every function under contract; those that still verify are listed
(each is an equivalent change or a gap of the contract). -o FILE: keep the list of those that the contracts cannot decide, for mutcheck.py"""
import sys, os, re, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
ROOT = gen.ROOT
args = sys.argv[1:]
n = 4
if '-j' in args:
    k = args.index('-j'); n = int(args[k + 1]); del args[k:k + 2]

save = None
if '-o' in args:
    k = args.index('-o'); save = args[k + 1]; del args[k:k + 2]
rest = []

OPS = [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']), (r' % ', [' / ']),
       (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.\.=', ['..']), (r'(?<=[\w)])\.\.(?=[\w(])', ['..=']),
       (r'\bbreak;', ['']), (r'\bcontinue;', ['']), (r'\bif !', ['if ']), (r' << ', [' >> ']), (r' >> ', [' << ']), (r' & ', [' | ']), (r' \| ', [' & ']),
       (r'\bmin\(', ['max(']), (r'\bmax\(', ['min('])]

def span(src, name):
    m = re.search(r'\bfn %s\b' % re.escape(name), src)
    return m
def fn_span(src, key):
    """the body of the function named by the key's last part (and its impl type)"""
    parts = key.split('::')
    name = parts[-1]
    at = 0
    if len(parts) > 2:
        m = re.search(r'\bimpl\b[^{]*\b%s\b[^{]*\{' % re.escape(parts[-2].split(' ')[-1]), src)
        for m in re.finditer(r'\bimpl\b[^{]*\b%s\b[^{]*\{' % re.escape(re.sub(r'.*\W', '', parts[-2])), src):
            e = close(src, m.end() - 1)
            if re.search(r'\bfn %s\b' % re.escape(name), src[m.start():e]):
                at = m.start(); break
    m = re.compile(r'\bfn %s\b' % re.escape(name)).search(src, at)
    o = src.index('{', m.end())
    return o + 1, close(src, o)
def close(s, o):
    d = 0; i = o
    while i < len(s):
        if s.startswith('//', i):
            i = s.index('\n', i)
        elif s[i] == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif s[i:i + 3] in ("'{'", "'}'", "'\"'"):
            i += 2
        elif s[i] == '{':
            d += 1
        elif s[i] == '}':
            d -= 1
            if d == 0:
                return i
        i += 1
    raise Exception('close')

def mutants(src, a, b):
    body = src[a:b]
    skip = [m.span() for m in re.finditer(r'//[^\n]*|"(?:\\.|[^"\\])*"|\b(?:info|debug|trace|warn)!\([^;]*;|\bif log_enabled!\(', body)]
    def ok(i):
        return not any(x <= i < y for x, y in skip)
    for pat, reps in OPS:
        for m in re.finditer(pat, body):
            if ok(m.start()):
                for r in reps:
                    yield a + m.start(), a + m.end(), r
    for m in re.finditer(r'(?<![\w.])(\d+)(?=(?:_?[iu](?:8|16|32|64|size))?\b(?!\.))', body):
        if ok(m.start()):
            v = int(m.group(1))
            yield a + m.start(), a + m.end(), str(v + 1)
            if v > 0:
                yield a + m.start(), a + m.end(), str(v - 1)
    for m in re.finditer(r'(?m)^[ \t]*(?!let\b|use\b|\}|//)[^\n{}]*;[ \t]*$', body):
        if ok(m.start()) and not re.match(r'\s*(info|debug|trace|\))', m.group(0)) and body[:m.start()].rstrip()[-1:] in '{};,':
            yield a + m.start(), a + m.end(), ''

ov = gen.load_overlays()
CODE = r'''
import sys, os, subprocess
sys.path.insert(0, %(tool)r)
import gen
ov = gen.load_overlays()
g = gen.Gen(ov, [%(fn)r], [], False, modular=[x for x in ov if x != %(fn)r])
t = g.generate()
if g.lost:
    print('LOST', g.lost[0]); sys.exit()
p = %(out)r
open(p, 'w').write(t)
r = subprocess.run(['verus', '--crate-type=lib', p, '--num-threads', '1', '--triggers-mode', 'silent', '--verify-root', '--verify-function', %(vf)r] + ['--rlimit', '20'], capture_output=True, text=True)
o = r.stderr + r.stdout
import re
m = re.search(r'(\d+) verified, (\d+) errors', o)
print('PROVED' if m and m.group(2) == '0' and r.returncode == 0 else 'failed' if m else 'COMPILE ' + o[:200].replace('\n', ' '))
'''
def job(x):
    fn, f, key, src, mu = x
    t = tempfile.mkdtemp(prefix='mu.', dir='/tmp')
    try:
        shutil.copytree('/repo/src', t + '/repo/src')
        if mu:
            a, b, r = mu
            open(t + '/repo/src/' + f, 'w').write(src[:a] + r + src[b:])
        vf = '*' + key.split('::')[-1]
        p = subprocess.run(['python3', '-c', CODE % dict(tool=ROOT + '/tool', fn=fn, out=t + '/x.rs', vf=vf)], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=t + '/repo'))
        return x, (p.stdout.strip() or 'GEN ' + p.stderr[-150:].replace('\n', ' '))
    finally:
        shutil.rmtree(t)
jobs = []
for fn in args or sorted(ov):
    o = ov[fn]
    
    f = o.fn.split("::", 1)[0]
    import glob
    p = '/repo/src/' + f
    f = f if os.path.exists(p) else 'bin/' + f
    src = open('/repo/src/' + f).read()
    try:
        a, b = fn_span(src, o.fn)
    except Exception as e:
        print('SPAN', fn, repr(e)); continue
    jobs.append((fn, f, o.fn, src, None))
    for mu in mutants(src, a, b):
        jobs.append((fn, f, o.fn, src, mu))
print(len(jobs), 'mutants', flush=True)
cnt = {}
with ThreadPoolExecutor(n) as ex:
    for x, res in ex.map(job, jobs):
        fn, f, key, src, mu = x
        w = res.split()[0] if res else '?'
        cnt[w] = cnt.get(w, 0) + 1
        if mu is not None and w in ('LOST', 'COMPILE', 'GEN'):
            rest.append((fn, f, mu))
        if mu is None:
            print('%s original %s' % (fn, res), flush=True)
        elif w in ('PROVED', 'GEN'):
            a, b, r = mu
            ln = src.count('\n', 0, a) + 1
            s0 = src.rfind('\n', 0, a) + 1; e0 = src.find('\n', b)
            print('%s %s:%d %s\n    - %s\n    + %s' % (w, f, ln, fn, src[s0:e0].strip(), (src[s0:a] + r + src[b:e0]).strip()), flush=True)
print(cnt)
if save:
    import json
    json.dump(rest, open(save, 'w'))
