#!/usr/bin/env python3
"""print the table of seeded changes of DESIGN.md section 6 from seeded/*/meta.json and the log files of seedtest.py"""
import json,glob,os,re,sys
res={}
for lf in sys.argv[1:]:
    cur=None
    for l in open(lf,errors='replace'):
        m=re.match(r'== (\S+) (P\d+)',l)
        if m: cur=m.group(1); res[cur]={'obl':None,'input':False,'v':False}
        elif cur:
            if 'check: rc 1 VIOLATION' in l: res[cur]['v']=True
            m=re.search(r'verus: failed, \d+ verified, \d+ errors (.*)',l)
            if m: res[cur]['obl']=m.group(1).strip()
            if 'failing input:' in l: res[cur]['input']=True
            if 'verus: undecided' in l: res[cur]['und']=True
rows=[]
for d in glob.glob('/verif/seeded/*/meta.json'):
    n=d.split('/')[-2]; m=json.load(open(d)); rows.append((m['property'],n,m['needs'],res.get(n)))
print('| change | property | needs | failed obligation | failing input |\n|---|---|---|---|---|')
for p,n,need,r in sorted(rows):
    if r and r['v']:
        o=r['obl'] or ('contract no longer attaches (bounded stand-in decided)' if r.get('und') else 'see replay')
        o='; '.join(dict.fromkeys(o.split('; ')))
        i='yes' if r['input'] else 'no'
    else: o=i='?'
    print(f'| {n} | {p} | {need} | {o} | {i} |')
