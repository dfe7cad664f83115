#!/usr/bin/env python3
"""dev tool: allproved.py [PROP...]: every property has to be proved on the current tree (run before every commit)"""
import sys, os
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from props import P
check.BUILD = '/tmp/allproved'
vac = '-vac' in sys.argv
def one(p):
    v = check.Verus(p, 'quick')
    if not vac: v.no_vacuity = True
    v.run()
    return p, v.status, v.verified, v.smt_ms, getattr(v, 'retried', None), (v.reason + (' VACUITY %d of %d %s' % (v.vac_failed, v.vac_total, v.vac_out) if vac and v.vac_failed != v.vac_total else ''))
ok = True
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, [a for a in sys.argv[1:] if a != '-vac'] or list(P)):
        if r[1] != 'proved' or 'VACUITY' in r[5]: ok = False
        print(*r, flush=True)
import shutil; shutil.rmtree('/tmp/allproved')
print('ALL PROVED' if ok else 'NOT ALL PROVED')
