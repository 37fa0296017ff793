"""writes specs/enums.json from the tree (reviewed by hand afterwards)"""
import sys, json; sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from sa.rules import c04_enum_text as c
from sa.report import Report
prog, res = c.tables(Report('C04', 'quick', 1))
out = {}
for t, r in res.items():
    if 'acc' not in r: continue
    d = {'accept': {k: sorted(v)[0] for k, v in r['acc'].items() if k is not None}, 'reject': [k for k in r['err'] if k]}
    e = sorted({x for v in r['err'].values() for x in v})
    if e != ['common::SyntaxError']: d['error'] = e[0]
    if 'print' in r:
        d['print'] = {k: sorted(v)[0][5:] if sorted(v)[0].startswith('text:') else '!' for k, v in r['print'].items() if k}
        d['invalid'] = 'throw' if all(x.startswith('throw') for x in r['print'][None]) else 'text'
    out[t] = d
json.dump(out, open('/verif/specs/enums.json', 'w'), indent=1)
