#!/usr/bin/env python3
"""Record the loop structure the contracts were written against (run by hand on the reviewed tree; see nsv/shape.py)."""
import sys, json
sys.setrecursionlimit(20000)
from claims import CLAIMS
from nsv import prove, shape
from nsv.ast import Unit
from nsv.interp import Eng
from nsv.specs import drivers
out = {}; units = {}
for c in CLAIMS.values():
    for u in c['units']:
        k = f'{u[0]}|{u[1]}'
        if u[0] not in units: units[u[0]] = Unit(drivers.DRIVER[u[0]])
        cons, own = prove.load(u)
        eng = Eng(units[u[0]], cons)
        import fnmatch
        for pt in u[2]:
            if not any(fnmatch.fnmatchcase(x, pt) or x == pt for x in cons): print('pattern without contract:', k, pt)
        if k in out: continue
        out[k] = shape.collect(eng, list(cons))
json.dump(out, open('/verif/nsv/baseline.json', 'w'), indent=0, sort_keys=True)
print({k: (len(v['decls']), len(v['shapes'])) for k, v in out.items()})
