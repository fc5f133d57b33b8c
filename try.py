import sys, time, os
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from nsv import solve, drv
from nsv.ast import Unit
from nsv.interp import Eng
import importlib
mod, pat = sys.argv[1], sys.argv[2]
solve.pool()
m = importlib.import_module('nsv.specs.' + mod)
from nsv.specs import drivers
u = Unit(drivers.DRIVER[m.DRV if hasattr(m,'DRV') else mod])
if u.errors: print(u.errors[:3000])
cons = {}
for x in getattr(m, 'USES', []):
    cons.update(importlib.import_module('nsv.specs.' + x).C)
cons.update(m.C)
eng = Eng(u, cons)
sigs = [s for s in m.C if pat in s]
dump = '-d' in sys.argv
t0 = time.time()
rs = drv.generate(eng, sigs, None, 8 if not os.environ.get('J1') else 1)
print('gen', time.time() - t0)
texts = []
for r in rs:
    if r['err']: print('ERR', r['name'], r['err'][0], r['err'][1][-400:])
    print(f"{r['name']}: {len(r['obls'])} obls, {r['paths']} paths, {r['ends']} ends, gen {r['gen_s']:.1f}s trivial {r['trivial']}")
    texts += [(r['name'], *o) for o in r['obls']]
t0 = time.time()
res = solve.solve_all([t[4] for t in texts], os.environ.get('TIER', 'quick'))
print('solve', time.time() - t0)
from collections import Counter
print(Counter((x[0], x[1]) for x in res))
fs = 0
for t, x in sorted(zip(texts, res), key=lambda z: z[1][2]):
    if x[0] != 'unsat':
        print('FAIL', t[0], '|', t[1], '| line', t[2], x[0], f'{x[2]:.1f}s', x[4] if dump else '')
        fs += 1
        if dump:
            open(f'/tmp/w/fail{fs}.smt2', 'w').write(t[4]); print('  ->', f'/tmp/w/fail{fs}.smt2')
            if x[3]: print(x[3][:1500])
    elif x[2] > 5: print('slow', t[0], t[1], t[2], x[1], f'{x[2]:.1f}')
# covers
cov = [(r['name'], k, t) for r in rs for k, l in r['covers'].items() for t in l]
cr = solve.solve_covers([t for _, _, t in cov])
st = {}
for (nm, k, t), x in zip(cov, cr): st.setdefault((nm, k), []).append(x)
bad = [k for k, v in st.items() if all(x == 'unsat' for x in v)]
print('covers', len(st), 'VACUOUS' if bad else 'ok', bad)
for r in rs:
    if not r['err'] and not r['covers'].get('end'): print('NO NORMAL END', r['name'])
