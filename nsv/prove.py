"""Prove the contracts a property depends on, on the current tree."""
import time, importlib, fnmatch, json, os, re
from . import solve, drv
from .ast import Unit
from .interp import Eng
from .stdlib import TRUSTED
from .specs import drivers
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BG = ('arithmetic background axioms of the uninterpreted row-major layout (lin/lfst/lsnd/imul) and real product (rmul) symbols: '
      'true of i*c+j, p/c, p%c, a*b and x*y; instances of theorems checked by Lean in lean/Lemmas.lean (the transcription into SMT axioms is by hand, listed in nsv/lemmas.py)')


class Result:
    def __init__(self):
        self.failed = []; self.misfit = []; self.unproved = []; self.functions = []; self.obls = 0; self.done = 0; self.backends = {}; self.solver_s = 0.0; self.gen_s = 0.0
        self.trusted = set(); self.assumptions = set(); self.assumed = set(); self.inlined = set(); self.vac = 0; self.vacbad = []; self.error = None
        self.dep = []; self.trivial = 0; self.samples = []; self.lean = {}

    def evidence(self, pid, tier, seed, spec, hr):
        if self.error: self.unproved.append(dict(function='*', kind='engine', why=self.error))
        cov = dict(obligations=self.obls, discharged=self.done, checker_cmd=f'python3-vt check.py {pid} {tier}',
                   trusted_base=sorted(['clang-18 front end (AST of the real headers)', 'the VC generator in /verif/nsv', 'z3 4.x / cvc5 1.1.2'] + [TRUSTED.get(t, t) for t in self.trusted]),
                   functions_under_contract=self.functions, functions_inlined=sorted(self.inlined), backends=self.backends, solver_s=round(self.solver_s, 2), generation_s=round(self.gen_s, 2),
                   discharged_syntactically=self.trivial, lemmas=self.lean, vacuity_covers=self.vac, vacuous=self.vacbad,
                   not_discharged=self.failed[:50], not_proved=self.unproved, samples=self.samples[:5],
                   bounded=dict(note='execution of the real code against naive oracles on a bounded input set; never counted as proved', status=hr['status'], cases=hr['cases'], tests=hr['tests'],
                                errors=hr['errors'], bound=spec.get('bound', '')))
        assum = sorted(self.assumptions) + sorted('assumed contract: ' + a for a in self.assumed) + list(spec.get('assumptions', [])) + ([] if self.lean.get('status') == 'checked' else ['lemmas of lean/Lemmas.lean: ' + str(self.lean.get('status')) + ' in this run']) + [BG] + [
            'machine integers (size_t/int) treated as mathematical integers, unsigned differences checked non-negative where the code subtracts',
            'floating point treated as exact real arithmetic; NaN/infinity only through the uninterpreted tests isnan/isinf']
        return dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=assum, wall_s=0.0)


def closure_sigs(eng, start, baseline):
    """generate obligations for start and, transitively, for every contract they rely on"""
    done = {}
    todo = list(start)
    while todo:
        todo = [s for s in dict.fromkeys(todo) if s not in done and not eng.contracts[s].trusted]
        if not todo: break
        for r in drv.generate(eng, todo, baseline): done.setdefault(r['sig'], []).append(r)
        nxt = []
        for s in todo:
            for r in done.get(s, []): nxt += [u for u in r['used'] if u in eng.contracts]
        todo = nxt
    return done


def load(unit):
    drvname, mods = unit[0], unit[1]
    if isinstance(mods, str): mods = mods.split(',')
    cons = {}; own = {}
    for m in mods:
        mod = importlib.import_module('nsv.specs.' + m)
        for x in getattr(mod, 'USES', []): cons.update(importlib.import_module('nsv.specs.' + x).C)
        cons.update(mod.C); own.update(mod.C)
    return cons, own


def prove(pid, spec, tier):
    res = Result()
    solve.pool()
    blf = os.path.join(HERE, 'nsv', 'baseline.json')
    bl = json.load(open(blf)) if os.path.exists(blf) else {}
    unfit = set()
    texts = []; covers = []
    for lem in spec.get('lemmas', ['rep'] if any(u[0] in ('sparse', 'lin', 'construct') for u in spec.get('units', [])) else []):
        from . import lemmas
        for nm, t in lemmas.LEMMAS[lem]():
            texts.append((('lemma ' + lem), nm, None, t, True))
    for unit in spec.get('units', []):
        t0 = time.time()
        u = Unit(drivers.DRIVER[unit[0]])
        if u.errors:
            for p in unit[2]: res.unproved.append(dict(function=p, kind='front end', why=u.errors[:300]))
            continue
        cons, own = load(unit)
        eng = Eng(u, cons)
        owned = [s for s in cons if any(s == p or fnmatch.fnmatchcase(s, p) for p in unit[2])]
        missing = [s for s in owned if s not in eng.fbysig]
        done = closure_sigs(eng, owned, bl.get(f'{unit[0]}|{unit[1]}'))
        res.gen_s += time.time() - t0
        for s, rs in done.items():
            for r in rs:
                o = s in owned
                if r['err']:
                    res.unproved.append(dict(function=r['name'], kind=r['err'][0], why=r['err'][1][-400:], owned=o))
                    continue
                if not r['fits']: unfit.add(r['name'])
                res.functions.append(dict(function=r['name'], obligations=len(r['obls']) + r['trivial'], owned=o, paths=r['paths']))
                res.trivial += r['trivial']
                res.trusted |= set(r['trusted']); res.assumptions |= set(r['assumptions']); res.assumed |= set(r['assumed']); res.inlined |= set(r['inlined'])
                for nm, line, kind, t in r['obls']: texts.append((r['name'], nm, line, t, o))
                for k, l in r['covers'].items():
                    for t in l: covers.append((r['name'], k, t))
                if not r['covers'].get('end') and not r['covers'].get('throw'):
                    res.vacbad.append(r['name'] + ' (no reachable end)')
    out = solve.solve_all([t[3] for t in texts], tier)
    for (fn, nm, line, t, o), x in zip(texts, out):
        res.obls += 1; res.solver_s += x[2]
        if x[0] == 'unsat':
            res.done += 1; res.backends[x[1]] = res.backends.get(x[1], 0) + 1
        elif fn in unfit:
            # the loops of this function changed: its loop annotations no longer fit, so this says nothing about the property
            res.misfit.append(dict(function=fn, obligation=nm, line=line, owned=o, result=x[0]))
        else:
            res.failed.append(dict(function=fn, obligation=nm, line=line, owned=o, result=x[0], log=list(x[4]), model=x[3]))
    for fn in dict.fromkeys(x['function'] for x in res.misfit):
        l = [x for x in res.misfit if x['function'] == fn]
        res.unproved.append(dict(function=fn, kind='loop structure changed', owned=l[0]['owned'], why='not discharged over the recorded loop annotations: ' + '; '.join(x['obligation'] for x in l[:4])))
    res.obls += res.trivial; res.done += res.trivial
    res.samples = [f'{fn} | {nm}' for fn, nm, *_ in texts[:: max(1, len(texts) // 5)]][:5]
    st = {}
    for (fn, k, t), x in zip(covers, solve.solve_covers([t for *_, t in covers])): st.setdefault((fn, k), []).append(x)
    res.vac = len(st)
    for k, v in st.items():
        if all(x == 'unsat' for x in v): res.vacbad.append(f'{k[0]} {k[1]}')
    return res
