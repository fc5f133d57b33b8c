"""driver: verify a list of contracts, print/return results"""
import z3, time, os, sys, multiprocessing as mp, traceback
from . import solve, ring, par
from .core import Unsupported
from .interp import Eng
from .contracts import Verifier


def gen(args):
    eng, con, alias, baseline = args
    t0 = time.time(); covers = {}
    v = Verifier(eng, con, alias, baseline)
    try:
        obls = v.verify()
        def text(o):
            if con.opts.get('nla') and ring.prove(o.facts, o.goal): return f'RING {v.name} {o.name} {o.seq if hasattr(o, "seq") else 0}'
            return solve.to_text(o.facts, o.goal)
        texts = [(o.name, o.line, o.kind, text(o)) for o in obls]
        covers = {k: [solve.to_text(r.facts[:n], z3.BoolVal(False)) for r, n in l] for k, l in v.cov.items()}
        err = None
    except Unsupported as e:
        texts = []; err = ('unsupported', str(e) + f' [line {(getattr(v, "lastline", None))}]')
    except Exception as e:
        texts = []; err = ('internal', f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:])
    return dict(name=v.name, fits=v.fits, covers=covers, sig=con.sig, obls=texts, err=err, trivial=v.trivial, paths=v.paths, ends=v.ends, used=sorted(v.used), assumed=sorted(v.assumed),
                trusted=sorted(v.trusted), assumptions=sorted(v.assumptions), inlined=sorted(v.inlined), gen_s=time.time() - t0)


_ENG = None


def _gen_i(job):
    sig, alias = job
    return gen((_ENG[0], _ENG[0].contracts[sig], alias, _ENG[1]))


def generate(eng, sigs, baseline=None, jobs=8):
    global _ENG
    _ENG = (eng, baseline)
    if baseline is not None and not hasattr(eng, 'renames'):
        from . import shape
        eng.renames = shape.renames(eng, baseline)
    js = [(s, a) for s in sigs for a in eng.contracts[s].alias if not eng.contracts[s].trusted]
    if jobs == 1:
        return [_gen_i(j) for j in js]
    out = par.pmap(_gen_i, js, jobs, limit=400)
    return [x if x is not None else dict(name=j[0], fits=True, covers={}, sig=j[0], obls=[], err=('internal', 'generation worker lost (time limit or memory)'), trivial=0, paths=0, ends=0, used=[], assumed=[],
                                         trusted=[], assumptions=[], inlined=[], gen_s=0.0) for x, j in zip(out, js)]
