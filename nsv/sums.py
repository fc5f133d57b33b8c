"""Ghost sums: f(ps,0)=0, f(ps,t+1)=f(ps,t)+body(ps,t) (definition by recursion), with the
lemmas proved by induction in nsv/lemmas.py ('sums')."""
import z3
from .core import *


class Sum:
    def __init__(self, run, name, body, np=0, cpx=False, sort=R, bodyterm=None):
        self.run = run; self.body = body; self.np = np; self.cpx = cpx
        run.nfresh += 1
        nm = f'{name}_{run.nfresh}'
        D = [I] * (np + 1)
        self.fs = [z3.Function(nm + x, *D, sort) for x in (('.re', '.im') if cpx else ('',))]
        self.ws = [z3.Function(nm + '.w' + str(k), *([I] * (np + 2)), I) for k in range(len(self.fs))]
        zero = z3.RealVal(0) if sort == R else z3.IntVal(0)
        for k, f in enumerate(self.fs):
            if np == 0: run.assume(f(z3.IntVal(0)) == zero)
            else:
                z = z3.IntVal(0)
                run.assume(FA(np, lambda *ps, f=f: f(*ps, z) == zero, lambda *ps, f=f: [f(*ps, z)]))

    def at(self, *ps):
        ps = [iv(p) for p in ps]
        v = [f(*ps) for f in self.fs]
        return Cpx(*v) if self.cpx else v[0]

    def parts(self, v):
        if not self.cpx: return [v if not isinstance(v, Cpx) else v.re]
        v = tocpx(v); return [v.re, v.im]

    def unfold(self, *ps):
        """definition at t -> t+1"""
        ps = [iv(p) for p in ps]
        b = self.parts(self.body(*ps))
        t1 = mkadd(ps[-1], z3.IntVal(1))
        return [z3.Implies(ps[-1] >= 0, f(*ps[:-1], t1) == f(*ps) + x) for f, x in zip(self.fs, b)]

    def gap(self):
        """lemma: a range of zero terms does not change the sum"""
        out = []
        n = self.np
        for k, (f, w) in enumerate(zip(self.fs, self.ws)):
            def bd(*q, f=f, w=w, k=k):
                ps, a, b = q[:n], q[n], q[n + 1]
                x = w(*ps, a, b)
                return z3.Implies(z3.And(a >= 0, a <= b), z3.Or(f(*ps, b) == f(*ps, a), z3.And(x >= a, x < b, self.parts(self.body(*ps, x))[k] != 0)))
            def pt(*q, f=f):
                ps, a, b = q[:n], q[n], q[n + 1]
                return [(f(*ps, a), f(*ps, b))]
            out.append(FA(n + 2, bd, pt))
        return out

    def congr(self, other, *ps):
        """lemma: equal terms below t give equal sums; ps include t"""
        out = []
        ps = [iv(p) for p in ps]
        for k, f in enumerate(self.fs):
            w = self.run.fresh('cw', I)
            out.append(z3.Or(f(*ps) == other.fs[k](*ps), z3.And(w >= 0, w < ps[-1], self.parts(self.body(*ps[:-1], w))[k] != other.parts(other.body(*ps[:-1], w))[k])))
        return out


def getsum(run, key, terms, mk):
    """one Sum per (key, identity of terms) on this path"""
    for t in terms:
        if z3.is_expr(t): run.keep.append(t)
    k = ('SUM', key) + tuple(t.get_id() if z3.is_expr(t) else t for t in terms)
    s = run.ghosts.get(k)
    if s is None: s = run.ghosts[k] = mk()
    return s


class Seq:
    """sequence value: length and elements (real or complex)"""

    def __init__(self, run, lv, n=None):
        self.run = run; self.lv = uncast_(lv); self.ty = self.lv.ty
        self.et = run.eng.elemty(self.ty)
        self.n = run.seqlen(self.lv) if n is None else n
        self.paths = [p for p, s in run.eng.shape(self.et)]
        self.arr = {p: run.nm(self.lv.get('[]' + p)) for p in self.paths}
        self.cpx = len(self.paths) == 2

    def at(self, k):
        if self.cpx: return Cpx(sel(self.arr['.re'], iv(k)), sel(self.arr['.im'], iv(k)))
        return sel(self.arr[''], iv(k))

    def pats(self, k):
        return [z3.Select(a, k) for a in self.arr.values()]

    def ids(self):
        return list(self.arr.values())

    def all(self, f, n=None, other=()):
        """forall k in [0,n): at(k) == f(k)"""
        n = self.n if n is None else n
        return FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < n), mkeq(self.at(k), f(k))), lambda k: self.pats(k) + [p for o in other for p in o.pats(k)])


def uncast_(lv):
    while hasattr(lv, 'base') and type(lv).__name__ == 'Cast': lv = lv.base
    return lv
