"""Contracts of the Gauss-Legendre quadrature rules over the reals (decimal constants exact, rules exact up to TOL)."""
import z3
from fractions import Fraction as Fr
from math import factorial
from itertools import product
from ..core import *
from ..interp import uncast
from ..contracts import Contract, LoopSpec
from ..sums import Seq, Sum, getsum
from .simplex import comps

DRV = 'quad'
USES = []
C = {}
TOL = z3.RealVal('1/100000000000000')      # the constants are decimals with 15 digits
DEGREE = {(1, 1): 1, (1, 2): 3, (1, 3): 5, (2, 1): 1, (2, 2): 2, (2, 3): 3}
COUNT = {(1, 1): 1, (1, 2): 2, (1, 3): 3, (2, 1): 1, (2, 2): 3, (2, 3): 4}
FN = {(k, ix): z3.Function(f'integrand{k}{"i" if ix else ""}', *([I] if ix else []), *([R] * k), R) for k in (1, 2) for ix in (False, True)}


class Q:
    def __init__(self, run, lv, K):
        lv = uncast(lv); self.run = run; self.K = K
        f = lambda b, n: Field(b, n, run.eng.fieldty(b.ty, n))
        self.p, self.w = f(lv, 'mPoints'), f(lv, 'mWeights')
        self.n, self.nw = run.seqlen(self.p), run.seqlen(self.w)

    def weight(self, i): return Elem(self.w, iv(i), self.run.eng.elemty(self.w.ty)).get('')
    def point(self, i): return comps(self.run, Elem(self.p, iv(i), self.run.eng.elemty(self.p.ty)), self.K)


def absle(x, e): return z3.And(x <= e, -x <= e)


def define(K, O):
    F = f'GaussLegendreQuadratureFactory<double,{K},{O}>::'; QQ = f'Quadrature<?,double,{K},{O}>::'
    deg, cnt = DEGREE[(K, O)], COUNT[(K, O)]

    def rule(c):
        g = Q(c.run, c.this, K)
        o = [('as many points as weights', z3.And(g.n == cnt, g.nw == cnt))]
        P, W = [g.point(i) for i in range(cnt)], [g.weight(i) for i in range(cnt)]
        o += [(f'point {i} inside the reference simplex', z3.And(*[x >= 0 for x in p], sum(p[1:], p[0]) <= 1)) for i, p in enumerate(P)]
        for e in product(range(deg + 1), repeat=K):
            if sum(e) > deg: continue
            num = 1
            for x in e: num *= factorial(x)
            exact = z3.RealVal(f'{num}/{factorial(sum(e) + K)}')
            s = z3.RealVal(0)
            for p, w in zip(P, W):
                for x, k in zip(p, e):
                    for _ in range(k): w = w * x
                s = s + w
            o.append((f'integral of the monomial with exponents {e}' if sum(e) else 'weights add up to the reference volume', absle(s - exact, TOL)))
        return o
    O_ = dict(nla=True)
    C[F + '(ctor)()'] = Contract(F + '(ctor)()', post=rule, opts=O_)
    C[QQ + '(ctor)()'] = Contract(QQ + '(ctor)()', post=rule, opts=O_)
    fld = lambda n: lambda c: getattr(Q(c.run, c.this, K), n)
    C[F + 'getQuadraturePoints() const'] = Contract(F + 'getQuadraturePoints() const', ret=fld('p'), opts=O_, inl=True)
    C[F + 'getQuadratureWeights() const'] = Contract(F + 'getQuadratureWeights() const', ret=fld('w'), opts=O_, inl=True)
    for ix in (False, True):
        fn = FN[(K, ix)]
        def S(c, ix=ix, fn=fn):
            g = Q(c.run, c.this, K)
            return getsum(c.run, f'quad{ix}', [c.run.nm(g.w.get('[]'))] + [c.run.nm(a) for a in [g.p.get('[].mData[]')]], lambda: Sum(c.run, 'QUAD', lambda t: mkrmul(g.weight(t), fn(*([t] if ix else []), *g.point(t)))))
        nm = f'{QQ}{"eval_index" if ix else "eval"}(nsv_{"i" if ix else ""}fun<{K}>&,real&) const'
        C[nm] = Contract(nm, pre=lambda c: [('as many weights as points', Q(c.run, c.this, K).n == Q(c.run, c.this, K).nw)],
            post=lambda c, S=S: [('start value plus the weighted values over every point once', c.ret == c.ov(1) + S(c).at(Q(c.run, c.this, K).n))],
            loops=[LoopSpec(lambda L, S=S: [('range', z3.And(L.v('i') >= 0, L.v('i') <= Q(L.run, L.this, K).n)), ('partial sum', L.v('v') == L.c.ov(1) + S(L.c).at(L.v('i')))],
                            var=lambda L: Q(L.run, L.this, K).n - L.v('i'), body=lambda L, S=S: S(L.c).unfold(L.v('i')))])
        cs = f'nsv_{"i" if ix else ""}fun<{K}>::operator()({"u64," if ix else ""}Vector<double,array<double,{K}>>&) const'
        C[cs] = Contract(cs, trusted=True, post=lambda c, ix=ix, fn=fn: [('any function of the point (and the index)', c.ret == fn(*([c.v(0)] if ix else []), *comps(c.run, c.a[int(ix)], K)))])


for k in DEGREE: define(*k)
