"""Contracts of the Lagrange shape functions (PolyShapePolicy<double,K,Order>) over the reals.

The basis polynomials are computed here from the node positions alone (exact rational solution of the
interpolation equations), independently of the coefficient tables in the code."""
import z3
from fractions import Fraction as Fr
from ..core import *
from ..contracts import Contract
from .simplex import comps

DRV = 'shape'
USES = []
C = {}
h, t, u = Fr(1, 2), Fr(1, 3), Fr(2, 3)
# monomial exponents in the order of the per-coefficient weights
MONO = {(1, 1): [(0,), (1,)], (1, 2): [(0,), (1,), (2,)],
        (2, 1): [(0, 0), (1, 0), (0, 1)], (2, 2): [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2)],
        (2, 3): [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (3, 0), (0, 3)],
        (3, 1): [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
        (3, 2): [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2)]}
NODES = {(1, 1): [(0,), (1,)], (1, 2): [(0,), (1,), (h,)],
         (2, 1): [(0, 0), (1, 0), (0, 1)], (2, 2): [(0, 0), (1, 0), (0, 1), (h, 0), (h, h), (0, h)],
         (2, 3): [(0, 0), (1, 0), (0, 1), (t, 0), (u, 0), (u, t), (t, u), (0, u), (0, t), (t, t)],
         (3, 1): [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
         (3, 2): [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (h, 0, 0), (h, h, 0), (0, h, 0), (h, 0, h), (0, 0, h), (0, h, h)]}


def mono(e, x):
    r = None
    for k, n in zip(e, x):
        for _ in range(k): r = n if r is None else r * n
    return r


def fmono(e, x):
    r = Fr(1)
    for k, n in zip(e, x): r *= Fr(n) ** k
    return r


def basis(key):
    """row k: coefficients of the polynomial that is 1 at node k and 0 at the other nodes"""
    N, M = NODES[key], MONO[key]; n = len(N)
    A = [[fmono(e, p) for e in M] + [Fr(int(i == j)) for j in range(n)] for i, p in enumerate(N)]
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c] != 0)
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0: A[r] = [x - A[r][c] * y for x, y in zip(A[r], A[c])]
    inv = [row[n:] for row in A]
    return [[inv[m][k] for m in range(n)] for k in range(n)]


def q(f): return z3.RealVal(f'{f.numerator}/{f.denominator}')


def poly(terms):
    r = None
    for x in terms: r = x if r is None else r + x
    return z3.RealVal(0) if r is None else r


def diff(terms, d):
    """derivative of [(coefficient, weight index, exponents)] in direction d"""
    return [(a * e[d], m, tuple(x - (i == d) for i, x in enumerate(e))) for a, m, e in terms if e[d] > 0]


def define(K, O):
    key = (K, O); M, N = MONO[key], NODES[key]; D = len(N); A = basis(key)
    P = f'PolyShapePolicy<double,{K},{O}>::'
    vt, nt = f'Vector<double,array<double,{K}>>&', f'Vector<double,array<double,{D}>>&'

    def terms(k): return [(A[k][m], m, e) for m, e in enumerate(M) if A[k][m] != 0]

    def ev(ts, x, w):
        return poly([y for a, m, e in ts for y in [prod([q(a)] + ([w[m]] if w else []) + ([mono(e, x)] if any(e) else []))]])

    def percase(c, f):
        """f(k) for the component; a symbolic component gives one implication per case"""
        k = c.v(0)
        if z3.is_int_value(k): return f(k.as_long())
        return [(f'{nm} (component {j})', z3.Implies(k == j, g)) for j in range(D) for nm, g in f(j)]

    def vpost(weights):
        def post(c):
            x = comps(c.run, c.a[1], K); w = comps(c.run, c.a[2], D) if weights else None
            def f(k):
                o = [('value of the interpolating polynomial', c.ret == ev(terms(k), x, w))]
                if not weights:
                    o += [(f'{int(j == k)} at node {j}', z3.Implies(mkand(*[xi == q(Fr(p)) for xi, p in zip(x, N[j])]), c.ret == int(j == k))) for j in range(D)]
                    if k == 0: o += [('the basis sums to 1', poly([ev(terms(j), x, None) for j in range(D)]) == 1)]
                return o
            return percase(c, f)
        return post

    def dpost(order, weights):
        def post(c):
            x = comps(c.run, c.a[1], K); w = comps(c.run, c.a[2], D) if weights else None; r = comps(c.run, c.ret, K)
            def f(k):
                o = []
                for d in range(K):
                    ts = terms(k)
                    for _ in range(order): ts = diff(ts, d)
                    o.append((f'derivative {order} of the value in direction {d}', r[d] == ev(ts, x, w)))
                return o
            return percase(c, f)
        return post

    pre = lambda c: [('component in range', c.v(0) < D)]
    al = [{0: ('is', k)} for k in range(D)]
    for nm, mk in (('value', vpost), ('gradient', lambda w: dpost(1, w)), ('gradient2', lambda w: dpost(2, w))):
        for w in (True, False):
            s = f'{P}{nm}(u64,{vt}' + (f',{nt}' if w else '') + ') const'
            C[s] = Contract(s, pre=pre, post=mk(w), alias=al, opts=dict(nla=True))


def prod(xs):
    r = xs[0]
    for x in xs[1:]: r = r * x
    return r


for k in MONO: define(*k)
