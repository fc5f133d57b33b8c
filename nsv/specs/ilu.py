"""Contract of the incomplete factorisation ilu0: the work matrix keeps the pattern of the input (explicit zeros allowed)."""
import z3
from ..core import *
from ..interp import uncast
from ..contracts import Contract, LoopSpec
from . import sparse as SP
from .lin import W, A, SP, lusum, congr2, tiny, mn, inr, it_row, col, SMT, cancel

DRV = 'lin'
USES = ['vector', 'dense', 'sparse', 'sparse2', 'sparse3', 'construct']
C = {}


def MM(L): return W(L.run, L.lv('M'))
def IN(c): return W(c.run, c.a[0])
def stored(m, i, j): return m.g.pos(i, j) >= 0


def struct(run, m, a):
    """the work matrix has the cells of the input"""
    return [(f'work matrix: {nm}', f) for nm, f in SP.lwf(run, m.lv)] + [
        ('same cells as the input', z3.And(m.R == a.R, m.C == a.C, m.g.n == a.g.n)),
        ('same places as the input', FA(2, lambda i, j: m.g.pos(i, j) == a.g.pos(i, j), lambda i, j: [m.g.pos(i, j), a.g.pos(i, j)]))]


def factor(a, m, s, i, j):
    """row i is finished at the stored place (i,j)"""
    return a.at(i, j) == s.at(i, j, mn(i, j)) + z3.If(j < i, mkrmul(m.at(i, j), m.at(j, j)), m.at(i, j))


def outer(L):
    run = L.run; a, m = IN(L.c), MM(L); s = lusum(run, m, m); i = L.v('i'); n = a.R
    return [('range', z3.And(i >= 1, i <= mn(n, i)))] + struct(run, m, a) + [
        ('rows before i satisfy the equations at their stored places', FA(2, lambda p, q: z3.Implies(z3.And(p >= 0, p < i, q >= 0, q < n, stored(a, p, q)), factor(a, m, s, p, q)), lambda p, q: a.pats(p, q))),
        ('pivots used do not vanish', FA(2, lambda p, q: z3.Implies(z3.And(p >= 0, p < i, q >= 0, q < p, stored(a, p, q)), z3.Not(tiny(m.at(q, q)))), lambda p, q: [a.g.pos(p, q)])),
        ('the other rows are those of the input', FA(2, lambda p, q: z3.Implies(p >= i, m.at(p, q) == a.at(p, q)), lambda p, q: a.pats(p, q)))]


def zeros(run, s, m, i, a):
    """lemma 'sums' (gap) for row i from term a: zeros of the row do not change the sum"""
    run.nfresh += 1
    w = z3.Function(f'zs_{run.nfresh}', I, I, I)
    return [FA(2, lambda q, b: z3.Implies(b >= a, z3.Or(s.at(i, q, b) == s.at(i, q, a), z3.And(w(q, b) >= a, w(q, b) < b, m.at(i, w(q, b)) != 0))), lambda q, b: [s.at(i, q, b)])]


def congrow(run, s, o, i):
    """lemma 'sums': equal terms of row i below t give equal sums"""
    if s.fs[0].eq(o.fs[0]): return []
    run.nfresh += 1
    w = z3.Function(f'cr_{run.nfresh}', I, I, I)
    return [FA(2, lambda q, t: z3.Or(s.at(i, q, t) == o.at(i, q, t), z3.And(w(q, t) >= 0, w(q, t) < t, s.body(i, q, w(q, t)) != o.body(i, q, w(q, t)))), lambda q, t: [o.at(i, q, t)])]


def outer_body(L):
    m0 = L.c.old.memo['m0'] = MM(L)
    L.c.old.memo['i'] = L.v('i')
    return zeros(L.run, lusum(L.run, m0, m0), m0, L.v('i'), z3.IntVal(0))


def outer_end(L):
    run = L.run; m0, m = L.c.old.memo['m0'], MM(L)
    return [('sums', DEF(congr2(run, lusum(run, m0, m0), lusum(run, m, m))))]


def middle(L):
    run = L.run; a, m = IN(L.c), MM(L); i = L.v('i'); n = a.R; m0 = W(run, L.pre.lv(L.lv('M'))); s = lusum(run, m, m)
    k = mn(i, col(run, L.lv('it')))
    row = lambda q: z3.And(q >= 0, q < n, stored(a, i, q))
    return struct(run, m, a) + it_row(run, L.lv('it'), m, i) + [
        ('other rows are untouched', FA(2, lambda p, q: z3.Implies(p != i, m.at(p, q) == m0.at(p, q)), lambda p, q: m.pats(p, q))),
        ('finished entries of the row satisfy their equation', FA(1, lambda q: z3.Implies(z3.And(row(q), q < k), a.at(i, q) == s.at(i, q, q) + mkrmul(m.at(i, q), m.at(q, q))), lambda q: a.pats(i, q))),
        ('pivots used in the row do not vanish', FA(1, lambda q: z3.Implies(z3.And(row(q), q < k), z3.Not(tiny(m.at(q, q)))), lambda q: [a.g.pos(i, q)])),
        ('the other entries are reduced by the finished part', FA(1, lambda q: z3.Implies(z3.And(row(q), q >= k), m.at(i, q) == a.at(i, q) - s.at(i, q, k)), lambda q: a.pats(i, q)))]


def middle_body(L):
    L.c.old.memo['m1'] = MM(L); L.c.old.memo['k'] = col(L.run, L.lv('it'))
    return []


def middle_end(L):
    run = L.run; m1, m, k = L.c.old.memo['m1'], MM(L), L.c.old.memo['k']; i = L.v('i')
    s1, s = lusum(run, m1, m1), lusum(run, m, m)
    return [('sums', DEF(congrow(run, s1, s, i) + zeros(run, s, m, i, k + 1) + [cancel(run), FA(1, lambda q: z3.And(*s.unfold(i, q, k)), lambda q: m.pats(i, q))]))]


def inner(L):
    run = L.run; a, m = IN(L.c), MM(L); i = L.v('i'); n = a.R; m0 = W(run, L.pre.lv(L.lv('M'))); d = L.v('d')
    k, t = col(run, L.lv('it')), col(run, L.lv('it2'))
    return [('work matrix before the loop', f) for _, f in SP.lwf(run, m0.lv) if isinstance(f, DEF)] + struct(run, m, a) + it_row(run, L.lv('it2'), m, i, 'second iterator') + [
        ('behind the pivot column', t > k),
        ('entries of the row so far', FA(2, lambda p, q: m.at(p, q) == z3.If(z3.And(p == i, q > k, q < t, stored(a, p, q)), m0.at(p, q) - mkrmul(d, m0.at(k, q)), m0.at(p, q)), lambda p, q: m.pats(p, q)))]


def LL(L): return W(L.run, L.c.a[1])
def UU(L): return W(L.run, L.c.a[2])
def one(b): return z3.If(b, z3.RealVal(1), z3.RealVal(0))


def sized(L):
    n = IN(L.c).R
    return [(f'L: {nm}', f) for nm, f in LL(L).wf()] + [(f'U: {nm}', f) for nm, f in UU(L).wf()] + [('dimensions', z3.And(LL(L).R == n, LL(L).C == n, UU(L).R == n, UU(L).C == n))]


def diag(L):
    i = L.v('i'); n = IN(L.c).R; l = LL(L)
    return sized(L) + [('range', z3.And(i >= 0, i <= n)), ('diagonal so far', FA(2, lambda p, q: l.at(p, q) == one(z3.And(p == q, p >= 0, p < i)), lambda p, q: l.pats(p, q)))]


def split(L):
    run = L.run; m = MM(L); x = SP.It(run, L.lv('it')); l, u = LL(L), UU(L)
    n = m.R
    done = lambda p, q: m.g.pos(p, q) < x.pos
    return sized(L) + SP.it_in(run, L.lv('it'), m.lv) + [
        ('entries of L so far', FA(2, lambda p, q: z3.Implies(inr(n, p, q), l.at(p, q) == z3.If(z3.And(q < p, done(p, q)), m.at(p, q), one(p == q))), lambda p, q: l.pats(p, q))),
        ('entries of U so far', FA(2, lambda p, q: z3.Implies(inr(n, p, q), u.at(p, q) == z3.If(z3.And(q >= p, done(p, q)), m.at(p, q), 0)), lambda p, q: u.pats(p, q)))]


def post(c):
    run = c.run; a, l, u = A(c, 0), A(c, 1), A(c, 2); n = a.R
    s = lusum(run, l, u)
    out = []
    for m, nm in ((l, 'L'), (u, 'U')): out += [(f'{nm}: {x}', f) for x, f in m.wf() + [('dimensions', z3.And(m.R == n, m.C == n))]]
    out += [
        ('L is unit lower triangular', FA(2, lambda i, j: z3.Implies(inr(n, i, j), z3.And(z3.Implies(i == j, l.at(i, j) == 1), z3.Implies(j > i, l.at(i, j) == 0))), lambda i, j: l.pats(i, j))),
        ('U is upper triangular', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), j < i), u.at(i, j) == 0), lambda i, j: u.pats(i, j))),
        ('entries of L below the diagonal only where the input has entries', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), j < i, l.at(i, j) != 0), a.at(i, j) != 0), lambda i, j: l.pats(i, j))),
        ('entries of U only where the input has entries', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), u.at(i, j) != 0), a.at(i, j) != 0), lambda i, j: u.pats(i, j))),
        ('pivots used do not vanish', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), j < i, a.at(i, j) != 0), z3.Not(tiny(u.at(j, j)))), lambda i, j: a.pats(i, j)))]
    if c.mode == 'verify' and c.local('M') is not None:
        m = W(run, c.local('M')); sm = lusum(run, m, m)
        out.append(('sums', DEF(congr2(run, sm, s) + s.gap() + [FA(2, lambda i, j: z3.And(*s.unfold(i, j, mn(i, j))), lambda i, j: [s.at(i, j, n)])])))
    out.append(('L times U agrees with the input at every stored place', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), a.at(i, j) != 0), s.at(i, j, n) == a.at(i, j)), lambda i, j: [s.at(i, j, n)])))
    return out


def onthrow(c, cls):
    if cls != 'SingularException' or c.mode != 'verify': return []
    a, m, k, i = A(c, 0), *(c.old.memo[x] for x in ('m1', 'k', 'i'))
    return [('an entry left of the diagonal has a vanishing pivot', z3.And(k >= 0, k < i, i < a.R, a.at(i, k) != 0, tiny(m.at(k, k)))),
            ('sums', DEF(congrow(c.run, lusum(c.run, c.old.memo['m0'], c.old.memo['m0']), lusum(c.run, m, m), k))),
            ('the pivot is the one of the factorisation', IMP(a.at(k, k) != 0, m.at(k, k) == a.at(k, k) - lusum(c.run, m, m).at(k, k, k)))]


sq = lambda c: A(c, 0).R == A(c, 0).C
C[f'ilu0({SMT}&,{SMT}&,{SMT}&)'] = Contract(f'ilu0({SMT}&,{SMT}&,{SMT}&)', opts=dict(cancel=True, **SP.seq()),
    pre=lambda c: A(c, 0).wf() + A(c, 1).wf() + A(c, 2).wf() + [('not empty', A(c, 0).R > 0)], mod=lambda c: [c.a[1], c.a[2]], post=post, onthrow=onthrow,
    throws=[('NotSquareException', lambda c: A(c, 0).R != A(c, 0).C), ('SingularException', None)],
    loops=[LoopSpec(outer, var=lambda L: IN(L.c).R - L.v('i'), body=outer_body, end=outer_end),
           LoopSpec(middle, var=lambda L: IN(L.c).C - col(L.run, L.lv('it')), body=middle_body, end=middle_end),
           LoopSpec(inner, var=lambda L: IN(L.c).C - col(L.run, L.lv('it2'))),
           LoopSpec(diag, var=lambda L: IN(L.c).R - L.v('i')),
           LoopSpec(split, var=lambda L: IN(L.c).g.n - SP.It(L.run, L.lv('it')).pos)])
