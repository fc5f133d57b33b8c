"""Contracts of the SparseMatrix<double> reductions, tests and counts (elements that are not stored count as zero)."""
import z3
from ..core import *
from ..interp import Cast, uncast
from ..contracts import Contract, LoopSpec
from ..sums import Sum, Seq, getsum
from ..stdlib import frac, NUMLIM
from . import vector as VEC
from .vector import lim, range_begin
from .sparse import S, SMT, It, wf, it_in, seq, this_wf, V, id_of

DRV = 'sparse'
USES = ['sparse', 'vector']
C = {}


def add(sig, **kw):
    C[sig] = Contract(sig, **kw)
    return C[sig]


def unstored(run, g):
    """counting lemma (nsv/lemmas.py 'cells'): the stored cells occupy strictly increasing row-major
    positions; u is the first row-major position that is not the position of a stored cell (u == n when all before are).
    n <= R*C, and if n < R*C the cell at row-major position u is not stored; if n == R*C every cell is stored"""
    key = ('UNST', id_of(run, g.V), id_of(run, g.n))
    if key not in run.ghosts:
        u = run.fresh('unstored', I)
        run.ghosts[key] = u
        N = mkimul(g.R, g.C)
        i, j = lfst(u, g.C), lsnd(u, g.C)
        run.assume(z3.Implies(z3.And(g.R > 0, g.C > 0), z3.And(g.n <= N, u >= 0, u <= g.n,
            z3.Implies(g.n < N, z3.And(u < N, i >= 0, i < g.R, j >= 0, j < g.C, g.pos(i, j) == -1)))))
        run.assume(FA(2, lambda a, b: z3.Implies(z3.And(g.n == N, g.inr(a, b)), g.pos(a, b) >= 0), lambda a, b: [g.pos(a, b)]))
    u = run.ghosts[key]
    return lfst(u, g.C), lsnd(u, g.C)


def cells(g, f): return FA(2, lambda i, j: z3.Implies(g.inr(i, j), f(g.v(i, j))), lambda i, j: [g.v(i, j)])
def valsum(run, s): return getsum(run, 'sum', s.ids(), lambda: Sum(run, 'SUM', s.at, 0, s.cpx))


def VAL(run, lv):
    M = uncast(lv)
    return Seq(run, Field(M, 'mValues', run.eng.fieldty(M.ty, 'mValues')))


def ridx(L): return L.run.load(L.lv(range_begin(L))).idx


def rloop(extra, **kw):
    def inv(L):
        i = ridx(L); g = V(L.c)
        return [('range', z3.And(i >= 0, i <= g.n))] + extra(L, g, i)
    return LoopSpec(inv, var=lambda L: V(L.c).n - ridx(L), **kw)


nonempty = lambda c: ('not empty', z3.And(V(c).R > 0, V(c).C > 0))
add(f'{SMT}::sum() const', opts=seq(), pre=this_wf, post=lambda c: [('sum of the stored values', c.ret == valsum(c.run, VAL(c.run, c.this)).at(V(c).n))],
    loops=[rloop(lambda L, g, i: [('partial sum', L.v('s') == valsum(L.run, VAL(L.run, L.this)).at(i))], body=lambda L: valsum(L.run, VAL(L.run, L.this)).unfold(ridx(L)))])
add(f'{SMT}::avg() const', opts=seq(), pre=lambda c: this_wf(c) + [nonempty(c)],
    post=lambda c: [('sum over the number of cells', c.ret == c.run.fdiv(valsum(c.run, VAL(c.run, c.this)).at(V(c).n), toreal(mkimul(V(c).R, V(c).C))))])

for nm, op in (('max', lambda a, b: a >= b), ('min', lambda a, b: a <= b)):
    def ext(L, g, i, op=op):
        s = L.v('s')
        return [('bound of the cells seen', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < i), op(s, g.val(p))), lambda p: [g.val(p)])),
                ('attained', EX(1, lambda w: z3.If(i == 0, s == lim(op), z3.And(w >= 0, w < i, s == g.val(w))), [(i - 1,), (z3.IntVal(0),)]))]
    def post(c, op=op):
        g = V(c); ui, uj = unstored(c.run, g)
        ws = [(ui, uj)]
        for sk in c.run.exw[-4:]:
            if len(sk) == 1: ws.append((g.row(sk[0]), g.col(sk[0])))
        return [('bounds every cell', FA(2, lambda i, j: z3.Implies(g.inr(i, j), op(c.ret, g.v(i, j))), lambda i, j: [g.v(i, j)], hints=lambda i, j: [g.val(g.pos(i, j))])),
                ('is one of the cells', EX(2, lambda i, j: z3.And(g.inr(i, j), c.ret == g.v(i, j)), ws))]
    def prem(c):
        g = V(c); x = frac(NUMLIM['max'])
        return this_wf(c) + [nonempty(c), ('values in the range of double', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < g.n), z3.And(g.val(p) <= x, g.val(p) >= -x)), lambda p: [g.val(p)]))]
    add(f'{SMT}::{nm}() const', opts=seq(), pre=prem, post=post, loops=[rloop(ext)])

for nm, t in (('has_nan', isnan), ('has_inf', isinf)):
    def ext(L, g, i, t=t): return [('none so far', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < i), z3.Not(t(g.val(p)))), lambda p: [g.val(p)]))]
    def post(c, t=t):
        g = V(c); w = []
        if c.mode == 'verify':
            for n_, lv in c.frame.names.items():
                if n_.startswith('__begin'):
                    p = c.run.load(lv).idx; w = [(g.row(p), g.col(p))]
        return [('false means no such cell', IMP(z3.Not(c.ret), FA(2, lambda i, j: z3.Implies(g.inr(i, j), z3.Not(t(g.v(i, j)))), lambda i, j: [g.v(i, j)], hints=lambda i, j: [g.val(g.pos(i, j))]))),
                ('true means some such cell', IMP(c.ret, EX(2, lambda i, j: z3.And(g.inr(i, j), t(g.v(i, j))), w)))]
    add(f'{SMT}::{nm}() const', opts=seq(), pre=lambda c, t=t: this_wf(c) + [('zero is an ordinary number', DEF([z3.Not(t(z3.RealVal(0)))]))], post=post, loops=[rloop(ext)])


def hz_post(c):
    g = V(c); ui, uj = unstored(c.run, g)
    return [('false means every cell is non-zero', IMP(z3.Not(c.ret), FA(2, lambda i, j: z3.Implies(g.inr(i, j), g.v(i, j) != 0), lambda i, j: [g.v(i, j)]))),
            ('true means some cell is zero', IMP(c.ret, EX(2, lambda i, j: z3.And(g.inr(i, j), g.v(i, j) == 0), [(ui, uj)])))]


add(f'{SMT}::has_zero() const', opts=seq(), pre=lambda c: this_wf(c) + [nonempty(c)], post=hz_post)


def em_post(c):
    g = V(c)
    return [('true means every cell is zero', IMP(c.ret, FA(2, lambda i, j: g.v(i, j) == 0, lambda i, j: [g.v(i, j)]))),
            ('false means some cell is not zero', IMP(z3.Not(c.ret), EX(2, lambda i, j: z3.And(g.inr(i, j), g.v(i, j) != 0), [(g.row(0), g.col(0))])))]


add(f'{SMT}::empty() const', opts=seq(), pre=this_wf, post=em_post, inl=True)


# ------------------------------------------------------------------ counts per row and column
def cntsum(run, g, rowwise):
    f = (lambda i, t: z3.If(g.v(i, t) != 0, 1, 0)) if rowwise else (lambda j, t: z3.If(g.v(t, j) != 0, 1, 0))
    return getsum(run, f'cnt{rowwise}', [g.V], lambda: Sum(run, 'CNT', f, 1, sort=I))


def rfc_inv(rowwise):
    def inv(L):
        g = V(L.c); k = L.c.v(0); x = It(L.run, L.lv('it')); s = cntsum(L.run, g, rowwise)
        return it_in(L.run, L.lv('it'), L.this) + [('stays in its range', z3.Implies(x.valid, (x.i if rowwise else x.j) == k)),
            ('stored cells counted so far', L.v('i') == z3.If(x.valid, s.at(k, x.j if rowwise else x.i), s.at(k, g.C if rowwise else g.R)))]
    def bodyf(L):
        g = V(L.c); k = L.c.v(0); x = It(L.run, L.lv('it')); s = cntsum(L.run, g, rowwise)
        return s.unfold(k, x.j if rowwise else x.i) + s.gap()
    return LoopSpec(inv, var=lambda L: V(L.c).n - It(L.run, L.lv('it')).pos, body=bodyf)


for nm, rw in (('row_filled_count', True), ('column_filled_count', False)):
    add(f'{SMT}::{nm}(u64) const', opts=seq(), pre=lambda c, rw=rw: this_wf(c) + [('index in range', c.v(0) < (V(c).R if rw else V(c).C)), ('lemma: ranges of zero terms', DEF(cntsum(c.run, V(c), rw).gap()))],
        post=lambda c, rw=rw: [('number of non-zero cells of the line', c.ret == cntsum(c.run, V(c), rw).at(c.v(0), V(c).C if rw else V(c).R))], loops=[rfc_inv(rw)])
