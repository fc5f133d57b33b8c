"""Contracts of the SparseMatrix<double> arithmetic, products, comparison and reductions."""
import z3
from ..core import *
from ..interp import Cast, uncast
from ..contracts import Contract, LoopSpec
from ..sums import Sum, Seq, getsum
from . import vector as VEC
from .sparse import (S, SMT, ITT, It, wf, it_in, it_wf, view_is, rep, seq, this_wf, same_dims, struct_same, lex, V, bind_it, ptr_to, same_ptr, this_m, repmod, REALTY, zero_view, id_of)

DRV = 'sparse'
USES = ['sparse', 'vector']
C = {}


def add(sig, **kw):
    C[sig] = Contract(sig, **kw)
    return C[sig]


def A(c, i=0): return S(c.run, c.a[i])
def A0(c, i=0): return S(c.run, c.old.a[i])
def R_(c): return S(c.run, c.ret)
def nonempty(g): return ('not empty', z3.And(g.R > 0, g.C > 0))
def fdims(g, r, k): return [('dimensions', mkand(g.R == r, g.C == k))]


def itx(L, nm='it'): return It(L.run, L.lv(nm))


def before(g, t, i, j):
    """cell (i,j) is stored and was already visited"""
    p = g.pos(i, j)
    return z3.And(p >= 0, p < t)


# ------------------------------------------------------------------ transpose, conjugate
def mapped(sw):
    """tmp(j,i) (or tmp(i,j)) = this(i,j) for visited cells"""
    def inv(L):
        g = S(L.run, L.this); x = itx(L); t = S(L.run, L.lv('tmp'))
        d = (g.C, g.R) if sw else (g.R, g.C)
        f = lambda i, j: z3.If(before(g, x.pos, *((j, i) if sw else (i, j))), g.v(*((j, i) if sw else (i, j))), 0)
        return it_in(L.run, L.lv('it'), L.this) + wf(L.run, L.lv('tmp')) + fdims(t, *d) + view_is(L.run, L.lv('tmp'), f, name='visited cells are transferred')
    return LoopSpec(inv, var=lambda L: S(L.run, L.this).n - itx(L).pos)


for nm, sw in (('transpose', True), ('conjugate', False), ('adjugate', True)):
    def post(c, sw=sw):
        g = V(c)
        return wf(c.run, c.ret) + fdims(R_(c), *((g.C, g.R) if sw else (g.R, g.C))) + view_is(c.run, c.ret, lambda i, j: g.v(j, i) if sw else g.v(i, j), name='every entry')
    add(f'{SMT}::{nm}() const', opts=seq(), pre=lambda c: this_wf(c) + [nonempty(V(c))], post=post, loops=[mapped(sw)])


# ------------------------------------------------------------------ += and -=
def aliased(c): return lv_same(uncast(c.this), uncast(c.a[0])) if isinstance(c.a[0], LV) else False


def accum(sign):
    def inv(L):
        c = L.c; g = S(L.run, L.this); g0 = V(c.old); x = itx(L)
        if aliased(c):
            return it_in(L.run, L.lv('it'), L.this) + wf(L.run, L.this) + struct_same(g, g0) + [
                ('visited cells are doubled', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < g.n), g.val(p) == z3.If(p < x.pos, 2 * g0.val(p), g0.val(p))), lambda p: [g.val(p)]))]
        h = A(c)
        return it_in(L.run, L.lv('it'), c.a[0]) + wf(L.run, L.this) + same_dims(g, g0) + \
            view_is(L.run, L.this, lambda i, j: g0.v(i, j) + z3.If(before(h, x.pos, i, j), sign * h.v(i, j), 0), name='visited entries are accumulated')
    return LoopSpec(inv, var=lambda L: S(L.run, L.c.a[0]).n - itx(L).pos)


def samedim(c): return ('matching dimensions', mkand(V(c).R == A(c).R, V(c).C == A(c).C))


for op, sg in (('+', 1), ('-', -1)):
    def post(c, sg=sg):
        g0, h0 = V(c.old), A0(c)
        return wf(c.run, c.this) + same_dims(V(c), g0) + view_is(c.run, c.this, lambda i, j: g0.v(i, j) + sg * h0.v(i, j), name='entry by entry')
    add(f'{SMT}::operator{op}=({SMT}&)', opts=seq(), alias=[{}, {0: 'this'}], pre=lambda c: this_wf(c) + wf(c.run, c.a[0]) + [samedim(c)],
        mod=lambda c: repmod(c.this), ret=lambda c: c.this, post=post, loops=[accum(sg)])


# ------------------------------------------------------------------ scaling and element-wise product
def scale_inv(L):
    g, g0 = S(L.run, L.this), V(L.c.old); x = itx(L); f = L.c.ov(0)
    return it_in(L.run, L.lv('it'), L.this) + wf(L.run, L.this) + struct_same(g, g0) + [
        ('visited cells are scaled', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < g.n), g.val(p) == z3.If(p < x.pos, mkrmul(g0.val(p), f), g0.val(p))), lambda p: [g.val(p)]))]


def scale_post(c):
    g0 = V(c.old); f = c.ov(0)
    return wf(c.run, c.this) + same_dims(V(c), g0) + view_is(c.run, c.this, lambda i, j: mkrmul(g0.v(i, j), f), name='every entry is scaled')


def cell_of(run, lv):
    g = S(run, lv); k = run.fresh('cell', I); M = uncast(lv)
    run.assume(z3.And(k >= 0, k < g.n))
    return Elem(Field(M, 'mValues', run.eng.fieldty(M.ty, 'mValues')), k, REALTY)


add(f'{SMT}::operator*=(real&)', opts=rep(), alias=[{}, {0: 'elem'}], elem=cell_of, pre=this_wf, mod=lambda c: repmod(c.this), ret=lambda c: c.this, post=scale_post,
    loops=[LoopSpec(scale_inv, var=lambda L: S(L.run, L.this).n - itx(L).pos)])


def prod_cell(h, i, j): return z3.If(h.pos(i, j) >= 0, h.v(i, j), 1)


def had1(L):
    c = L.c; g, g0 = S(L.run, L.this), V(c.old); x = itx(L)
    if aliased(c):
        f = lambda p: z3.If(p < x.pos, mkrmul(g0.val(p), g0.val(p)), g0.val(p)); M = L.this
    else:
        h = A(c); M = c.a[0]
        f = lambda p: z3.If(before(h, x.pos, g0.row(p), g0.col(p)), mkrmul(g0.val(p), h.v(g0.row(p), g0.col(p))), g0.val(p))
    return it_in(L.run, L.lv('it'), M) + wf(L.run, L.this) + struct_same(g, g0) + [
        ('visited cells are multiplied', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < g.n), g.val(p) == f(p)), lambda p: [g.val(p)]))]


def had2(L):
    c = L.c; g, g0 = S(L.run, L.this), V(c.old); x = itx(L); h0 = A0(c)
    if aliased(c):
        return it_in(L.run, L.lv('it'), L.this) + wf(L.run, L.this) + struct_same(g, g0) + \
            view_is(L.run, L.this, lambda i, j: z3.If(g0.pos(i, j) >= 0, mkrmul(g0.v(i, j), g0.v(i, j)), 0), name='product of stored cells')
    def f(i, j):
        return z3.If(h0.pos(i, j) >= 0, mkrmul(g0.v(i, j), h0.v(i, j)), z3.If(lex(i, j, x.i, x.j), 0, g0.v(i, j)))
    return it_in(L.run, L.lv('it'), L.this) + wf(L.run, L.this) + same_dims(g, g0) + view_is(L.run, L.this, f, name='cells without partner are removed so far')


def had_post(c):
    g0, h0 = V(c.old), A0(c)
    return wf(c.run, c.this) + same_dims(V(c), g0) + view_is(c.run, c.this, lambda i, j: mkrmul(g0.v(i, j), h0.v(i, j)), name='entry by entry')


add(f'{SMT}::operator*=({SMT}&)', opts=rep(), alias=[{}, {0: 'this'}], pre=lambda c: this_wf(c) + wf(c.run, c.a[0]) + [samedim(c)],
    mod=lambda c: repmod(c.this), ret=lambda c: c.this, post=had_post,
    loops=[LoopSpec(had1, var=lambda L: S(L.run, L.c.a[0]).n - itx(L).pos), LoopSpec(had2, var=lambda L: S(L.run, L.this).n - itx(L).pos)])


# ------------------------------------------------------------------ binary operators
def bpost(f):
    def post(c):
        g = A(c, 0)
        return wf(c.run, c.ret) + fdims(R_(c), g.R, g.C) + view_is(c.run, c.ret, lambda i, j: f(c, i, j), name='entry by entry')
    return post


pre2 = lambda c: wf(c.run, c.a[0]) + wf(c.run, c.a[1]) + [('matching dimensions', mkand(A(c, 0).R == A(c, 1).R, A(c, 0).C == A(c, 1).C))]
add(f'operator+({SMT}&,{SMT}&)', opts=seq(), alias=[{}, {1: 0}], pre=pre2, post=bpost(lambda c, i, j: A(c, 0).v(i, j) + A(c, 1).v(i, j)))
add(f'operator-({SMT}&,{SMT}&)', opts=seq(), alias=[{}, {1: 0}], pre=pre2, post=bpost(lambda c, i, j: A(c, 0).v(i, j) - A(c, 1).v(i, j)))
add(f'operator*({SMT}&,{SMT}&)', opts=seq(), alias=[{}, {1: 0}], pre=pre2, post=bpost(lambda c, i, j: mkrmul(A(c, 0).v(i, j), A(c, 1).v(i, j))))
add(f'operator-({SMT}&)', opts=seq(), pre=lambda c: wf(c.run, c.a[0]), post=bpost(lambda c, i, j: -A(c, 0).v(i, j)))
add(f'operator*({SMT}&,real)', opts=seq(), pre=lambda c: wf(c.run, c.a[0]), post=bpost(lambda c, i, j: mkrmul(A(c, 0).v(i, j), c.ov(1))))


def fpost(c):
    g = A(c, 1)
    return wf(c.run, c.ret) + fdims(R_(c), g.R, g.C) + view_is(c.run, c.ret, lambda i, j: mkrmul(g.v(i, j), c.ov(0)), name='entry by entry')


add(f'operator*(real,{SMT}&)', opts=seq(), pre=lambda c: wf(c.run, c.a[1]), post=fpost)


# ------------------------------------------------------------------ comparison
def first_diff(run, g, h):
    """index of the first stored cell in which two representations differ (exists by well-ordering)"""
    key = ('FDIFF', id_of(run, g.V), id_of(run, h.V), id_of(run, g.n), id_of(run, h.n))
    if key not in run.ghosts:
        d = run.fresh('fdiff', I)
        run.ghosts[key] = d
        eq = lambda p: z3.And(g.row(p) == h.row(p), g.col(p) == h.col(p), g.val(p) == h.val(p))
        run.assume(z3.And(d >= 0, d <= g.n, d <= h.n, z3.Implies(z3.And(d < g.n, d < h.n), z3.Not(eq(d)))))
        run.assume(FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < d), eq(p)), lambda p: [g.col(p), h.col(p), g.row(p), h.row(p)]))
    return run.ghosts[key]


def eq_post(neg):
    def post(c):
        g, h = A(c, 0), A(c, 1); r = z3.Not(c.ret) if neg else c.ret
        w = []
        if c.mode == 'verify' and not neg:
            d = first_diff(c.run, g, h)
            w = [(g.row(d), g.col(d)), (h.row(d), h.col(d))]
        return [('true means equal', IMP(r, [mkand(g.R == h.R, g.C == h.C), FA(2, lambda i, j: g.v(i, j) == h.v(i, j), lambda i, j: [g.v(i, j), h.v(i, j)], hints=lambda i, j: [g.col(g.pos(i, j)), h.col(h.pos(i, j)), g.val(g.pos(i, j)), h.val(h.pos(i, j))])])),
                ('false means different', IMP(z3.Not(r), EX(2, lambda i, j: z3.Or(g.R != h.R, g.C != h.C, g.v(i, j) != h.v(i, j)), w)))]
    return post


def eq_inv(L):
    g, h = A(L.c, 0), A(L.c, 1)
    x, y = itx(L, 'v1it'), itx(L, 'v2it')
    return it_in(L.run, L.lv('v1it'), L.c.a[0]) + it_in(L.run, L.lv('v2it'), L.c.a[1]) + [
        ('in step', x.pos == y.pos),
        ('equal so far', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < x.pos), z3.And(g.row(p) == h.row(p), g.col(p) == h.col(p), g.val(p) == h.val(p))), lambda p: [g.col(p), h.col(p), g.row(p), h.row(p), g.val(p), h.val(p)]))]


wf2 = lambda c: wf(c.run, c.a[0]) + wf(c.run, c.a[1])
add(f'operator==({SMT}&,{SMT}&)', opts=seq(), alias=[{}, {1: 0}], pre=wf2, post=eq_post(False), loops=[LoopSpec(eq_inv, var=lambda L: A(L.c, 0).n - itx(L, 'v1it').pos)])
add(f'operator!=({SMT}&,{SMT}&)', opts=seq(), alias=[{}, {1: 0}], pre=wf2, post=eq_post(True))


# ------------------------------------------------------------------ products
def mulsum(run, g, h):
    return getsum(run, 'smul', [g.V, h.V], lambda: Sum(run, 'SMUL', lambda i, k, t: mkrmul(g.v(i, t), h.v(t, k)), 2))


def mul_tmp(L, dn):
    g, h = V(L.c), A(L.c); t = S(L.run, L.lv('tmp')); s = mulsum(L.run, g, h)
    return wf(L.run, L.lv('tmp')) + fdims(t, g.R, h.C) + [('entries done so far', FA(2, lambda p, q: z3.Implies(z3.And(t.inr(p, q), dn(p, q)), t.v(p, q) == s.at(p, q, g.C)), lambda p, q: [t.v(p, q)]))]


def mul1(L):
    i = L.v('i')
    return [('range', z3.And(i >= 0, i <= V(L.c).R))] + mul_tmp(L, lambda p, q: p < i)


def mul2(L):
    i, k = L.v('i'), L.v('k')
    return [('range', z3.And(i >= 0, i < V(L.c).R, k >= 0, k <= A(L.c).C))] + mul_tmp(L, lambda p, q: z3.Or(p < i, z3.And(p == i, q < k)))


def mul3(L):
    g, h = V(L.c), A(L.c); i, k = L.v('i'), L.v('k'); x = itx(L, 'rit'); s = mulsum(L.run, g, h)
    return [('range', z3.And(i >= 0, i < g.R, k >= 0, k < h.C))] + it_in(L.run, L.lv('rit'), L.this) + [
        ('stays in the row', z3.Implies(x.valid, x.i == i)),
        ('partial sum', L.v('v') == z3.If(x.valid, s.at(i, k, x.j), s.at(i, k, g.C)))]


def mul3_body(L):
    g, h = V(L.c), A(L.c); x = itx(L, 'rit'); s = mulsum(L.run, g, h)
    return s.unfold(L.v('i'), L.v('k'), x.j) + s.gap()


def mul2_body(L):
    return mulsum(L.run, V(L.c), A(L.c)).gap()


def mul_post(c):
    g, h, r = V(c), A(c), R_(c); s = mulsum(c.run, g, h)
    return wf(c.run, c.ret) + fdims(r, g.R, h.C) + [('row times column', FA(2, lambda i, k: z3.Implies(r.inr(i, k), r.v(i, k) == s.at(i, k, g.C)), lambda i, k: [r.v(i, k)]))]


add(f'{SMT}::mul({SMT}&) const', opts=seq(), alias=[{}, {0: 'this'}], pre=lambda c: this_wf(c) + wf(c.run, c.a[0]) + [nonempty(V(c)), ('not empty (2)', A(c).C > 0)],
    throws=[('MatrixMulMismatchException', lambda c: V(c).C != A(c).R)], post=mul_post,
    loops=[LoopSpec(mul1, var=lambda L: V(L.c).R - L.v('i')), LoopSpec(mul2, var=lambda L: A(L.c).C - L.v('k'), body=mul2_body), LoopSpec(mul3, var=lambda L: V(L.c).n - itx(L, 'rit').pos, body=mul3_body)])


def vec(c): return VEC.D(c.run, c.a[0])


def mvsum(run, g, v):
    return getsum(run, 'smv', [g.V] + v.ids(), lambda: Sum(run, 'SMV', lambda i, t: mkrmul(g.v(i, t), v.at(t)), 1))


def vmsum(run, g, v):
    return getsum(run, 'svm', [g.V] + v.ids(), lambda: Sum(run, 'SVM', lambda j, t: mkrmul(g.v(t, j), v.at(t)), 1))


def mv_inv(L):
    g = V(L.c); x = itx(L); s = mvsum(L.run, g, vec(L.c)); r = VEC.D(L.run, L.lv('r'))
    return it_in(L.run, L.lv('it'), L.this) + [('length', r.n == g.R),
        ('partial sums', FA(1, lambda i: z3.Implies(z3.And(i >= 0, i < g.R), r.at(i) == s.at(i, z3.If(i < x.i, g.C, z3.If(i == x.i, x.j, 0)))), lambda i: r.pats(i)))]


def vm_inv(L):
    g = V(L.c); x = itx(L); s = vmsum(L.run, g, vec(L.c)); r = VEC.D(L.run, L.lv('r'))
    return it_in(L.run, L.lv('it'), L.this) + [('length', r.n == g.C),
        ('partial sums', FA(1, lambda j: z3.Implies(z3.And(j >= 0, j < g.C), r.at(j) == s.at(j, z3.If(z3.And(x.valid, j < x.j), x.i + 1, x.i))), lambda j: r.pats(j)))]


for nm, sm, inv_, out, inn in (('mul', mvsum, mv_inv, 'R', 'C'), ('mul_left', vmsum, vm_inv, 'C', 'R')):
    def post(c, sm=sm, out=out, inn=inn):
        g = V(c); r = VEC.D(c.run, c.ret); s = sm(c.run, g, vec(c))
        return [('length', r.n == getattr(g, out)), ('row times vector', r.all(lambda i: s.at(i, getattr(g, inn))))]
    def bodyf(L, sm=sm, nm=nm):
        x = itx(L); s = sm(L.run, V(L.c), vec(L.c))
        return (s.unfold(x.i, x.j) if nm == 'mul' else s.unfold(x.j, x.i)) + s.gap()
    def prev(c, sm=sm): return this_wf(c) + [('lemma: ranges of zero terms', DEF(sm(c.run, V(c), vec(c)).gap()))]
    add(f'{SMT}::{nm}(Vector<double,vector<double>>&) const', opts=seq(), pre=prev, throws=[('MatrixMulMismatchException', lambda c, inn=inn: getattr(V(c), inn) != vec(c).n)], post=post,
        loops=[LoopSpec(inv_, var=lambda L: V(L.c).n - itx(L).pos, body=bodyf)])


def trsum(run, g): return getsum(run, 'strace', [g.V], lambda: Sum(run, 'STR', lambda t: g.v(t, t), 0))
def trn(g): return z3.If(g.C < g.R, g.C, g.R)


add(f'{SMT}::trace() const', opts=seq(), pre=this_wf, post=lambda c: [('sum of the diagonal', c.ret == trsum(c.run, V(c)).at(trn(V(c))))],
    loops=[LoopSpec(lambda L: [('range', z3.And(L.v('i') >= 0, L.v('i') <= trn(V(L.c)))), ('partial sum', L.v('v') == trsum(L.run, V(L.c)).at(L.v('i')))],
                    body=lambda L: trsum(L.run, V(L.c)).unfold(L.v('i')), var=lambda L: trn(V(L.c)) - L.v('i'))])
