"""Contracts of SparseMatrix<double> and its iterators."""
import z3
from ..core import *
from ..interp import Cast, uncast
from ..contracts import Contract, LoopSpec, Ctx

RA = z3.ArraySort(I, R)


class SGhost:
    """ghost view of one sparse representation state"""

    def __init__(self, run, M):
        self.run = run
        self.vals = run.nm(M.get('.mValues[]')); self.n = M.get('.mValues#len')
        self.cols = run.nm(M.get('.mColumnPtr[]')); self.nc = M.get('.mColumnPtr#len')
        self.rp = run.nm(M.get('.mRowPtr[]')); self.R = M.get('.mRowPtr#len')
        self.C = M.get('.mColumnCount'); self.empty = M.get('.mEmpty')

        def part(tag, terms, mk):
            k = (tag,) + tuple(id_of(run, t) for t in terms)
            if k not in run.ghosts:
                run.nfresh += 1
                run.ghosts[k] = mk(f'{tag}_{run.nfresh}')
            return run.ghosts[k]
        self.ROWf = part('ROW', (self.rp, self.R, self.n), lambda nm: z3.Function(nm, I, I))
        self.POSf = part('POS', (self.rp, self.R, self.n, self.cols, self.C), lambda nm: z3.Function(nm, I, I, I))
        self.V = part('V', (self.rp, self.R, self.n, self.cols, self.C, self.vals), lambda nm: z3.Const(nm, z3.ArraySort(I, RA)))
        self.WF = part('WF', (self.rp, self.R, self.n, self.nc, self.cols, self.C, self.vals, self.empty), lambda nm: z3.Const(nm, B))
        # the structural part (the stored values may be anything, zero included): independent of the values
        self.WFS = part('WFS', (self.rp, self.R, self.n, self.nc, self.cols, self.C), lambda nm: z3.Const(nm, B))

    def row(self, p): return self.ROWf(iv(p))
    def pos(self, i, j): return self.POSf(iv(i), iv(j))
    def col(self, p): return sel(self.cols, iv(p))
    def val(self, p): return sel(self.vals, iv(p))
    def rpt(self, i): return sel(self.rp, iv(i))
    def v(self, i, j): return sel(sel(self.V, iv(i)), iv(j))
    def end(self, i): return z3.If(i == self.R - 1, self.n, self.rpt(mkadd(iv(i), 1)))
    def inr(self, i, j): return mkand(i >= 0, i < self.R, j >= 0, j < self.C)


def S(run, M):
    M = uncast(M)
    key = ('S', tuple(id_of(run, M.get(p)) for p in ('.mValues[]', '.mValues#len', '.mColumnPtr[]', '.mColumnPtr#len', '.mRowPtr[]', '.mRowPtr#len', '.mColumnCount', '.mEmpty')))
    g = run.ghosts.get(key)
    if g is None:
        g = run.ghosts[key] = SGhost(run, M)
    return g


def id_of(run, t):
    run.keep.append(t)
    return t.get_id()


def level(run): return run.opts.get('reveal', 'view')


def rep_facts(g):
    n, Rr = g.n, g.R
    return [
        ('sizes agree', mkand(g.nc == n, n >= 0, Rr >= 0, g.C >= 0, z3.Implies(Rr == 0, n == 0), z3.Implies(Rr > 0, g.C > 0))),
        ('mEmpty is zero', g.empty == 0),
        ('first row starts at 0', z3.Implies(Rr > 0, g.rpt(0) == 0)),
        ('row pointers in range', FA(1, lambda i: z3.Implies(z3.And(i >= 0, i < Rr), z3.And(g.rpt(i) >= 0, g.rpt(i) <= n)), lambda i: [g.rpt(i)])),
        ('row pointers ascend', FA(2, lambda i, k: z3.Implies(z3.And(i >= 0, i <= k, k < Rr), g.rpt(i) <= g.rpt(k)), lambda i, k: [(g.rpt(i), g.rpt(k))])),
    ]


def row_defs(g):
    n, Rr = g.n, g.R
    return DEF([
        FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), z3.And(g.row(p) >= 0, g.row(p) < Rr, g.rpt(g.row(p)) <= p)), lambda p: [g.row(p)]),
        FA(2, lambda i, p: z3.Implies(z3.And(i >= 0, i < Rr, p >= 0, p < n), (g.rpt(i) <= p) == (i <= g.row(p))), lambda i, p: [(g.rpt(i), g.row(p))]),
    ])


def content_facts(g, full=True):
    n = g.n
    out = [
        ('column indices in range', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), z3.And(g.col(p) >= 0, g.col(p) < g.C)), lambda p: [g.col(p)])),
        ('no zero is stored', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), g.val(p) != 0), lambda p: [g.val(p)])),
        ('columns ascend inside a row', FA(2, lambda p, q: z3.Implies(z3.And(p >= 0, p < q, q < n, g.row(p) == g.row(q)), g.col(p) < g.col(q)), lambda p, q: [(g.col(p), g.col(q))])),
    ]
    return out if full else [x for x in out if x[0] != 'no zero is stored']


def pos_defs(g):
    n = g.n
    def d1(i, j):
        p = g.pos(i, j)
        return z3.And(p >= -1, p < n, z3.Implies(p >= 0, z3.And(g.row(p) == i, g.col(p) == j)))
    return DEF([
        FA(2, d1, lambda i, j: [g.pos(i, j)]),
        FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), g.pos(g.row(p), g.col(p)) == p), lambda p: [g.col(p)]),
        FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), g.pos(g.row(p), g.col(p)) == p), lambda p: [g.row(p)]),
        FA(2, lambda i, j: g.v(i, j) == z3.If(g.pos(i, j) >= 0, g.val(g.pos(i, j)), 0), lambda i, j: [g.v(i, j)]),
    ])


def seq_facts(g, full=True):
    """consequences of the representation invariant exposed to iterator clients (full: no zero is stored)"""
    n, Rr = g.n, g.R
    out = [
        ('dims', mkand(n >= 0, Rr >= 0, g.C >= 0, z3.Implies(Rr == 0, n == 0), z3.Implies(Rr > 0, g.C > 0), g.empty == 0, g.nc == n)),
        ('rows in range', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), z3.And(g.row(p) >= 0, g.row(p) < Rr)), lambda p: [g.row(p)])),
        ('cols in range', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), z3.And(g.col(p) >= 0, g.col(p) < g.C, g.val(p) != 0) if full else z3.And(g.col(p) >= 0, g.col(p) < g.C)), lambda p: [g.col(p)])),
        ('rows ascend', FA(2, lambda p, q: z3.Implies(z3.And(p >= 0, p <= q, q < n), g.row(p) <= g.row(q)), lambda p, q: [(g.row(p), g.row(q))])),
        ('cols ascend', FA(2, lambda p, q: z3.Implies(z3.And(p >= 0, p < q, q < n, g.row(p) == g.row(q)), g.col(p) < g.col(q)), lambda p, q: [(g.col(p), g.col(q))])),
        ('out of range is zero', FA(2, lambda i, j: z3.Implies(z3.Not(g.inr(i, j)), g.pos(i, j) == -1), lambda i, j: [g.pos(i, j)])),
        ('view zero iff not stored', FA(2, lambda i, j: (g.v(i, j) != 0) == (g.pos(i, j) >= 0), lambda i, j: [g.v(i, j)])),
    ]
    return out if full else out[:-1]


def lwf(run, M): return wf(run, M, full=False)


def wf(run, M, mid=(), mid2=(), full=True):
    """representation invariant of M, at the reveal level of the function under verification (not full: without `no zero is stored`)"""
    g = S(run, M)
    lv = level(run)
    if lv == 'rep':
        out = rep_facts(g) + [('def ROW', row_defs(g))] + list(mid) + content_facts(g, full) + [('def POS/V', pos_defs(g))] + list(mid2)
        return [(f'{nm} [{M!r}]', f) for nm, f in out]
    dims = mkand(g.n >= 0, g.R >= 0, g.C >= 0, z3.Implies(g.R > 0, g.C > 0), g.empty == 0)
    inv, imp = (g.WF, [z3.Implies(g.WF, g.WFS)]) if full else (mkand(g.WFS, g.empty == 0), [])
    if lv == 'seq':
        return [(f'representation invariant [{M!r}]', inv), ('consequences of the invariant', DEF([f for _, f in seq_facts(g, full)] + [pos_defs(g)] + imp))]
    return [(f'representation invariant [{M!r}]', inv), ('dimensions', DEF([dims] + imp + [ FA(2, lambda i, j: z3.Implies(z3.Not(g.inr(i, j)), g.v(i, j) == 0), lambda i, j: [g.v(i, j)])]))]


def view_is(run, M, f, stores=None, base=None, name='abstract value'):
    """V(M)(i,j) = f(i,j) for all i,j"""
    g = S(run, M)
    return [(name, FA(2, lambda i, j: g.v(i, j) == f(i, j), lambda i, j: [g.v(i, j)]))]


def same_dims(g, h):
    return [('dimensions unchanged', mkand(g.R == h.R, g.C == h.C))]


SMT = 'SparseMatrix<double>'
ITT = 'SparseMatrixIterator<double>'
C = {}


def add(sig, **kw):
    if 'opts' not in kw: kw['opts'] = {}
    C[sig] = Contract(sig, **kw)
    return C[sig]


def rep(**kw):
    d = {'reveal': 'rep'}; d.update(kw); return d


def seq(**kw):
    d = {'reveal': 'seq'}; d.update(kw); return d


def this_wf(c): return wf(c.run, c.this)
def this_lwf(c): return lwf(c.run, c.this)


# ---------------------------------------------------------------- internals
add(f'{SMT}::row_entry_count(u64,u64&) const', opts=rep(),
    pre=this_lwf,
    mod=lambda c: [c.a[1]],
    post=lambda c: (lambda g: [
        ('row start and length', z3.If(c.v(0) < g.R, z3.And(c.v(1) == g.rpt(c.v(0)), c.ret == g.end(c.v(0)) - g.rpt(c.v(0)), c.ret >= 0), z3.And(c.v(1) == 0, c.ret == 0)))])(S(c.run, c.this)))


def ia_ret(c):
    g = S(c.run, c.this)
    fnd = c.a[3].get('')
    M = uncast(c.this)
    return CondLV(fnd, Elem(Field(Field(M, 'mValues', c.run.eng.fieldty(M.ty, 'mValues')), '', None) if False else Field(M, 'mValues', c.run.eng.fieldty(M.ty, 'mValues')), c.a[2].get(''), REALTY), Field(M, 'mEmpty', REALTY))


from ..ast import REAL as REALTY


def ia_post(c):
    g = S(c.run, c.this)
    i1, i2, idx, fnd, near = c.v(0), c.v(1), c.v(2), c.v(3), c.v(4)
    return [
        ('found iff stored', z3.And(fnd == (g.pos(i1, i2) >= 0), z3.Implies(fnd, idx == g.pos(i1, i2)))),
        ('insertion point', IMP(z3.And(z3.Not(fnd), near, i1 < g.R, i2 < g.C), [
            z3.And(idx >= g.rpt(i1), idx <= g.n),
            FA(1, lambda k: z3.Implies(z3.And(k > i1, k < g.R), idx <= g.rpt(k)), lambda k: [g.rpt(k)]),
            FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < g.n, g.row(p) == i1), z3.If(p < idx, g.col(p) < i2, g.col(p) > i2)), lambda p: [g.col(p)]),
        ])),
    ]


def ia_inv1(L):
    g = S(L.run, L.this); i1 = L.c.v(0)
    t, s, rp = L.v('tmp_i1'), L.v('s'), L.v('rowPtr')
    return [('row scanned', z3.And(i1 <= t, z3.Or(t < g.R, t == i1), z3.Implies(i1 < g.R, t < g.R))),
            ('row start', z3.If(t < g.R, z3.And(rp == g.rpt(t), s == g.end(t) - rp, s >= 0), z3.And(rp == 0, s == 0))),
            ('rows before are empty', FA(1, lambda k: z3.Implies(z3.And(k > i1, k <= t), g.rpt(k) == g.rpt(i1)), lambda k: [g.rpt(k)])),
            ('not found yet', z3.Not(L.v('found')))]


def ia_inv2(L):
    g = S(L.run, L.this); i1, i2 = L.c.v(0), L.c.v(1)
    rp, s, k = L.v('rowPtr'), L.v('s'), L.v('columnPtrIndex')
    return [('position', z3.And(k >= rp, k <= rp + s)),
            ('not found yet', z3.Not(L.v('found'))),
            ('smaller columns', FA(1, lambda p: z3.Implies(z3.And(p >= rp, p < k), g.col(p) < i2), lambda p: [g.col(p)]))]


add(f'{SMT}::internal_at(u64,u64,u64&,bool&,bool) const', opts=rep(),
    pre=this_lwf, mod=lambda c: [c.a[2], c.a[3]], ret=ia_ret, post=ia_post,
    loops=[LoopSpec(ia_inv1, var=lambda L: S(L.run, L.this).R - L.v('tmp_i1')), LoopSpec(ia_inv2, var=lambda L: L.v('rowPtr') + L.v('s') - L.v('columnPtrIndex'))])


def shift_inv(sign, row):
    def inv(L):
        g0 = S(L.run, L.c.old.this)
        i1 = row(L)
        rp = L.run.nm(uncast(L.this).get('.mRowPtr[]')); k = L.v('k')
        return [('k in range', z3.And(k >= i1 + 1, z3.Or(k <= g0.R, k == i1 + 1))),
                ('shifted prefix', FA(1, lambda q: sel(rp, q) == z3.If(z3.And(q > i1, q < k), g0.rpt(q) + sign, g0.rpt(q)), lambda q: [sel(rp, q)])),
                ('shifted prefix (reverse)', FA(1, lambda q: sel(rp, q) == z3.If(z3.And(q > i1, q < k), g0.rpt(q) + sign, g0.rpt(q)), lambda q: [g0.rpt(q)]))]
    return LoopSpec(inv, var=lambda L: S(L.run, L.c.old.this).R - L.v('k'))


def insert_lemmas(c, i1, i2, idx, guard):
    """how ROW and POS change when a cell is inserted at position idx of row i1"""
    g0, g = S(c.run, c.old.this), S(c.run, c.this)
    mid = [('lemma: rows after insertion', IMP(guard, [
        FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < g.n), g.row(p) == z3.If(p < idx, g0.row(p), z3.If(p == idx, i1, g0.row(p - 1)))), lambda p: [g.row(p)]),
        FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < g0.n), g0.row(p) == g.row(z3.If(p < idx, p, p + 1))), lambda p: [g0.row(p)])]))]
    def pp(i, j):
        p = g0.pos(i, j)
        return g.pos(i, j) == z3.If(z3.And(i == i1, j == i2), idx, z3.If(p < 0, -1, z3.If(p < idx, p, p + 1)))
    mid2 = [('lemma: positions after insertion', IMP(guard, FA(2, pp, lambda i, j: [g.pos(i, j)], hints=lambda i, j: [g.col(g0.pos(i, j)), g.col(g0.pos(i, j) + 1), g0.col(g.pos(i, j)), g0.col(g.pos(i, j) - 1)])))]
    return mid, mid2


def erase_lemmas(c, i1, i2, idx, guard, posn=None):
    g0, g = S(c.run, c.old.this), S(c.run, c.this)
    mid = [('lemma: rows after removal', IMP(guard, [
        FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < g.n), g.row(p) == g0.row(z3.If(p < idx, p, p + 1))), lambda p: [g.row(p)]),
        FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < g0.n, p != idx), g0.row(p) == g.row(z3.If(p < idx, p, p - 1))), lambda p: [g0.row(p)])]))]
    def pp(i, j):
        p = g0.pos(i, j)
        return g.pos(i, j) == z3.If(z3.Or(p < 0, p == idx), -1, z3.If(p < idx, p, p - 1))
    mid2 = [('lemma: positions after removal', IMP(guard, FA(2, pp, lambda i, j: [g.pos(i, j)], hints=lambda i, j: [g.col(g0.pos(i, j)), g.col(g0.pos(i, j) - 1), g0.col(g.pos(i, j)), g0.col(g.pos(i, j) + 1)])))]
    return mid, mid2


def store_post(c, i1, i2, v, lemmas=None):
    g0, g = S(c.run, c.old.this), S(c.run, c.this)
    mid, mid2 = [], []
    if c.mode == 'verify' and lemmas:
        idx, fnd = c.local('columnPtrIndex'), c.local('found')
        if idx is not None and fnd is not None:
            mid, mid2 = lemmas(c, i1, i2, idx, fnd if lemmas is erase_lemmas else z3.Not(fnd))
    return same_dims(g, g0) + wf(c.run, c.this, mid, mid2) + view_is(c.run, c.this, lambda i, j: z3.If(z3.And(i == i1, j == i2), v, g0.v(i, j)), name='only the addressed entry changes')


REPF = ['.mValues#len', '.mValues[]', '.mColumnPtr#len', '.mColumnPtr[]', '.mRowPtr[]']


def repmod(lv): return [(lv, REPF)]


add(f'{SMT}::set_at(u64,u64,real&)', opts=rep(),
    pre=lambda c: this_wf(c) + [('indices in range', z3.And(c.v(0) < S(c.run, c.this).R, c.v(1) < S(c.run, c.this).C)), ('value is non-zero', c.v(2) != 0)],
    mod=lambda c: repmod(c.this),
    post=lambda c: store_post(c, c.v(0), c.v(1), c.ov(2), insert_lemmas),
    loops=[shift_inv(1, lambda L: L.c.v(0))])

add(f'{SMT}::remove_at(u64,u64)', opts=rep(),
    pre=lambda c: this_wf(c),
    mod=lambda c: repmod(c.this),
    post=lambda c: store_post(c, c.v(0), c.v(1), z3.RealVal(0), erase_lemmas),
    loops=[shift_inv(-1, lambda L: L.c.v(0))])


# ---------------------------------------------------------------- element access
from .. import ast as _ast
SMTY = None


def smty(run):
    return run.unit.types.parse(SMT)


def V(c): return S(c.run, c.this)


def inr(c, i, j):
    g = V(c)
    return ('indices in range', z3.And(i >= 0, i < g.R, j >= 0, j < g.C))


def struct_same(g, g0):
    return [('stored positions unchanged', mkand(g.n == g0.n, g.R == g0.R, g.C == g0.C)),
            ('cells keep their place', FA(1, lambda p: z3.And(g.row(p) == g0.row(p), g.col(p) == g0.col(p)), lambda p: [g.row(p), g.col(p), g0.row(p), g0.col(p)])),
            ('cells keep their place (2)', FA(2, lambda i, j: g.pos(i, j) == g0.pos(i, j), lambda i, j: [g.pos(i, j), g0.pos(i, j)]))]


def inplace(c, i, j, v, cond=None):
    """writing a non-zero value to a stored cell keeps the storage structure"""
    g, g0 = S(c.run, c.this), S(c.run, c.old.this)
    k = mkand(g0.pos(i, j) >= 0, v != 0)
    its = []
    if c.mode == 'verify':
        # the representation arrays are the same, so are the ghost maps: state element-wise
        its += [FA(1, lambda p: g.row(p) == g0.row(p), lambda p: [g.row(p), g0.row(p)], hints=lambda p: [g.row(g0.row(p)), g.rpt(g0.row(p)), g0.rpt(g.row(p))]),
                FA(1, lambda p: g.col(p) == g0.col(p), lambda p: [g.col(p), g0.col(p)]),
                FA(2, lambda a, b: g.pos(a, b) == g0.pos(a, b), lambda a, b: [g.pos(a, b), g0.pos(a, b)],
                   hints=lambda a, b: [g.col(g0.pos(a, b)), g0.col(g.pos(a, b)), g.row(g0.pos(a, b)), g0.row(g.pos(a, b))]),
                g.n == g0.n]
    else:
        its = [x for _, x in struct_same(g, g0)]
    its.append(FA(1, lambda p: g.val(p) == z3.If(p == g0.pos(i, j), v, g0.val(p)), lambda p: [g.val(p)]))
    return [('overwriting a stored cell keeps the structure', IMP(k, its))]


for nm in ('columns', 'rows', 'size', 'filled_count', 'empty'):
    e = {'columns': lambda g: g.C, 'rows': lambda g: g.R, 'size': lambda g: mkimul(g.R, g.C), 'filled_count': lambda g: g.n, 'empty': None}[nm]
    add(f'{SMT}::{nm}() const', opts=rep(), pre=this_lwf, inl=True,
        post=(lambda e: lambda c: [('value', c.ret == e(V(c)))])(e) if e else (lambda c: [('empty iff nothing is stored', c.ret == (V(c).n == 0))]))

add(f'{SMT}::has_zero() const', opts=rep(), pre=this_wf, post=lambda c: [('value', c.ret == (V(c).n != mkimul(V(c).R, V(c).C)))])

add(f'{SMT}::at(u64,u64) const', opts=rep(),
    pre=lambda c: this_lwf(c) + [inr(c, c.v(0), c.v(1))],
    post=lambda c: [('reads the abstract entry', c.ret == V(c).v(c.v(0), c.v(1)))])

add(f'{SMT}::set(u64,u64,real&)', opts=rep(),
    pre=lambda c: this_wf(c) + [inr(c, c.v(0), c.v(1))],
    mod=lambda c: repmod(c.this),
    post=lambda c: store_post(c, c.v(0), c.v(1), c.ov(2)) + inplace(c, c.v(0), c.v(1), c.ov(2)))

C[f'{SMT}::set_at(u64,u64,real&)'].post = (lambda o: lambda c: o(c) + inplace(c, c.v(0), c.v(1), c.ov(2)))(C[f'{SMT}::set_at(u64,u64,real&)'].post)

add(f'{SMT}::linear_at(u64) const', opts=rep(),
    pre=lambda c: this_wf(c) + [('index in range', z3.And(c.v(0) < mkimul(V(c).R, V(c).C), V(c).C > 0))],
    post=lambda c: [('reads row-major entry', c.ret == V(c).v(lfst(c.v(0), V(c).C), lsnd(c.v(0), V(c).C)))])
add(f'{SMT}::linear_set(u64,real&)', opts=rep(),
    pre=lambda c: this_wf(c) + [('index in range', z3.And(c.v(0) < mkimul(V(c).R, V(c).C), V(c).C > 0))],
    mod=lambda c: repmod(c.this),
    post=lambda c: store_post(c, lfst(c.v(0), V(c.old).C), lsnd(c.v(0), V(c.old).C), c.ov(1)))

add(f'{SMT}::has(u64,u64) const', opts=rep(),
    pre=lambda c: this_wf(c) + [inr(c, c.v(0), c.v(1))],
    post=lambda c: [('true iff non-zero', c.ret == (V(c).v(c.v(0), c.v(1)) != 0)), ('true iff stored', c.ret == (V(c).pos(c.v(0), c.v(1)) >= 0))])
add(f'{SMT}::has(u64,u64,real&) const', opts=rep(),
    pre=lambda c: this_wf(c) + [inr(c, c.v(0), c.v(1))],
    mod=lambda c: [c.a[2]],
    post=lambda c: [('true iff non-zero', c.ret == (V(c).v(c.v(0), c.v(1)) != 0)), ('value delivered', c.v(2) == V(c).v(c.v(0), c.v(1)))])


def zero_view(c, M):
    g = S(c.run, M)
    return [('all entries zero', FA(2, lambda i, j: g.v(i, j) == 0, lambda i, j: [g.v(i, j)])), ('nothing stored', g.n == 0)]


add(f'{SMT}::(ctor)()', opts=rep(),
    post=lambda c: wf(c.run, c.this) + [('dimensions', z3.And(V(c).R == 0, V(c).C == 0))] + zero_view(c, c.this))
add(f'{SMT}::(ctor)(u64,u64,u64)', opts=rep(),
    pre=lambda c: [('positive dimensions', z3.And(c.v(0) > 0, c.v(1) > 0))],
    post=lambda c: wf(c.run, c.this) + [('dimensions', z3.And(V(c).R == c.v(0), V(c).C == c.v(1)))] + zero_view(c, c.this))


def swap_post(c):
    g, h, g0, h0 = S(c.run, c.this), S(c.run, c.a[0]), S(c.run, c.old.this), S(c.run, c.old.a[0])
    return wf(c.run, c.this) + wf(c.run, c.a[0]) + [('dimensions exchanged', mkand(g.R == h0.R, g.C == h0.C, h.R == g0.R, h.C == g0.C)),
        ('contents exchanged', FA(2, lambda i, j: g.v(i, j) == h0.v(i, j), lambda i, j: [g.v(i, j)])),
        ('contents exchanged (2)', FA(2, lambda i, j: h.v(i, j) == g0.v(i, j), lambda i, j: [h.v(i, j)]))]


add(f'{SMT}::swap(SparseMatrix<double>&)', opts=rep(), alias=[{}, {0: 'this'}],
    pre=lambda c: this_wf(c) + wf(c.run, c.a[0]), mod=lambda c: [c.this, c.a[0]], post=swap_post)
add(f'{SMT}::(dtor)()', opts=rep(), pre=this_wf, post=lambda c: [])


# ---------------------------------------------------------------- iterators
class It:
    def __init__(self, run, it):
        it = uncast(it)
        self.lv = it
        pv = it.get('.mMatrix')
        if not isinstance(pv, PtrVal): raise Unsupported('iterator without matrix')
        self.M = pv.lv
        self.g = S(run, self.M)
        self.i = it.get('.mIndex1'); self.j = it.get('.mIndex2'); self.p = it.get('.mColumnPtrIndex')
        self.valid = mkand(self.i < self.g.R, self.j < self.g.C)
        self.pos = mkite(self.valid, self.p, self.g.n)


def it_in(run, it, M, name='iterator'):
    """well-formed iterator over the state M (position, or end)"""
    x = It(run, it); g = S(run, M)
    v = mkand(x.i < g.R, x.j < g.C)
    return [(f'{name} designates a stored cell or the end', z3.If(v, z3.And(x.p >= 0, x.p < g.n, x.i == g.row(x.p), x.j == g.col(x.p)), z3.And(x.i == g.R, x.j == g.C)))]


def it_wf(run, it): return it_in(run, it, It(run, it).M)


def bind_it(k=None, M=None):
    def setup(c):
        it = c.this if k is None else c.a[k]
        if M == 'this': m = c.this
        else:
            m = c.run.new_root('M', smty(c.run)); m.serial = 0
        uncast(it).set('.mMatrix', PtrVal(m))
    return setup


def ptr_to(M_of):
    def f(c):
        r = uncast(c.ret)
        r.set('.mMatrix', PtrVal(M_of(c)))
    return f


def same_ptr(c, it, M):
    pv = uncast(it).get('.mMatrix')
    ok = isinstance(pv, PtrVal) and lv_same(uncast(pv.lv), uncast(M))
    return ('refers to the matrix', z3.BoolVal(ok))


IMOD = ['.mIndex1', '.mIndex2', '.mColumnPtrIndex']


def itm(c): return It(c.run, c.this).M


def itpre(c): return lwf(c.run, itm(c)) + it_wf(c.run, c.this)


def same_it(c, a, b):
    """iterator a (now) equals iterator b"""
    x, y = It(c.run, a), It(c.run, b)
    return ('same position', mkand(x.i == y.i, x.j == y.j, z3.Implies(x.valid, x.p == y.p)))


for IT_, nm in ((ITT, 'SparseMatrixIterator'), ('SparseMatrixRowIterator<double>', 'SparseMatrixRowIterator'), ('SparseMatrixColumnIterator<double>', 'SparseMatrixColumnIterator')):
    add(f'{IT_}::(ctor)(SparseMatrix<double>&,u64,u64)', opts=rep(),
        pre=lambda c: lwf(c.run, c.a[0]) + [('a stored cell or the end', (lambda g: z3.Or(z3.And(c.v(1) < g.R, c.v(2) < g.C, g.pos(c.v(1), c.v(2)) >= 0), z3.And(c.v(1) == g.R, c.v(2) == g.C)))(S(c.run, c.a[0])))],
        retinit=lambda c: uncast(c.this).set('.mMatrix', PtrVal(uncast(c.a[0]))),
        post=lambda c: (lambda x: [same_ptr(c, c.this, c.a[0])] + it_wf(c.run, c.this) + [('position', mkand(x.i == c.v(1), x.j == c.v(2), z3.Implies(x.valid, x.p == x.g.pos(c.v(1), c.v(2)))))])(It(c.run, c.this)))

add(f'{ITT}::isValid() const', opts=rep(), setup=bind_it(), pre=itpre, inl=True,
    post=lambda c: [('valid unless at the end', c.ret == (It(c.run, c.this).pos < It(c.run, c.this).g.n))])
add(f'{ITT}::row() const', opts=rep(), setup=bind_it(), pre=itpre, inl=True,
    post=lambda c: (lambda x: [('row of the cell', z3.Implies(x.valid, c.ret == x.g.row(x.p)))])(It(c.run, c.this)))
add(f'{ITT}::column() const', opts=rep(), setup=bind_it(), pre=itpre, inl=True,
    post=lambda c: (lambda x: [('column of the cell', z3.Implies(x.valid, c.ret == x.g.col(x.p)))])(It(c.run, c.this)))


def bind2(c):
    m = c.run.new_root('M', smty(c.run)); m.serial = 0
    uncast(c.this).set('.mMatrix', PtrVal(m)); uncast(c.a[0]).set('.mMatrix', PtrVal(m))


def eq_post(neg):
    def f(c):
        x, y = It(c.run, c.this), It(c.run, c.a[0])
        e = x.pos == y.pos
        return [('equal iff same position', c.ret == (z3.Not(e) if neg else e))]
    return f


for op, neg in (('operator==', False), ('operator!=', True)):
    add(f'{ITT}::{op}(SparseMatrixIterator<double>&) const', opts=rep(), setup=bind2, inl=True,
        pre=lambda c: itpre(c) + it_wf(c.run, c.a[0]), post=eq_post(neg))

add(f'{ITT}::operator*() const', opts=rep(), setup=bind_it(), pre=itpre,
    post=lambda c: (lambda x: [('value of the cell', c.ret == z3.If(x.valid, x.g.val(x.p), 0))])(It(c.run, c.this)))


def star_ret(c):
    x = It(c.run, c.this)
    M = uncast(x.M)
    vt = c.run.eng.fieldty(M.ty, 'mValues')
    return CondLV(x.valid, Elem(Field(M, 'mValues', vt), x.p, REALTY), Field(M, 'mEmpty', REALTY))


add(f'{ITT}::operator*()', opts=rep(), setup=bind_it(), pre=itpre, ret=star_ret, post=lambda c: [])


def this_ret(c): return c.this


def incr_post(c, old, it):
    x, y = It(c.run, it), It(c.run, old)
    return it_in(c.run, it, y.M) + [('moves to the next stored cell', x.pos == z3.If(y.valid, y.p + 1, y.g.n))]


def inc_inv(L):
    x = It(L.run, L.c.old.this); g = x.g
    it = uncast(L.this)
    s, r0, q = L.v('s1'), x.i, x.p + 1
    return [('range', z3.And(s >= r0, s <= g.R)), ('row so far', it.get('.mIndex1') == z3.If(s <= r0 + 1, r0, s - 1)),
            ('rows passed', FA(1, lambda k: z3.Implies(z3.And(k > r0, k < s), g.rpt(k) == q), lambda k: [g.rpt(k)]))]


add(f'{ITT}::operator++()', opts=rep(), setup=bind_it(), pre=itpre, ret=this_ret, mod=lambda c: [(c.this, IMOD)],
    post=lambda c: incr_post(c, c.old.this, c.this),
    loops=[LoopSpec(inc_inv, var=lambda L: It(L.run, L.c.old.this).g.R - L.v('s1'))])


def pp(postf):
    def f(c):
        return [same_ptr(c, c.ret, itm(c)), same_it(c, c.ret, c.old.this)] + it_in(c.run, c.ret, itm(c)) + postf(c, c.old.this, c.this)
    return f


add(f'{ITT}::operator++(i32)', opts=rep(), setup=bind_it(), pre=itpre, mod=lambda c: [(c.this, IMOD)],
    retinit=ptr_to(itm), post=pp(incr_post))


def row_incr_post(c, old, it):
    x, y = It(c.run, it), It(c.run, old); g = y.g
    return it_in(c.run, it, y.M) + [
        ('moves to the next cell of the row or ends', z3.Implies(y.valid, z3.If(x.valid, z3.And(x.p == y.p + 1, x.i == y.i), True))),
        ('end only after the last cell of the row', IMP(mkand(y.valid, z3.Not(x.valid)), FA(1, lambda q: z3.Implies(z3.And(q >= 0, q < g.n, g.row(q) == y.i), q <= y.p), lambda q: [g.row(q)]))),
        ('stays at the end', z3.Implies(z3.Not(y.valid), z3.Not(x.valid)))]


RIT, CIT = 'SparseMatrixRowIterator<double>', 'SparseMatrixColumnIterator<double>'
add(f'{RIT}::operator++()', opts=rep(), setup=bind_it(), pre=itpre, ret=this_ret, mod=lambda c: [(c.this, IMOD)], post=lambda c: row_incr_post(c, c.old.this, c.this))
add(f'{RIT}::operator++(i32)', opts=rep(), setup=bind_it(), pre=itpre, mod=lambda c: [(c.this, IMOD)], retinit=ptr_to(itm), post=pp(row_incr_post))


def col_incr_post(c, old, it):
    x, y = It(c.run, it), It(c.run, old); g = y.g
    return it_in(c.run, it, y.M) + [
        ('moves to the next cell of the column', z3.Implies(mkand(y.valid, x.valid), z3.And(x.p > y.p, x.j == y.j, x.i > y.i))),
        ('no cell of the column is skipped', IMP(y.valid, FA(1, lambda q: z3.Implies(z3.And(q > y.p, q < g.n, g.col(q) == y.j), z3.And(x.valid, q >= x.p)), lambda q: [g.col(q)]))),
        ('stays at the end', z3.Implies(z3.Not(y.valid), z3.Not(x.valid)))]


def colinc1(L):
    y = It(L.run, L.c.old.this); g = y.g; it = uncast(L.this)
    t, j = it.get('.mIndex1'), it.get('.mIndex2')
    return [('not found', z3.Not(L.v('found'))), ('range', z3.And(t >= y.i, t < g.R, j == y.j)),
            ('rows without the column', FA(1, lambda q: z3.Implies(z3.And(q > y.p, q < g.n, g.row(q) <= t), g.col(q) != y.j), lambda q: [g.col(q)]))]


def colinc2(L):
    y = It(L.run, L.c.old.this); g = y.g; it = uncast(L.this)
    p, rp, s = it.get('.mColumnPtrIndex'), L.v('rowPtr'), L.v('s')
    return [('range', z3.And(p >= rp, p <= rp + s)), ('not found', z3.Not(L.v('found'))),
            ('smaller columns', FA(1, lambda q: z3.Implies(z3.And(q >= rp, q < p), g.col(q) < y.j), lambda q: [g.col(q)]))]


add(f'{CIT}::operator++()', opts=rep(), setup=bind_it(), pre=itpre, ret=this_ret, mod=lambda c: [(c.this, IMOD)], post=lambda c: col_incr_post(c, c.old.this, c.this),
    loops=[LoopSpec(colinc1, var=lambda L: It(L.run, L.c.old.this).g.R - uncast(L.this).get('.mIndex1')),
           LoopSpec(colinc2, var=lambda L: L.v('rowPtr') + L.v('s') - uncast(L.this).get('.mColumnPtrIndex'))])
add(f'{CIT}::operator++(i32)', opts=rep(), setup=bind_it(), pre=itpre, mod=lambda c: [(c.this, IMOD)], retinit=ptr_to(itm), post=pp(col_incr_post))


# ---------------------------------------------------------------- begin/end
def this_m(c): return uncast(c.this)


def end_post(c):
    x = It(c.run, c.ret)
    return [same_ptr(c, c.ret, c.this)] + it_in(c.run, c.ret, c.this) + [('is the end', z3.And(x.i == V(c).R, x.j == V(c).C))]


def begin_post(c):
    x = It(c.run, c.ret)
    return [same_ptr(c, c.ret, c.this)] + it_in(c.run, c.ret, c.this) + [('starts at the first stored cell', x.pos == 0)]


def begin_inv(L):
    g = S(L.run, L.this); r = L.v('row')
    return [('rows before are empty', z3.And(r >= 0, r <= g.R, z3.If(r < g.R, g.rpt(r) == 0, g.n == 0)))]


for cst in (' const', ''):
    add(f'{SMT}::end(){cst}', opts=rep(), pre=this_lwf, retinit=ptr_to(this_m), post=end_post)
    add(f'{SMT}::begin(){cst}', opts=rep(), pre=this_lwf, retinit=ptr_to(this_m), post=begin_post,
        loops=[LoopSpec(begin_inv, var=lambda L: S(L.run, L.this).R - L.v('row'))])
add(f'{SMT}::cbegin() const', opts=rep(), pre=this_lwf, retinit=ptr_to(this_m), post=begin_post)
add(f'{SMT}::cend() const', opts=rep(), pre=this_lwf, retinit=ptr_to(this_m), post=end_post)


def row_begin_post(c):
    x = It(c.run, c.ret); g = V(c); i = c.v(0)
    return [same_ptr(c, c.ret, c.this)] + it_in(c.run, c.ret, c.this) + [
        ('starts in the row', z3.Implies(x.valid, x.i == i)),
        ('at its first cell', FA(1, lambda q: z3.Implies(z3.And(q >= 0, q < g.n, g.row(q) == i), z3.And(x.valid, q >= x.p)), lambda q: [g.row(q)]))]


def col_begin_post(c):
    x = It(c.run, c.ret); g = V(c); j = c.v(0)
    return [same_ptr(c, c.ret, c.this)] + it_in(c.run, c.ret, c.this) + [
        ('starts in the column', z3.Implies(x.valid, x.j == j)),
        ('at its first cell', FA(1, lambda q: z3.Implies(z3.And(q >= 0, q < g.n, g.col(q) == j), z3.And(x.valid, q >= x.p)), lambda q: [g.col(q)]))]


def colb_inv(L):
    g = S(L.run, L.this); r, j = L.v('row'), L.c.v(0)
    return [('range', z3.And(r >= 0, r <= g.R)),
            ('rows before lack the column', FA(1, lambda q: z3.Implies(z3.And(q >= 0, q < g.n, g.row(q) < r), g.col(q) != j), lambda q: [g.col(q)]))]


for pre_, cst in (('', ' const'), ('', ''), ('c', ' const')):
    add(f'{SMT}::row_{pre_}begin(u64){cst}', opts=rep(), pre=this_lwf, retinit=ptr_to(this_m), post=row_begin_post)
    add(f'{SMT}::column_{pre_}begin(u64){cst}', opts=rep(), pre=lambda c: this_wf(c) + [('column in range', c.v(0) < V(c).C)],
        retinit=ptr_to(this_m), post=col_begin_post,
        loops=[] if pre_ else [LoopSpec(colb_inv, var=lambda L: S(L.run, L.this).R - L.v('row'))])
    for rc in ('row', 'column'):
        add(f'{SMT}::{rc}_{pre_}end(u64){cst}', opts=rep(), pre=this_lwf, retinit=ptr_to(this_m), post=end_post)


# ---------------------------------------------------------------- writing through iterators
def lex(i, j, a, b): return z3.Or(i < a, z3.And(i == a, j < b))


def erase_core(c, it0, val=None):
    """state after removing the cell designated by it0 (old state iterator)"""
    g, g0 = V(c), V(c.old)
    x, y = It(c.run, c.ret), It(c.run, it0)
    mid, mid2 = erase_lemmas(c, y.i, y.j, y.p, y.valid) if c.mode == 'verify' else ([], [])
    out = [same_ptr(c, c.ret, c.this)] + same_dims(g, g0) + wf(c.run, c.this, mid, mid2)
    return out, g, g0, x, y


def erase_post(c):
    out, g, g0, x, y = erase_core(c, c.old.a[0])
    out += view_is(c.run, c.this, lambda i, j: z3.If(z3.And(y.valid, i == y.i, j == y.j), 0, g0.v(i, j)), name='exactly the designated entry is removed')
    out += it_in(c.run, c.ret, c.this)
    out += [('returns the position of the following cell', x.pos == z3.If(y.valid, y.p, g.n)), ('the returned position lies behind the removed one', z3.Implies(y.valid, lex(y.i, y.j, x.i, x.j))),
            ('one cell less', g.n == z3.If(y.valid, g0.n - 1, g0.n)),
            ('nothing stored between the removed and the returned cell', IMP(y.valid, FA(2, lambda i, j: z3.Implies(z3.And(g.v(i, j) != 0, lex(i, j, x.i, x.j)), lex(i, j, y.i, y.j)), lambda i, j: [g.v(i, j)])))]
    return out


def er_inv(L):
    g0 = S(L.run, L.c.old.this); g = S(L.run, L.this); y = It(L.run, L.c.old.a[0])
    s = L.v('s1'); nit = uncast(L.lv('nIt'))
    return [('range', z3.And(s >= y.i, s <= g0.R)), ('row so far', nit.get('.mIndex1') == z3.If(s <= y.i, y.i, s - 1)),
            ('rows passed', FA(1, lambda k: z3.Implies(z3.And(k >= y.i, k < s), g.rpt(k) <= y.p), lambda k: [g.rpt(k)]))]


add(f'{SMT}::erase(iterator&)', opts=rep(), setup=bind_it(0, 'this'), pre=lambda c: this_wf(c) + it_in(c.run, c.a[0], c.this), mod=lambda c: repmod(c.this),
    retinit=ptr_to(this_m), post=erase_post,
    loops=[shift_inv(-1, lambda L: It(L.run, L.c.a[0]).i), LoopSpec(er_inv, var=lambda L: S(L.run, L.this).R - L.v('s1'))])


def itset_post(c):
    g, g0 = V(c), V(c.old)
    x, y = It(c.run, c.ret), It(c.run, c.old.a[0]); v = c.ov(1)
    return [same_ptr(c, c.ret, c.this)] + same_dims(g, g0) + wf(c.run, c.this) + \
        view_is(c.run, c.this, lambda i, j: z3.If(z3.And(y.valid, i == y.i, j == y.j), v, g0.v(i, j)), name='exactly the designated entry is written') + \
        it_in(c.run, c.ret, c.this) + [('position kept, or the following cell after a removal', x.pos == z3.If(y.valid, y.p, g.n))]


add(f'{SMT}::set(iterator&,real&)', opts=rep(), setup=bind_it(0, 'this'), pre=lambda c: this_wf(c) + it_in(c.run, c.a[0], c.this), mod=lambda c: repmod(c.this),
    retinit=ptr_to(this_m), post=itset_post)
