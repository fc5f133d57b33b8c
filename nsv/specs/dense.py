"""Contracts of BaseMatrix / DenseMatrix / FixedMatrix and their iterators (real and complex)."""
import z3
from ..core import *
from ..interp import Cast, uncast
from ..contracts import Contract, LoopSpec
from ..sums import Sum, Seq, getsum
from . import vector as V
from .vector import zero, one, sum_of, opf, range_begin, EXI, lim, fin, OPS

DRV = 'dense'
USES = ['vector']
C = {}


def add(sig, **kw):
    C[sig] = Contract(sig, **kw)
    return C[sig]


class DM:
    """abstract view of a dense or fixed matrix"""
    def __init__(self, run, lv, like=None):
        self.run = run; self.lv = lv = uncast(lv)
        f = lambda b, n: Field(b, n, run.eng.fieldty(b.ty, n))
        self.vals = f(lv, 'mValues')
        self.s = Seq(run, f(self.vals, 'Container'))
        self.cpx = self.s.cpx
        dc = self.vals.ty
        a = dc.a
        k1, k2 = int(str(a[1])), int(str(a[2]))
        self.fixed = k1 > 0
        if self.fixed: self.R, self.C = z3.IntVal(k1), z3.IntVal(k2)
        else: self.R, self.C = self.vals.get('.RowCount'), self.vals.get('.ColumnCount')
        self.size = mkimul(self.R, self.C)
        self.empty = Cpx(lv.get('.mEmpty.re'), lv.get('.mEmpty.im')) if self.cpx else lv.get('.mEmpty')

    def ix(self, i, j):
        i, j = iv(i), iv(j)
        if isnum(self.C) or isnum(i): return mkadd(mkimul(i, self.C), j)
        return lin(*order(i, self.C), j)

    def at(self, i, j): return self.s.at(self.ix(i, j))
    def pats(self, i, j): return self.s.pats(self.ix(i, j))
    def inr(self, i, j): return mkand(mkcmp('>=', i, 0), mkcmp('<', i, self.R), mkcmp('>=', j, 0), mkcmp('<', j, self.C))

    def all(self, f, others=()):
        """every cell equals f(i,j)"""
        if self.fixed:
            return mkand(*[mkeq(self.at(i, j), f(z3.IntVal(i), z3.IntVal(j))) for i in range(num(self.R)) for j in range(num(self.C))])
        return FA(2, lambda i, j: z3.Implies(self.inr(i, j), mkeq(self.at(i, j), f(i, j))), lambda i, j: self.pats(i, j) + [p for o in others for p in o(i, j)])

    def wf(self):
        out = [('the spare cell is zero', mkeq(self.empty, zero(self.cpx)))]
        if not self.fixed:
            out += [('container size', mkand(self.s.n == self.size, self.R >= 0, self.C >= 0, (self.R == 0) == (self.C == 0)))]
        return out

    def dims(self, r, c): return [] if self.fixed else [('dimensions', mkand(mkeq(self.R, r), mkeq(self.C, c)))]


def cell_of(run, lv):
    m = DM(run, lv); k = run.fresh('cell', z3.IntSort())
    run.assume(z3.And(k >= 0, k < m.size, k < m.s.n))
    return Elem(m.s.lv, k, m.s.et)


def M(run, lv): return DM(run, lv)
def T(c): return DM(c.run, c.this)
def T0(c): return DM(c.run, c.old.this)
def A(c, i=0): return DM(c.run, c.a[i])
def A0(c, i=0): return DM(c.run, c.old.a[i])
def twf(c): return T(c).wf()


def cont(run, lv):
    m = DM(run, lv)
    return [(m.s.lv, [p for p in dict(run.eng.shape(m.s.lv.ty)) if p != '#len'])]


def modc(c): return cont(c.run, c.this)


def dimkeep(m, o): return [] if m.fixed else [('dimensions unchanged', mkand(m.R == o.R, m.C == o.C))]


def kloop(f, names='i'):
    """linear loop over all cells; f(L,k) is the new value of cell k"""
    def inv(L):
        m, o = DM(L.run, L.this), DM(L.run, L.c.old.this)
        i = L.v('i')
        return [('range', z3.And(i >= 0, i <= m.size)), ] + m.wf() + dimkeep(m, o) + [
            ('cells done so far', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < m.size), mkeq(m.s.at(k), mkite(k < i, f(L, k), o.s.at(k)))), lambda k: m.s.pats(k)))]
    def body(L):      # multiplication by a numeral: R == k -> R*C == k*C
        if not L.c.a or not isinstance(L.c.a[0], LV) or uncast(L.c.a[0]).ty.k != 'rec' or 'Matrix' not in uncast(L.c.a[0]).ty.n: return []
        m, a = DM(L.run, L.this), DM(L.run, L.c.a[0])
        return [z3.Implies(m.R == a.R, m.size == num(a.R) * m.C)] if a.fixed and not m.fixed else []
    return LoopSpec(inv, var=lambda L: DM(L.run, L.this).size - L.v('i'), body=body)


def rowcol_loops(tgt, cell):
    """nested loop filling tmp(i,j) = cell(L,i,j) row by row (variables i, j)"""
    def done(L, i, j): return lambda p, q: z3.Or(p < i, z3.And(p == i, q < j))
    def st(L, dn):
        m = DM(L.run, L.lv(tgt))
        return FA(2, lambda p, q: z3.Implies(m.inr(p, q), mkeq(m.at(p, q), mkite(dn(p, q), cell(L, p, q), zero(m.cpx)))), lambda p, q: m.pats(p, q))
    def base(L):
        m = DM(L.run, L.lv(tgt)); o = L.pre_t = DM(L.run, L.pre.lv(L.lv(tgt)))
        return m, m.wf() + [('dimensions', mkand(m.R == o.R, m.C == o.C))]
    def inv1(L):
        m, b = base(L); i = L.v('i')
        return [('range', z3.And(i >= 0, i <= m.R))] + b + [('rows done so far', st(L, lambda p, q: p < i))]
    def inv2(L):
        m, b = base(L); i, j = L.v('i'), L.v('j')
        return [('range', z3.And(i >= 0, i < m.R, j >= 0, j <= m.C))] + b + [('cells done so far', st(L, done(L, i, j)))]
    return [LoopSpec(inv1, var=lambda L: DM(L.run, L.lv(tgt)).R - L.v('i')), LoopSpec(inv2, var=lambda L: DM(L.run, L.lv(tgt)).C - L.v('j'))]


def conj(cpx, x): return Cpx(x.re, mkneg(x.im)) if cpx else x


def mulsum(run, a, b):
    """SUM(i,k,t) of a(i,.)*b(.,k)"""
    ids = a.s.ids() + b.s.ids() + [a.C, b.C]
    return getsum(run, 'matmul', ids, lambda: Sum(run, 'MUL', lambda i, k, t: mkrmul(a.at(i, t), b.at(t, k)), 2, a.cpx))


def mvsum(run, a, v):
    return getsum(run, 'matvec', a.s.ids() + v.ids() + [a.C], lambda: Sum(run, 'MV', lambda i, t: mkrmul(a.at(i, t), v.at(t)), 1, a.cpx))


def vmsum(run, a, v):
    return getsum(run, 'vecmat', a.s.ids() + v.ids() + [a.C], lambda: Sum(run, 'VM', lambda j, t: mkrmul(a.at(t, j), v.at(t)), 1, a.cpx))


def trsum(run, a):
    return getsum(run, 'trace', a.s.ids() + [a.C], lambda: Sum(run, 'TR', lambda t: a.at(t, t), 0, a.cpx))


def size_ne(a, b):
    return mkor(mknot(mkeq(a.R, b.R)), mknot(mkeq(a.C, b.C)))


def const_sum(terms, cpx):
    s = zero(cpx)
    for t in terms: s = mkadd(s, t)
    return s


MSM = 'MatrixSizeMismatchException'


# ------------------------------------------------------------------ iterators
def itv(run, lv):
    lv = uncast(lv)
    return lv.get('.mIndex1'), lv.get('.mIndex2')


def it_matrix(run, lv):
    p = uncast(lv).get('.mMatrix')
    return uncast(p.lv)


def bind(c, who=None):
    """the iterator under verification points at an arbitrary matrix of its type"""
    lvs = [c.this] + list(c.a)
    m = None
    for x in lvs:
        if isinstance(x, LV) and x.ty is not None and x.ty.k == 'rec' and x.ty.n in ('MatrixIterator', 'MatrixRowIterator', 'MatrixColumnIterator'):
            if m is None:
                m = next((y for y in lvs if isinstance(y, LV) and y.ty.k == 'rec' and y.ty.n in ('BaseMatrix',)), None)
                if m is None:
                    t = c.run.eng.fieldty(x.ty, 'mMatrix')
                    m = c.run.new_root('matrix', t.a); m.serial = 0
                    for p, s in c.run.eng.shape(m.ty):
                        if not isinstance(s, str): m.get(p)
            uncast(x).set('.mMatrix', PtrVal(m, None))
    c.matrix = m


def it_ok(run, lv):
    m = DM(run, it_matrix(run, lv)); i, j = itv(run, lv)
    return m.wf() + [('iterator position', z3.Or(z3.And(i >= 0, j >= 0, i < m.R, j < m.C), z3.And(i == m.R, j == m.C)))]


def pos_is(c, lv, i, j, nm='position'):
    a, b = itv(c.run, lv)
    return [(nm, mkand(mkeq(a, i), mkeq(b, j)))]


def samem(c, lv, m):
    p = uncast(lv).get('.mMatrix')
    return [('same matrix', z3.BoolVal(isinstance(p, PtrVal) and lv_same_(p.lv, m)))]


def lv_same_(a, b):
    from ..contracts import lv_eq
    r = lv_eq(None, a, b)
    return r is True


def instances(TN, DCN, cpx, fixed, MT):
    E_ = 'complex<double>' if cpx else 'real'
    BT = f'BaseMatrix<{TN},{DCN}>'
    IT, RT, CT = (f'{x}<{TN},{DCN}>' for x in ('MatrixIterator', 'MatrixRowIterator', 'MatrixColumnIterator'))
    # ---- storage
    add(f'{BT}::(ctor)()', post=lambda c: T(c).wf() + T(c).dims(0, 0) + ([('all cells zero', T(c).all(lambda i, j: zero(cpx)))] if fixed else []))
    add(f'{BT}::rows() const', inl=True, pre=twf, post=lambda c: [('row count', mkeq(c.ret, T(c).R))])
    add(f'{BT}::columns() const', inl=True, pre=twf, post=lambda c: [('column count', mkeq(c.ret, T(c).C))])
    add(f'{BT}::size() const', inl=True, pre=twf, post=lambda c: [('number of cells', mkeq(c.ret, T(c).size))])
    inr = lambda c: twf(c) + [('position in range', T(c).inr(c.v(0), c.v(1)))]
    lr = lambda c: twf(c) + [('index in range', mkand(c.v(0) >= 0, c.v(0) < T(c).size))]
    add(f'{BT}::at(u64,u64) const', inl=True, pre=inr, post=lambda c: [('cell value', mkeq(c.ret, T(c).at(c.v(0), c.v(1))))])
    add(f'{BT}::linear_at(u64) const', inl=True, pre=lr, post=lambda c: [('cell value', mkeq(c.ret, T(c).s.at(c.v(0))))])
    def only(pi, val):
        def post(c):
            m, o = T(c), T0(c)
            k0 = pi(c)
            return m.wf() + dimkeep(m, o) + [('only that cell changes', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < m.size), mkeq(m.s.at(k), mkite(k == k0, val(c), o.s.at(k)))), lambda k: m.s.pats(k)))]
        return post
    add(f'{BT}::linear_set(u64,{E_}&)', inl=True, pre=lr, mod=modc, post=only(lambda c: c.v(0), lambda c: c.ov(1)))
    def setpost(c):
        m, o = T(c), T0(c)
        return only(lambda c: m.ix(c.v(0), c.v(1)), lambda c: c.ov(2))(c) + [
            ('only position (i,j) changes', m.all(lambda p, q: mkite(mkand(mkeq(p, c.v(0)), mkeq(q, c.v(1))), c.ov(2), o.at(p, q))))]
    add(f'{BT}::set(u64,u64,{E_}&)', inl=True, pre=inr, mod=modc, post=setpost)
    add(f'{BT}::has(u64,u64) const', pre=inr, post=lambda c: [('value is not zero', c.ret == mknot(mkeq(T(c).at(c.v(0), c.v(1)), zero(cpx))))])
    add(f'{BT}::has(u64,u64,{E_}&) const', pre=inr, mod=lambda c: [c.a[2]], post=lambda c: [('value is not zero', c.ret == mknot(mkeq(T(c).at(c.v(0), c.v(1)), zero(cpx)))), ('value returned', mkeq(c.v(2), T(c).at(c.v(0), c.v(1))))])
    # ---- iterators
    for X in (IT, RT, CT):
        add(f'{X}::(ctor)({BT}&,u64,u64)', inl=True, pre=lambda c: A(c).wf(), post=lambda c: pos_is(c, c.this, c.v(1), c.v(2)) + samem(c, c.this, c.a[0]))
    iok = lambda c: it_ok(c.run, c.this)
    add(f'{IT}::isValid() const', inl=True, setup=bind, pre=iok, post=lambda c: (lambda m, ij: [('inside the matrix', c.ret == m.inr(*ij))])(DM(c.run, it_matrix(c.run, c.this)), itv(c.run, c.this)))
    add(f'{IT}::row() const', inl=True, setup=bind, post=lambda c: [('row', c.ret == itv(c.run, c.this)[0])])
    add(f'{IT}::column() const', inl=True, setup=bind, post=lambda c: [('column', c.ret == itv(c.run, c.this)[1])])
    def iteq(neg):
        def post(c):
            i, j = itv(c.run, c.this); p, q = itv(c.run, c.a[0])
            r = c.ret if not neg else z3.Not(c.ret)
            return [('equal iff same position', r == mkand(i == p, j == q))]
        return post
    both = lambda c: it_ok(c.run, c.this) + it_ok(c.run, c.a[0])
    add(f'{IT}::operator==({IT}&) const', inl=True, setup=bind, alias=[{}, {0: 'this'}], pre=both, post=iteq(False))
    add(f'{IT}::operator!=({IT}&) const', inl=True, setup=bind, alias=[{}, {0: 'this'}], pre=both, post=iteq(True))
    def itmod(c): return [(uncast(c.this), ['.mIndex1', '.mIndex2'])]
    def nxt(kind):
        def f(c):
            m = DM(c.run, it_matrix(c.run, c.old.this)); i, j = itv(c.run, c.old.this)
            v = m.inr(i, j)
            if kind == 'all':
                wr = j + 1 < m.C; last = i + 1 < m.R
                return (mkite(mknot(v), i, mkite(wr, i, mkite(last, i + 1, m.R))), mkite(mknot(v), j, mkite(wr, j + 1, mkite(last, z3.IntVal(0), m.C))))
            if kind == 'row':
                wr = j + 1 < m.C
                return (mkite(mknot(v), i, mkite(wr, i, m.R)), mkite(mknot(v), j, mkite(wr, j + 1, m.C)))
            wr = i + 1 < m.R
            return (mkite(mknot(v), i, mkite(wr, i + 1, m.R)), mkite(mknot(v), j, mkite(wr, j, m.C)))
        return f
    for X, kind in ((IT, 'all'), (RT, 'row'), (CT, 'col')):
        def pre_post(c, kind=kind):
            n = nxt(kind)(c)
            return pos_is(c, c.this, *n, nm='moves to the next cell of its range or the end') + it_ok(c.run, c.this)
        def post_post(c, kind=kind):
            n = nxt(kind)(c)
            return pos_is(c, c.this, *n, nm='moves to the next cell of its range or the end') + pos_is(c, c.ret, *itv(c.run, c.old.this), nm='returns the old position') + samem(c, c.ret, it_matrix(c.run, c.this))
        add(f'{X}::operator++()', inl=True, setup=bind, pre=iok, mod=itmod, ret=lambda c: c.this, post=pre_post)
        add(f'{X}::operator++(i32)', inl=True, setup=bind, pre=iok, mod=itmod, post=post_post)
    def dref(c):
        m = DM(c.run, it_matrix(c.run, c.this)); i, j = itv(c.run, c.this)
        el = Elem(m.s.lv, m.ix(i, j), m.s.et)
        if c.mode == 'verify' and isinstance(uncast(c.ret), Elem): return el
        return CondLV(m.inr(i, j), el, Field(m.lv, 'mEmpty', m.s.et))
    add(f'{IT}::operator*()', inl=True, setup=bind, pre=iok, ret=dref, post=lambda c: (lambda m, ij: [('the cell at its position', IMP(m.inr(*ij), mkeq(c.run.load(c.ret), m.at(*ij))))])(DM(c.run, it_matrix(c.run, c.this)), itv(c.run, c.this)))
    ends = lambda c: pos_is(c, c.ret, T(c).R, T(c).C)
    for q in (' const', ''):
        add(f'{BT}::begin(){q}', inl=True, pre=twf, post=lambda c: pos_is(c, c.ret, 0, 0) + samem(c, c.ret, c.this) + it_ok(c.run, c.ret))
        add(f'{BT}::end(){q}', inl=True, pre=twf, post=lambda c: ends(c) + samem(c, c.ret, c.this) + it_ok(c.run, c.ret))
    add(f'{BT}::cbegin() const', inl=True, pre=twf, post=lambda c: pos_is(c, c.ret, 0, 0) + samem(c, c.ret, c.this))
    add(f'{BT}::cend() const', inl=True, pre=twf, post=lambda c: ends(c) + samem(c, c.ret, c.this))
    rpre = lambda c: twf(c) + [('row in range', mkand(c.v(0) >= 0, c.v(0) < T(c).R))]
    cpre = lambda c: twf(c) + [('column in range', mkand(c.v(0) >= 0, c.v(0) < T(c).C))]
    for nm in ('row_begin(u64) const', 'row_begin(u64)', 'row_cbegin(u64) const'):
        add(f'{BT}::{nm}', inl=True, pre=rpre, post=lambda c: pos_is(c, c.ret, c.v(0), 0) + samem(c, c.ret, c.this) + it_ok(c.run, c.ret))
    for nm in ('column_begin(u64) const', 'column_begin(u64)', 'column_cbegin(u64) const'):
        add(f'{BT}::{nm}', inl=True, pre=cpre, post=lambda c: pos_is(c, c.ret, 0, c.v(0)) + samem(c, c.ret, c.this) + it_ok(c.run, c.ret))
    for nm in ('row_end(u64) const', 'row_end(u64)', 'row_cend(u64) const', 'column_end(u64) const', 'column_end(u64)', 'column_cend(u64) const'):
        add(f'{BT}::{nm}', inl=True, pre=twf, post=lambda c: ends(c) + samem(c, c.ret, c.this) + it_ok(c.run, c.ret))
    def bind2(c):
        x = uncast(c.a[0]); x.set('.mMatrix', PtrVal(c.this, None))
    def itset(val):
        def post(c):
            m, o = T(c), T0(c); i, j = itv(c.run, c.a[0])
            k0 = m.ix(i, j); inr_ = m.inr(i, j)
            return m.wf() + dimkeep(m, o) + [('only that cell changes', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < m.size), mkeq(m.s.at(k), mkite(mkand(inr_, k == k0), val(c), o.s.at(k)))), lambda k: m.s.pats(k)))] + \
                pos_is(c, c.ret, i, j, nm='returns the same position') + samem(c, c.ret, c.this)
        return post
    add(f'{BT}::set(iterator&,{E_}&)', setup=bind2, pre=lambda c: twf(c) + it_ok(c.run, c.a[0]), mod=modc, post=itset(lambda c: c.ov(1)))
    add(f'{BT}::erase(iterator&)', setup=bind2, pre=lambda c: twf(c) + it_ok(c.run, c.a[0]), mod=modc, post=itset(lambda c: zero(cpx)))
    # ---- reductions
    def ridx(L): return L.run.load(L.lv(range_begin(L))).idx
    def rloop(extra, **kw):
        def inv(L):
            m = DM(L.run, L.this); i = ridx(L)
            return [('range', z3.And(i >= 0, i <= m.size))] + extra(L, m, i)
        return LoopSpec(inv, var=lambda L: DM(L.run, L.this).size - ridx(L), **kw)
    add(f'{BT}::sum() const', pre=twf, post=lambda c: [('sum of all cells', mkeq(c.ret, sum_of(c.run, T(c).s).at(T(c).size)))],
        loops=[rloop(lambda L, m, i: [('partial sum', mkeq(L.v('s'), sum_of(L.run, m.s).at(i)))], body=lambda L: sum_of(L.run, DM(L.run, L.this).s).unfold(ridx(L)))])
    if not cpx:
        add(f'{BT}::avg() const', pre=lambda c: twf(c) + [('not empty', T(c).size > 0)], post=lambda c: [('sum over count', mkeq(c.ret, c.run.fdiv(sum_of(c.run, T(c).s).at(T(c).size), toreal(T(c).size))))])
        for nm, op in (('max', lambda a, b: a >= b), ('min', lambda a, b: a <= b)):
            def ext(L, m, i, op=op):
                s = L.v('s')
                return [('bound of the cells seen', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < i), op(s, m.s.at(k))), lambda k: m.s.pats(k))),
                        ('attained', EX(1, lambda w: z3.If(i == 0, s == lim(op), z3.And(w >= 0, w < i, s == m.s.at(w))), [(i - 1,), (z3.IntVal(0),)]))]
            def post(c, op=op):
                m = T(c)
                return [('bounds every cell', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < m.size), op(c.ret, m.s.at(k))), lambda k: m.s.pats(k))),
                        ('is one of the cells', EX(1, lambda w: z3.And(w >= 0, w < m.size, c.ret == m.s.at(w)), []))]
            def finm(c):
                m = T(c)
                from ..stdlib import frac, NUMLIM
                x = frac(NUMLIM['max'])
                return FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < m.size), z3.And(m.s.at(k) <= x, m.s.at(k) >= -x)), lambda k: m.s.pats(k))
            add(f'{BT}::{nm}() const', pre=lambda c: twf(c) + [('not empty', T(c).size > 0), ('cells in the range of double', finm(c))], post=post, loops=[rloop(ext)])
    tests = [('has_zero', lambda x: mkeq(x, zero(cpx)), False), ('empty', lambda x: mknot(mkeq(x, zero(cpx))), True)]
    if not cpx: tests += [('has_nan', isnan, False), ('has_inf', isinf, False)]
    for nm, t, neg in tests:
        def ext(L, m, i, t=t):
            return [('none so far', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < i), z3.Not(t(m.s.at(k)))), lambda k: m.s.pats(k)))]
        def post(c, t=t, neg=neg):
            m = T(c); r = z3.Not(c.ret) if neg else c.ret
            w = []
            if c.mode == 'verify':
                for nme, lv in c.frame.names.items():
                    if nme.startswith('__begin'): w = [(c.run.load(lv).idx,)]
            return [('false means no such cell', IMP(z3.Not(r), FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < m.size), z3.Not(t(m.s.at(k)))), lambda k: m.s.pats(k)))),
                    ('true means some such cell', IMP(r, EX(1, lambda w: z3.And(w >= 0, w < m.size, t(m.s.at(w))), w)))]
        add(f'{BT}::{nm}() const', pre=twf, post=post, loops=[rloop(ext)])
    def trn(m): return mkite(m.C < m.R, m.C, m.R) if not fixed else z3.IntVal(min(num(m.R), num(m.C)))
    if fixed:
        add(f'{BT}::trace() const', pre=twf, post=lambda c: (lambda m: [('sum of the diagonal', mkeq(c.ret, const_sum([m.at(t, t) for t in range(num(trn(m)))], cpx)))])(T(c)))
    else:
        add(f'{BT}::trace() const', pre=twf, post=lambda c: [('sum of the diagonal', mkeq(c.ret, trsum(c.run, T(c)).at(trn(T(c)))))],
            loops=[LoopSpec(lambda L: (lambda m, i: [('range', z3.And(i >= 0, i <= trn(m))), ('partial sum', mkeq(L.v('v'), trsum(L.run, m).at(i)))])(DM(L.run, L.this), L.v('i')),
                            body=lambda L: trsum(L.run, DM(L.run, L.this)).unfold(L.v('i')), var=lambda L: trn(DM(L.run, L.this)) - L.v('i'))])
    # ---- comparison
    thr = [(MSM, lambda c: size_ne(A(c, 0), A(c, 1)))] if not fixed else []
    def eqp(neg):
        def post(c):
            a, b = A(c, 0), A(c, 1); r = z3.Not(c.ret) if neg else c.ret
            i = c.local('i') if c.mode == 'verify' and not neg else None
            return [('true means equal', IMP(r, FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < a.size), mkeq(a.s.at(k), b.s.at(k))), lambda k: a.s.pats(k) + b.s.pats(k)))),
                    ('false means some cell differs', IMP(z3.Not(r), EX(1, lambda w: z3.And(w >= 0, w < a.size, z3.Not(mkeq(a.s.at(w), b.s.at(w)))), [(i,)] if i is not None else [])))]
        return post
    def eqinv(L):
        a, b = A(L.c, 0), A(L.c, 1); i = L.v('i')
        return [('range', z3.And(i >= 0, i <= a.size)), ('equal so far', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < i), mkeq(a.s.at(k), b.s.at(k))), lambda k: a.s.pats(k) + b.s.pats(k)))]
    wf2 = lambda c: A(c, 0).wf() + A(c, 1).wf()
    add(f'operator==({BT}&,{BT}&)', alias=[{}, {1: 0}], throws=thr, pre=wf2, post=eqp(False), loops=[LoopSpec(eqinv, var=lambda L: A(L.c, 0).size - L.v('i'))])
    add(f'operator!=({BT}&,{BT}&)', alias=[{}, {1: 0}], throws=thr, pre=wf2, post=eqp(True))
    # ---- arithmetic of the derived class
    def kpost(f, more=()):
        def post(c):
            m, o = T(c), T0(c)
            return m.wf() + dimkeep(m, o) + [('cell by cell', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < m.size), mkeq(m.s.at(k), f(c, k))), lambda k: m.s.pats(k)))]
        return post
    rhs = [MT] if fixed else [BT] + (['BaseMatrix<double,DataContainer2D<array<double,6>,2,3>>'] if not cpx else [])
    for op in '+-*':
        for Rt in rhs:
            f = lambda c, k, op=op: OPS[op](T0(c).s.at(k), A0(c).s.at(k))
            add(f'{MT}::operator{op}=({Rt}&)', alias=[{}, {0: 'this'}] if Rt in (MT, BT) else None, pre=lambda c: twf(c) + A(c).wf(), throws=[(MSM, lambda c: size_ne(T(c), A(c)))] if not fixed else [],
                mod=modc, ret=lambda c: c.this, post=kpost(f), loops=[kloop(lambda L, k, f=f: f(L.c, k))])
    f = lambda c, k: mkrmul(T0(c).s.at(k), c.ov(0))
    add(f'{MT}::operator*=({E_}&)', alias=[{}, {0: 'elem'}], elem=cell_of, pre=twf, mod=modc, ret=lambda c: c.this, post=kpost(f), loops=[kloop(lambda L, k, f=f: f(L.c, k))])
    def R_(c): return DM(c.run, c.ret)
    def kbin(f, i=0):
        def post(c):
            r = R_(c); a = A(c, i)
            return r.wf() + r.dims(a.R, a.C) + [('cell by cell', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < r.size), mkeq(r.s.at(k), f(c, k))), lambda k: r.s.pats(k)))]
        return post
    for op in '+-*':
        add(f'operator{op}({MT}&,{MT}&)', alias=[{}, {1: 0}], pre=wf2, throws=thr, post=kbin(lambda c, k, op=op: OPS[op](A(c, 0).s.at(k), A(c, 1).s.at(k))))
    add(f'operator*({MT}&,{E_})', pre=lambda c: A(c, 0).wf(), post=kbin(lambda c, k: mkrmul(A(c, 0).s.at(k), c.ov(1))))
    add(f'operator*({E_},{MT}&)', pre=lambda c: A(c, 1).wf(), post=kbin(lambda c, k: mkrmul(A(c, 1).s.at(k), c.ov(0)), 1))
    add(f'operator-({MT}&)', pre=lambda c: A(c, 0).wf(), post=kbin(lambda c, k: mkneg(A(c, 0).s.at(k))))
    def swpost(c):
        a, b, a0, b0 = T(c), A(c), T0(c), A0(c)
        return a.wf() + b.wf() + a.dims(b0.R, b0.C) + b.dims(a0.R, a0.C) + [('contents exchanged', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < x.size), mkeq(x.s.at(k), y.s.at(k))), lambda k: x.s.pats(k))) for x, y in ((a, b0), (b, a0))]
    add(f'{MT}::swap({MT}&)', alias=[{}, {0: 'this'}], pre=lambda c: twf(c) + A(c).wf(), mod=lambda c: [T(c).vals, A(c).vals], post=swpost)
    ne = lambda c: twf(c) + ([] if fixed else [('not empty', T(c).R > 0)])
    def cellpost(r_, c_, f):
        def post(c):
            r = R_(c); m = T(c)
            return r.wf() + r.dims(r_(m), c_(m)) + [('every cell', r.all(lambda i, j: f(m, i, j)))]
        return post
    tr = lambda m, i, j: m.at(j, i)
    cj = lambda m, i, j: conj(cpx, m.at(i, j))
    aj = lambda m, i, j: conj(cpx, m.at(j, i))
    for nm, f, sw in (('transpose', tr, True), ('conjugate', cj, False), ('adjugate', aj, True)):
        add(f'{MT}::{nm}() const', pre=ne, post=cellpost((lambda m: m.C) if sw else (lambda m: m.R), (lambda m: m.R) if sw else (lambda m: m.C), f),
            loops=[] if fixed else rowcol_loops('tmp', lambda L, p, q, f=f: f(DM(L.run, L.this), p, q)))
    if not fixed:
        add(f'{MT}::(ctor)()', post=lambda c: T(c).wf() + T(c).dims(0, 0))
        add(f'{MT}::(ctor)(u64,u64)', pre=lambda c: [('positive dimensions', mkand(c.v(0) > 0, c.v(1) > 0))], post=lambda c: T(c).wf() + T(c).dims(c.v(0), c.v(1)) + [
            ('all cells zero', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < T(c).size), mkeq(T(c).s.at(k), zero(cpx))), lambda k: T(c).s.pats(k)))])
        # products
        def mulpost(c):
            a, b, r = T(c), A(c), R_(c); S_ = mulsum(c.run, a, b)
            return r.wf() + r.dims(a.R, b.C) + [('row times column', r.all(lambda i, k: S_.at(i, k, a.C), [lambda i, k: [f(i, k, a.C) for f in S_.fs]]))]
        def mst(L, dn):
            m = DM(L.run, L.lv('tmp')); a = DM(L.run, L.this); S_ = mulsum(L.run, a, A(L.c))
            o = DM(L.run, L.pre.lv(L.lv('tmp')))
            return m.wf() + [('dimensions', mkand(m.R == a.R, m.C == A(L.c).C)), ('cells done so far', FA(2, lambda p, q: z3.Implies(z3.And(m.inr(p, q), dn(p, q)), mkeq(m.at(p, q), S_.at(p, q, a.C))), lambda p, q: m.pats(p, q)))]
        def mi1(L):
            i = L.v('i')
            return [('range', z3.And(i >= 0, i <= T(L.c).R))] + mst(L, lambda p, q: p < i)
        def mi2(L):
            i, k = L.v('i'), L.v('k')
            return [('range', z3.And(i >= 0, i < T(L.c).R, k >= 0, k <= A(L.c).C))] + mst(L, lambda p, q: z3.Or(p < i, z3.And(p == i, q < k)))
        def mi3(L):
            i, k, j = L.v('i'), L.v('k'), L.v('j')
            return [('range', z3.And(i >= 0, i < T(L.c).R, k >= 0, k < A(L.c).C, j >= 0, j <= T(L.c).C)), ('partial sum', mkeq(L.v('v'), mulsum(L.run, T(L.c), A(L.c)).at(i, k, j)))]
        mm = [('MatrixMulMismatchException', lambda c: T(c).C != A(c).R)]
        add(f'{MT}::mul({MT}&) const', alias=[{}, {0: 'this'}], pre=lambda c: ne(c) + A(c).wf(), throws=mm, post=mulpost, loops=[
            LoopSpec(mi1, var=lambda L: T(L.c).R - L.v('i')), LoopSpec(mi2, var=lambda L: A(L.c).C - L.v('k')),
            LoopSpec(mi3, var=lambda L: T(L.c).C - L.v('j'), body=lambda L: mulsum(L.run, T(L.c), A(L.c)).unfold(L.v('i'), L.v('k'), L.v('j')))])
        for VN in [f'vector<{TN}>'] + (['array<double,3>'] if not cpx else []):
            for nm, sm, outer, inner, ov, inn in (('mul', mvsum, 'R', 'C', 'i', 'j'), ('mul_left', vmsum, 'C', 'R', 'j', 'i')):
                if VN.startswith('array') and nm == 'mul_left': continue
                def vec(c): return V.D(c.run, c.a[0])
                def vpost(c, sm=sm, outer=outer, inner=inner):
                    a = T(c); r = V.D(c.run, c.ret)
                    return [('length', r.n == getattr(a, outer)), ('row times vector' if outer == 'R' else 'vector times column', r.all(lambda i: sm(c.run, a, vec(c)).at(i, getattr(a, inner))))]
                def v1(L, sm=sm, outer=outer, inner=inner, ov=ov):
                    a = T(L.c); r = V.D(L.run, L.lv('r')); i = L.v(ov)
                    return [('range', z3.And(i >= 0, i <= getattr(a, outer))), ('length', r.n == getattr(a, outer)),
                            ('entries done so far', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < i), mkeq(r.at(p), sm(L.run, a, vec(L.c)).at(p, getattr(a, inner)))), lambda p: r.pats(p)))]
                def v2(L, sm=sm, outer=outer, inner=inner, ov=ov, inn=inn):
                    a = T(L.c); i, j = L.v(ov), L.v(inn)
                    return [('range', z3.And(i >= 0, i < getattr(a, outer), j >= 0, j <= getattr(a, inner))), ('partial sum', mkeq(L.v('t'), sm(L.run, a, vec(L.c)).at(i, j)))]
                add(f'{MT}::{nm}(Vector<{TN},{VN}>&) const', pre=twf, throws=[('MatrixMulMismatchException', lambda c, inner=inner: getattr(T(c), inner) != V.D(c.run, c.a[0]).n)],
                    post=vpost, loops=[LoopSpec(v1, var=lambda L, outer=outer, ov=ov: getattr(T(L.c), outer) - L.v(ov)),
                                       LoopSpec(v2, var=lambda L, inner=inner, inn=inn: getattr(T(L.c), inner) - L.v(inn), body=lambda L, sm=sm, ov=ov, inn=inn: sm(L.run, T(L.c), vec(L.c)).unfold(L.v(ov), L.v(inn)))])
    else:
        add(f'{MT}::(ctor)()', post=lambda c: T(c).wf() + [('all cells zero', T(c).all(lambda i, j: zero(cpx)))])


instances('double', 'DataContainer2D<vector<double>,0,0>', False, False, 'DenseMatrix<double>')
instances('complex<double>', 'DataContainer2D<vector<complex<double>>,0,0>', True, False, 'DenseMatrix<complex<double>>')
instances('double', 'DataContainer2D<array<double,6>,2,3>', False, True, 'FixedMatrix<double,2,3>')
instances('complex<double>', 'DataContainer2D<array<complex<double>,4>,2,2>', True, True, 'FixedMatrix<complex<double>,2,2>')


def fx(sig, post):
    add(sig, pre=lambda c: T(c).wf(), post=post)


def _fmul(c):
    a, b, r = T(c), A(c), DM(c.run, c.ret)
    return r.wf() + [('row times column', r.all(lambda i, k: const_sum([mkrmul(a.at(i, t), b.at(t, k)) for t in range(num(a.C))], a.cpx)))]


def _fmv(left):
    def post(c):
        a = T(c); v = V.D(c.run, c.a[0]); r = V.D(c.run, c.ret)
        if left: return [(f'entry {j}', mkeq(r.at(j), const_sum([mkrmul(a.at(t, j), v.at(t)) for t in range(num(a.R))], a.cpx))) for j in range(num(a.C))]
        return [(f'entry {i}', mkeq(r.at(i), const_sum([mkrmul(a.at(i, t), v.at(t)) for t in range(num(a.C))], a.cpx))) for i in range(num(a.R))]
    return post


fx('FixedMatrix<double,2,3>::mul(FixedMatrix<double,3,2>&) const', _fmul)
fx('FixedMatrix<complex<double>,2,2>::mul(FixedMatrix<complex<double>,2,2>&) const', _fmul)
fx('FixedMatrix<double,2,3>::mul(Vector<double,array<double,3>>&) const', _fmv(False))
fx('FixedMatrix<double,2,3>::mul_left(Vector<double,array<double,2>>&) const', _fmv(True))
