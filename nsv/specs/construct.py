"""Contracts of the matrix constructors, structural predicates and storage conversions (dense real/complex, sparse real)."""
import z3
from ..core import *
from ..interp import Cast, uncast
from ..contracts import Contract, LoopSpec
from ..sums import Sum, Seq, getsum
from . import vector as V
from . import sparse as SP
from .vector import zero, one
from .dense import DM, conj
from .sparse import S, wf as swf

DRV = 'construct'
USES = ['vector', 'dense', 'sparse', 'sparse2']
C = {}


def add(sig, **kw):
    C[sig] = Contract(sig, **kw)
    return C[sig]


class W:
    """common view of a dense or sparse matrix"""
    def __init__(self, run, lv):
        self.run = run; self.lv = uncast(lv)
        self.sparse = self.lv.ty.n == 'SparseMatrix'
        self.g = S(run, lv) if self.sparse else DM(run, lv)
        self.R, self.C = self.g.R, self.g.C
        self.cpx = False if self.sparse else self.g.cpx

    def at(self, i, j): return self.g.v(i, j) if self.sparse else self.g.at(i, j)
    def inr(self, i, j): return self.g.inr(i, j)
    def pats(self, i, j): return [self.g.v(i, j)] if self.sparse else self.g.pats(i, j)
    def wf(self): return swf(self.run, self.lv) if self.sparse else self.g.wf()
    def ids(self): return [self.g.V] if self.sparse else self.g.s.ids() + [self.g.C]
    def dims(self, r, c): return [('dimensions', mkand(mkeq(self.R, r), mkeq(self.C, c)))]
    def all(self, f): return FA(2, lambda i, j: z3.Implies(self.inr(i, j), mkeq(self.at(i, j), f(i, j))), lambda i, j: self.pats(i, j))


def A(c, i=0): return W(c.run, c.a[i])
def R_(c): return W(c.run, c.ret)
def mn(a, b): return mkite(b < a, b, a)
def ne(c): return A(c).wf() + [('not empty', z3.And(A(c).R > 0, A(c).C > 0))]


def stloop(tgt, cell, var, rng):
    """loop with invariant: tgt(p,q) = cell(L,p,q)"""
    def inv(L):
        m = W(L.run, L.lv(tgt)); o = W(L.run, L.pre.lv(L.lv(tgt)))
        return [('range', rng(L))] + m.wf() + [('dimensions', mkand(m.R == o.R, m.C == o.C)), ('cells done so far', m.all(lambda p, q: cell(L, p, q)))]
    return LoopSpec(inv, var=var)


def ct(cpx, x): return Cpx(x, z3.RealVal(0)) if cpx else x


BIG = z3.IntVal(2 ** 62)
for M, T, cpx in (('DenseMatrix<double>', 'double', False), ('SparseMatrix<double>', 'double', False), ('DenseMatrix<complex<double>>', 'complex<double>', True)):
    Z, O = zero(cpx), one(cpx)
    VT = f'Vector<{T},vector<{T}>>'
    pos2 = lambda c: [('positive dimensions', z3.And(c.v(0) > 0, c.v(1) > 0))]
    add(f'eye(u64,u64)->{M}', pre=pos2, post=lambda c, Z=Z, O=O: R_(c).wf() + R_(c).dims(c.v(0), c.v(1)) + [('ones on the diagonal, zeros elsewhere', R_(c).all(lambda i, j: mkite(i == j, O, Z)))],
        loops=[stloop('m', lambda L, p, q, Z=Z, O=O: mkite(z3.And(p == q, p < L.v('i')), O, Z), lambda L: mn(L.c.v(0), L.c.v(1)) - L.v('i'), lambda L: z3.And(L.v('i') >= 0, L.v('i') <= mn(L.c.v(0), L.c.v(1))))])
    vec = lambda c: V.D(c.run, c.a[0])
    add(f'diag({VT}&)->{M}', pre=lambda c: [('not empty', vec(c).n > 0)],
        post=lambda c, Z=Z: R_(c).wf() + R_(c).dims(vec(c).n, vec(c).n) + [('vector on the diagonal, zeros elsewhere', R_(c).all(lambda i, j: mkite(i == j, vec(c).at(i), Z)))],
        loops=[stloop('m', lambda L, p, q, Z=Z: mkite(z3.And(p == q, p < L.v('i')), vec(L.c).at(p), Z), lambda L: vec(L.c).n - L.v('i'), lambda L: z3.And(L.v('i') >= 0, L.v('i') <= vec(L.c).n))])
    dn = lambda c: mn(A(c).R, A(c).C)
    def dpost(c):
        r = V.D(c.run, c.ret)
        return [('length', r.n == dn(c)), ('diagonal entries', r.all(lambda i: A(c).at(i, i)))]
    def dinv(L, Z=Z):
        r = V.D(L.run, L.lv('v')); i = L.v('i')
        return [('range', z3.And(i >= 0, i <= dn(L.c))), ('length', r.n == dn(L.c)), ('entries so far', r.all(lambda k: mkite(k < i, A(L.c).at(k, k), Z)))]
    add(f'diag({M}&)->{VT}', pre=lambda c: A(c).wf(), post=dpost, loops=[LoopSpec(dinv, var=lambda L: dn(L.c) - L.v('i'))])
    # ---- triangular parts
    def kpre(c):
        g = A(c)
        return ne(c) + [('dimensions below 2^62, offset in the range of int', z3.And(g.R < BIG, g.C < BIG, c.v(1) >= -2 ** 31, c.v(1) < 2 ** 31))]
    for nm, keep in (('tril', lambda c, p, q: q <= p + c.v(1)), ('triu', lambda c, p, q: q >= p + c.v(1))):
        def post(c, keep=keep, Z=Z):
            return R_(c).wf() + R_(c).dims(A(c).R, A(c).C) + [('the part on one side of the k-th diagonal', R_(c).all(lambda i, j: mkite(keep(c, i, j), A(c).at(i, j), Z)))]
        def loops(keep=keep, Z=Z, nm=nm):
            out = []
            for rowmajor in (True, False):
                o, i_ = ('i', 'j') if rowmajor else ('j', 'i')
                on, inn = (('R', 'C') if rowmajor else ('C', 'R'))
                def cell(L, done, keep=keep):
                    return lambda p, q: mkite(z3.And(done(p, q), keep(L.c, p, q)), A(L.c).at(p, q), Z)
                def c1(L, p, q, rowmajor=rowmajor, o=o):
                    x = p if rowmajor else q
                    return cell(L, lambda p, q: x < L.v(o))(p, q)
                def c2(L, p, q, rowmajor=rowmajor, o=o, i_=i_):
                    x, y = (p, q) if rowmajor else (q, p)
                    return cell(L, lambda p, q: z3.Or(x < L.v(o), z3.And(x == L.v(o), y < L.v(i_))))(p, q)
                out.append(stloop('r', c1, lambda L, o=o, on=on: getattr(A(L.c), on) - L.v(o), lambda L, o=o, on=on: z3.And(L.v(o) >= 0, L.v(o) <= getattr(A(L.c), on))))
                # the inner counter may start beyond the end of the line, or anywhere after the first kept cell
                def r2(L, o=o, i_=i_, on=on, inn=inn, rowmajor=rowmajor, nm=nm):
                    x, y = L.v(o), L.v(i_); k = L.c.v(1)
                    lo = {('tril', True): z3.IntVal(0), ('tril', False): x - k, ('triu', True): x + k, ('triu', False): z3.IntVal(0)}[(nm, rowmajor)]
                    return z3.And(x >= 0, x < getattr(A(L.c), on), y >= lo, y >= 0)
                out.append(stloop('r', c2, lambda L, i_=i_, inn=inn: getattr(A(L.c), inn) - L.v(i_), r2))
            return out
        add(f'{nm}({M}&,i32)', pre=kpre, post=post, loops=loops())
    hv = lambda c, i, j, cpx=cpx: ct(cpx, c.run.fdiv(z3.RealVal(1), toreal(i) + toreal(j) + 1))
    h1 = lambda L, p, q, hv=hv, Z=Z: mkite(p < L.v('i'), hv(L.c, p, q), Z)
    h2 = lambda L, p, q, hv=hv, Z=Z: mkite(z3.Or(p < L.v('i'), z3.And(p == L.v('i'), q < L.v('j'))), hv(L.c, p, q), Z)
    add(f'hilbert(u64)->{M}', pre=lambda c: [('positive dimension', c.v(0) > 0)], post=lambda c, hv=hv: R_(c).wf() + R_(c).dims(c.v(0), c.v(0)) + [('1/(i+j+1)', R_(c).all(lambda i, j: hv(c, i, j)))],
        loops=[stloop('m', h1, lambda L: L.c.v(0) - L.v('i'), lambda L: z3.And(L.v('i') >= 0, L.v('i') <= L.c.v(0))),
               stloop('m', h2, lambda L: L.c.v(0) - L.v('j'), lambda L: z3.And(L.v('i') >= 0, L.v('i') < L.c.v(0), L.v('j') >= 0, L.v('j') <= L.c.v(0)))])

    # ---- predicates
    def gram(run, m):
        """SUM(i,k,t) of m(i,.)*conj(m(k,.)) - or without the conjugate"""
        return getsum(run, 'gram', m.ids(), lambda: Sum(run, 'GRAM', lambda i, k, t: mkrmul(m.at(i, t), m.at(k, t)), 2, m.cpx))
    def gramc(run, m):
        if not m.cpx: return gram(run, m)
        return getsum(run, 'gramc', m.ids(), lambda: Sum(run, 'GRAMC', lambda i, k, t: mkrmul(m.at(i, t), conj(True, m.at(k, t))), 2, m.cpx))
    def sq(run, m):
        return getsum(run, 'sq', m.ids(), lambda: Sum(run, 'SQ', lambda i, k, t: mkrmul(m.at(i, t), m.at(t, k)), 2, m.cpx))
    def ispred(nm, f, sm=None):
        def post(c):
            m = A(c); run = c.run
            ws = [(z3.IntVal(0), z3.IntVal(0))]
            if sm is not None:
                s = sm(run, m)
                cell = lambda i, j: mkeq(s.at(i, j, m.C), f(m, i, j))
                pats = lambda i, j: [x(i, j, m.C) for x in s.fs]
                if c.mode == 'verify':
                    for k, o in list(run.ghosts.items()):
                        if isinstance(k, tuple) and len(k) > 1 and k[0] == 'SUM' and k[1] in ('matmul', 'smul'):
                            for z in congr_all(run, s, o, m): run.assume(z)
                    if m.cpx: rmulneg4(run)
            else:
                cell = lambda i, j: mkeq(m.at(i, j), f(m, i, j)); pats = m.pats
            if c.mode == 'verify':
                for sk in run.exw[-4:]:
                    if len(sk) == 1: ws.append((lfst(sk[0], m.C), lsnd(sk[0], m.C)))
                    if len(sk) == 2: ws.append(tuple(sk))
            return [('true means square', z3.Implies(c.ret, m.R == m.C)),
                    ('true means every entry satisfies the definition', IMP(c.ret, FA(2, lambda i, j: z3.Implies(m.inr(i, j), cell(i, j)), pats))),
                    ('false means the definition fails somewhere', IMP(z3.Not(c.ret), EX(2, lambda i, j: z3.Or(m.R != m.C, z3.And(m.inr(i, j), z3.Not(cell(i, j)))), ws)))]
        add(f'{nm}({M}&)', pre=ne, post=post)
    tr = lambda m, i, j: m.at(j, i)
    delta = lambda m, i, j, O=O, Z=Z: mkite(i == j, O, Z)
    ispred('matrixIsSymmetric', tr)
    ispred('matrixIsHermitian', lambda m, i, j: conj(m.cpx, m.at(j, i)))
    ispred('matrixIsSkewSymmetric', lambda m, i, j: mkneg(m.at(j, i)))
    ispred('matrixIsSkewHermitian', lambda m, i, j: mkneg(conj(m.cpx, m.at(j, i))))
    ispred('matrixIsOrthogonal', delta, gram)
    ispred('matrixIsUnitary', delta, gramc)
    ispred('matrixIsProjection', lambda m, i, j: m.at(i, j), sq)


def rmulneg4(run):
    """z*(-x) = -(z*x) for the uninterpreted product, in every argument order (lemma 'rmul')"""
    for p in (lambda x, z: rmul(x, z), lambda x, z: rmul(z, x)):
        for q in (lambda x, z: rmul(x, z), lambda x, z: rmul(z, x)):
            run.assume(FA(3, lambda x, y, z, p=p, q=q: z3.Implies(x == -y, p(x, z) == -q(y, z)), lambda x, y, z, p=p, q=q: [(p(x, z), q(y, z))], sorts=[R, R, R]))


def congr_all(run, s, o, m):
    """lemma 'sums': two sums whose terms below t agree are equal (w: first index with different terms)"""
    out = []
    for k, f in enumerate(s.fs):
        w = z3.Function(run.fresh('cw', I).decl().name() + 'f', I, I, I, I)
        g = o.fs[k]
        def bd(i, j, t, f=f, g=g, w=w, k=k):
            x = w(i, j, t)
            return z3.Or(f(i, j, t) == g(i, j, t), z3.And(x >= 0, x < t, s.parts(s.body(i, j, x))[k] != o.parts(o.body(i, j, x))[k]))
        out.append(FA(3, bd, lambda i, j, t, f=f, g=g: [f(i, j, t), g(i, j, t)]))
    return out


# ------------------------------------------------------------------ conversions
for BT in ('BaseMatrix<double,DataContainer2D<vector<double>,0,0>>', 'BaseMatrix<double,DataContainer2D<array<double,6>,2,3>>'):
    cell1 = lambda L, p, q: mkite(p < L.v('i'), A(L.c).at(p, q), z3.RealVal(0))
    cell2 = lambda L, p, q: mkite(z3.Or(p < L.v('i'), z3.And(p == L.v('i'), q < L.v('j'))), A(L.c).at(p, q), z3.RealVal(0))
    add(f'toSparseMatrix({BT}&)', pre=ne, post=lambda c: R_(c).wf() + R_(c).dims(A(c).R, A(c).C) + [('same value everywhere', R_(c).all(lambda i, j: A(c).at(i, j)))],
        loops=[stloop('res', cell1, lambda L: A(L.c).R - L.v('i'), lambda L: z3.And(L.v('i') >= 0, L.v('i') <= A(L.c).R)),
               stloop('res', cell2, lambda L: A(L.c).C - L.v('j'), lambda L: z3.And(L.v('i') >= 0, L.v('i') < A(L.c).R, L.v('j') >= 0, L.v('j') <= A(L.c).C))])


def tdinv(L):
    g = S(L.run, L.c.a[0]); x = SP.It(L.run, L.lv('it')); r = W(L.run, L.lv('res'))
    return SP.it_in(L.run, L.lv('it'), L.c.a[0]) + r.wf() + r.dims(g.R, g.C) + [
        ('visited cells are transferred', r.all(lambda i, j: z3.If(z3.And(g.pos(i, j) >= 0, g.pos(i, j) < x.pos), g.v(i, j), 0)))]


add('toDenseMatrix(SparseMatrix<double>&)', opts=SP.seq(), pre=ne, post=lambda c: R_(c).wf() + R_(c).dims(A(c).R, A(c).C) + [('same value everywhere', R_(c).all(lambda i, j: A(c).at(i, j)))],
    loops=[LoopSpec(tdinv, var=lambda L: S(L.run, L.c.a[0]).n - SP.It(L.run, L.lv('it')).pos)])


# ------------------------------------------------------------------ fixed-size matrices
from . import dense as DN
_keep = DN.C
DN.C = {}
DN.instances('double', 'DataContainer2D<array<double,4>,2,2>', False, True, 'FixedMatrix<double,2,2>')
DN.fx('FixedMatrix<double,2,2>::mul(FixedMatrix<double,2,2>&) const', DN._fmul)
F22, DN.C = DN.C, _keep
C.update({k: v for k, v in F22.items() if '::begin' not in k})
for FMT, cpx, n, m_ in (('FixedMatrix<double,2,2>', False, 2, 2), ('FixedMatrix<double,2,3>', False, 2, 3), ('FixedMatrix<complex<double>,2,2>', True, 2, 2)):
    Z, O = zero(cpx), one(cpx)
    cells_ = [(i, j) for i in range(n) for j in range(m_)]
    add(f'eye()->{FMT}', post=lambda c, Z=Z, O=O, cells_=cells_: DM(c.run, c.ret).wf() + [('ones on the diagonal, zeros elsewhere', mkand(*[mkeq(DM(c.run, c.ret).at(i, j), O if i == j else Z) for i, j in cells_]))])
    if n != m_: continue
    def fpred(nm, f, lhs=lambda m, i, j: m.at(i, j)):
        def post(c):
            m = DM(c.run, c.a[0])
            if m.cpx and c.mode == 'verify': rmulneg4(c.run)
            return [('true exactly when every entry satisfies the definition', c.ret == mkand(*[mkeq(lhs(m, i, j), f(m, i, j)) for i, j in cells_]))]
        add(f'{nm}({FMT}&)', pre=lambda c: DM(c.run, c.a[0]).wf(), post=post)
    cj = lambda m, x: conj(m.cpx, x)
    sm = lambda m, i, j, g: DN.const_sum([mkrmul(m.at(i, t), g(m, t, j)) for t in range(2)], m.cpx)
    fpred('matrixIsSymmetric', lambda m, i, j: m.at(j, i))
    fpred('matrixIsHermitian', lambda m, i, j: cj(m, m.at(j, i)))
    fpred('matrixIsSkewSymmetric', lambda m, i, j: mkneg(m.at(j, i)))
    fpred('matrixIsSkewHermitian', lambda m, i, j: mkneg(cj(m, m.at(j, i))))
    fpred('matrixIsOrthogonal', lambda m, i, j, Z=Z, O=O: O if i == j else Z, lambda m, i, j: sm(m, i, j, lambda m, t, j: m.at(j, t)))
    fpred('matrixIsUnitary', lambda m, i, j, Z=Z, O=O: O if i == j else Z, lambda m, i, j: sm(m, i, j, lambda m, t, j: cj(m, m.at(j, t))))
    fpred('matrixIsProjection', lambda m, i, j: m.at(i, j), lambda m, i, j: sm(m, i, j, lambda m, t, j: m.at(t, j)))
