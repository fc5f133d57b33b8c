"""Contracts of the linear solvers (dense and sparse real): triangular solves, factorizations, preconditioners."""
import z3
from ..core import *
from ..interp import Cast, uncast
from ..contracts import Contract, LoopSpec
from .sparse import It, it_in
from ..sums import Sum, Seq, getsum
from ..stdlib import NUMLIM, frac
from . import vector as V
from . import sparse as SP
from .dense import DM, itv
from .construct import W
from .sparse import S, wf as swf

DRV = 'lin'
USES = ['vector', 'dense', 'sparse', 'sparse2', 'sparse3', 'construct']
C = {}
EPS = z3.RealVal(frac(NUMLIM['epsilon'])) if not isinstance(frac(NUMLIM['epsilon']), z3.ExprRef) else frac(NUMLIM['epsilon'])


def add(sig, **kw):
    C[sig] = Contract(sig, **kw)
    return C[sig]


def A(c, i): return W(c.run, c.a[i])
def VEC(c, i): return V.D(c.run, c.a[i])
def mabs(x): return z3.If(x >= 0, x, -x)
def tiny(x): return mabs(x) <= EPS
def mx(a, b): return z3.If(a >= b, a, b)
def mn(a, b): return z3.If(a <= b, a, b)


def mvs(run, m, v, tag='mv'):
    """SUM(i,t): first t terms of row i of m times v"""
    return getsum(run, 'lin' + tag, m.ids() + v.ids(), lambda: Sum(run, 'L' + tag, lambda i, t: mkrmul(m.at(i, t), v.at(t)), 1))


def congr1(run, s, o, rng=None):
    """lemma 'sums' (range congruence): equal terms on [a,b) give equal increments over [a,b)"""
    f, g = s.fs[0], o.fs[0]
    if f.eq(g): return []
    run.nfresh += 1
    w = z3.Function(f'cw_{run.nfresh}', I, I, I, I)
    def bd(i, a, b):
        x = w(i, a, b)
        return z3.Implies(z3.And(0 <= a, a <= b), z3.Or(f(i, b) - f(i, a) == g(i, b) - g(i, a), z3.And(x >= a, x < b, s.body(i, x) != o.body(i, x))))
    return [FA(3, bd, lambda i, a, b: [(f(i, a), f(i, b)), (g(i, a), g(i, b))])]


def gaps(s, sparse): return s.gap() if sparse else []


def col(run, lv):
    """column a row iterator has reached (all columns before it are done)"""
    return uncast(lv).get('.mIndex2')


def it_row(run, lv, m, i, nm='iterator'):
    """row iterator of m inside row i, or at the end"""
    x1, x2 = uncast(lv).get('.mIndex1'), uncast(lv).get('.mIndex2')
    out = [(f'{nm} in the row or at the end', z3.Or(z3.And(x1 == i, x2 >= 0, x2 < m.C), z3.And(x1 == m.R, x2 == m.C)))]
    if m.sparse: out += SP.it_in(run, lv, m.lv)
    return out


def lower(m, n): return tobool(FA(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < n), m.at(i, j) == 0), lambda i, j: m.pats(i, j)))
def upper(m, n): return tobool(FA(2, lambda i, j: z3.Implies(z3.And(j >= 0, j < i, i < n), m.at(i, j) == 0), lambda i, j: m.pats(i, j)))


# ------------------------------------------------------------------ triangular solves
for MT, sparse in (('DenseMatrix<double>', False), ('SparseMatrix<double>', True)):
    def ok(c):
        l, u, b = A(c, 0), A(c, 1), VEC(c, 2)
        return z3.And(l.R == l.C, u.R == u.C, l.R == u.R, l.R == b.n)
    def singular(c):
        l, u = A(c, 0), A(c, 1)
        return EX(1, lambda i: z3.And(ok(c), i >= 0, i < l.R, z3.Or(tiny(l.at(i, i)), tiny(u.at(i, i)))), pats=lambda i: l.pats(i, i) + u.pats(i, i),
                  wit=[(c.memo['pivot'],)] if 'pivot' in c.memo else None)
    def pre(c):
        return A(c, 0).wf() + A(c, 1).wf() + [('not empty', A(c, 0).R > 0)]
    def post(c, sparse=sparse):
        run = c.run
        l, u, b = A(c, 0), A(c, 1), VEC(c, 2); x = V.D(run, c.ret); n = l.R
        su = mvs(run, u, x)
        # y = (upper triangle of U) x,  (lower triangle of L) y = b
        y = lambda t: su.at(t, n) - su.at(t, t)
        key = ('YS', su.fs[0].name())
        if key not in run.ghosts: run.ghosts[key] = Sum(run, 'LY', lambda i, t: mkrmul(l.at(i, t), y(t)), 1)
        sy = run.ghosts[key]
        if c.mode == 'verify' and c.local('y') is not None:
            yv = V.D(run, c.local('y')); s1 = mvs(run, l, yv)
            if 'x0' in c.old.memo:
                for f in congr1(run, mvs(run, u, c.old.memo['x0']), su) + su.unfold(c.old.memo['pivot'], c.old.memo['pivot']): run.assume(f)
                p0 = c.old.memo['pivot']
                run.check('last component solved', yv.at(p0) == y(p0), 'lemma')
            run.check('intermediate vector is the upper triangle of U times x', FA(1, lambda p: z3.Implies(z3.And(p >= 1, p < n), yv.at(p) == y(p)), lambda p: yv.pats(p)), 'lemma')
            for f in congr1(run, s1, sy): run.assume(f)
        if c.mode != 'verify': run.ghosts['lastsolve'] = (su, sy, x)
        out = [('length', x.n == n), ('lower triangle of L times (upper triangle of U times x) is b',
                 FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), sy.at(p, p) + mkrmul(l.at(p, p), y(p)) == b.at(p)), lambda p: [su.at(p, p), sy.at(p, p)]))]
        key = ('FS', su.fs[0].name())
        if key not in run.ghosts: run.ghosts[key] = Sum(run, 'LUX', lambda i, t: mkrmul(l.at(i, t), su.at(t, n)), 1)
        s2 = run.ghosts[key]
        if c.mode == 'verify': out.append(('sums', DEF(su.gap() + s2.gap() + congr1(run, s2, sy) + [FA(1, lambda p: z3.And(s2.at(p, 0) == 0, sy.at(p, 0) == 0, *s2.unfold(p, p)), lambda p: [s2.at(p, n)])])))
        out += [('lower times upper: parts below the diagonal of U vanish', IMP(upper(u, n), FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), su.at(p, p) == 0), lambda p: [su.at(p, p), su.at(p, n)], hints=lambda p: [su.at(p, 0)]))),
                ('triangular factors: L times (U times x) is b', IMP(z3.And(lower(l, n), upper(u, n)), FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), s2.at(p, n) == b.at(p)), lambda p: [s2.at(p, n)])))]
        return out
    # forward: rows before i are solved
    def fwd(L):
        run = L.run; l, b = A(L.c, 0), VEC(L.c, 2); y = V.D(run, L.lv('y')); i = L.v('i'); s = mvs(run, l, y)
        return [('range', z3.And(i >= 0, i <= l.R)), ('length', y.n == l.R),
                ('rows before i are solved', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < i), z3.And(s.at(p, p) + mkrmul(l.at(p, p), y.at(p)) == b.at(p), z3.Not(tiny(l.at(p, p))))), lambda p: y.pats(p) + l.pats(p, p) + [s.at(p, p)])),
                ('the other components are still b', FA(1, lambda p: z3.Implies(z3.And(p >= i, p < l.R), y.at(p) == b.at(p)), lambda p: y.pats(p)))]
    def fwd_end(L):
        run = L.run; l = A(L.c, 0); L.run.keep.append(L)
        y = V.D(run, L.lv('y'))
        s0 = mvs(run, l, run.ghosts[('fwd0', id(L))]); s1 = mvs(run, l, y)
        return [('sum congruence', DEF(congr1(run, s0, s1)))]
    def fwd_body(L):
        run = L.run; y = V.D(run, L.lv('y')); run.ghosts[('fwd0', id(L))] = y; L.c.old.memo['pivot'] = L.v('i')
        return []
    def fin(L):
        run = L.run; l, b = A(L.c, 0), VEC(L.c, 2); i = L.v('i'); y = V.D(run, L.lv('y')); y0 = V.D(run, L.pre.lv(L.lv('y'))); s = mvs(run, l, y0)
        k = col(run, L.lv('it'))
        return it_row(run, L.lv('it'), l, i) + [('gaps', DEF(gaps(s, l.sparse))), ('length', y.n == l.R),
                ('component i is reduced by the finished part of the row', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < l.R), y.at(p) == z3.If(p == i, b.at(p) - s.at(i, mn(k, i)), y0.at(p))), lambda p: y.pats(p)))]
    def fin_body(L, sparse=sparse):
        run = L.run; l = A(L.c, 0); y0 = V.D(run, L.pre.lv(L.lv('y'))); s = mvs(run, l, y0)
        return s.unfold(L.v('i'), col(run, L.lv('it'))) + gaps(s, sparse)
    # backward
    def solved(run, u, x, y, p, s): return s.at(p, u.C) - s.at(p, p) == y.at(p)
    def bwd(L):
        run = L.run; u = A(L.c, 1); x, y = V.D(run, L.lv('x')), V.D(run, L.lv('y')); i = L.v('i'); s = mvs(run, u, x); n = u.R
        return [('range', z3.And(i >= 0, i < n)), ('length', z3.And(x.n == n, y.n == n)),
                ('rows after i are solved', FA(1, lambda p: z3.Implies(z3.And(p > i, p < n), z3.And(solved(run, u, x, y, p, s), z3.Not(tiny(u.at(p, p))))), lambda p: x.pats(p) + u.pats(p, p) + [s.at(p, p)])),
                ('the other components are still y', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p <= i), x.at(p) == y.at(p)), lambda p: x.pats(p)))]
    def bwd_body(L):
        run = L.run; L.c.old.memo['x0'] = V.D(run, L.lv('x')); L.c.old.memo['pivot'] = L.v('i')
        return []
    def bin_(L):
        run = L.run; u = A(L.c, 1); i = L.v('i'); x, y = V.D(run, L.lv('x')), V.D(run, L.lv('y')); x0 = V.D(run, L.pre.lv(L.lv('x'))); s = mvs(run, u, x0); n = u.R
        k = col(run, L.lv('it'))
        return it_row(run, L.lv('it'), u, i) + [('gaps', DEF(gaps(s, u.sparse))), ('length', z3.And(x.n == n)),
                ('component i is reduced by the finished part of the row', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), x.at(p) == z3.If(p == i, y.at(p) - (s.at(i, mx(k, i + 1)) - s.at(i, i + 1)), x0.at(p))), lambda p: x.pats(p)))]
    def bin_body(L, sparse=sparse):
        run = L.run; u = A(L.c, 1); x0 = V.D(run, L.pre.lv(L.lv('x'))); s = mvs(run, u, x0)
        return s.unfold(L.v('i'), col(run, L.lv('it'))) + gaps(s, sparse)
    def bwd_end(L):
        run = L.run; u = A(L.c, 1); x = V.D(run, L.lv('x')); i = L.v('i')
        s0 = mvs(run, u, L.c.old.memo['x0']); s1 = mvs(run, u, x)
        return [('sum congruence', DEF(congr1(run, s0, s1) + s1.unfold(i + 1, i + 1)))]
    add(f'solve_lu({MT}&,{MT}&,Vector<double,vector<double>>&)', opts=dict(cancel=True, **(SP.seq() if sparse else {})), pre=pre, post=post,
        throws=[('NotSquareException', lambda c: z3.Or(A(c, 0).R != A(c, 0).C, A(c, 1).R != A(c, 1).C)),
                ('MatrixSizeMismatchException', lambda c: z3.And(A(c, 0).R == A(c, 0).C, A(c, 1).R == A(c, 1).C, A(c, 0).R != A(c, 1).R)),
                ('MatrixVectorMismatchException', lambda c: z3.And(A(c, 0).R == A(c, 0).C, A(c, 1).R == A(c, 1).C, A(c, 0).R == A(c, 1).R, A(c, 0).R != VEC(c, 2).n)),
                ('SingularException', singular)],
        loops=[LoopSpec(fwd, var=lambda L: A(L.c, 0).R - L.v('i'), body=fwd_body, end=fwd_end),
               LoopSpec(fin, var=lambda L: A(L.c, 0).C - col(L.run, L.lv('it')), body=fin_body),
               LoopSpec(bwd, var=lambda L: L.v('i'), body=bwd_body, end=bwd_end),
               LoopSpec(bin_, var=lambda L: A(L.c, 1).C - col(L.run, L.lv('it')), body=bin_body)])


# ------------------------------------------------------------------ pivoted LU decomposition
def lusum(run, l, u):
    return getsum(run, 'lu', l.ids() + u.ids(), lambda: Sum(run, 'LU', lambda i, j, t: mkrmul(l.at(i, t), u.at(t, j)), 2))


def congr2(run, s, o, rows=False):
    """lemma 'sums': equal terms below t give equal sums (rows: row i of s against row i2 of o)"""
    f, g = s.fs[0], o.fs[0]
    if f.eq(g): return []
    run.nfresh += 1
    w = z3.Function(f'cw_{run.nfresh}', *([I] * (5 if rows else 4)))
    if rows:
        def bd(i, p, j, t):
            x = w(i, p, j, t)
            return z3.Or(f(i, j, t) == g(p, j, t), z3.And(x >= 0, x < t, s.body(i, j, x) != o.body(p, j, x)))
        return [FA(4, bd, lambda i, p, j, t: [(f(i, j, t), g(p, j, t))])]
    def bd(i, j, t):
        x = w(i, j, t)
        return z3.Or(f(i, j, t) == g(i, j, t), z3.And(x >= 0, x < t, s.body(i, j, x) != o.body(i, j, x)))
    return [FA(3, bd, lambda i, j, t: [f(i, j, t), g(i, j, t)])]


def cancel(run):
    """lemma 'rmul': (x * (1/p)) * p = x for p != 0"""
    return FA(2, lambda x, p: z3.Implies(p != 0, rmul(rmul(x, rinv(p)), p) == x), lambda x, p: [rmul(x, rinv(p))], sorts=[R, R])


RA1 = z3.ArraySort(I, I)
PAR = z3.Function('permpar', RA1, I, I)      # parity of a permutation of 0..n-1


def par_identity(run, p, n):
    """lemma 'parity': the identity is even"""
    w = run.fresh('pw', I)
    return [z3.Or(PAR(p, n) == 0, z3.And(w >= 0, w < n, sel(p, w) != w))]


def par_swap(run, p, q, x, y, n):
    """lemma 'parity': exchanging two entries of a permutation changes its parity"""
    w, a, b = run.fresh('pw', I), run.fresh('pa', I), run.fresh('pb', I)
    noperm = z3.Or(z3.And(inr(n, a), z3.Or(sel(p, a) < 0, sel(p, a) >= n)), z3.And(inr(n, a), inr(n, b), a != b, sel(p, a) == sel(p, b)))      # no permutation
    return [z3.Implies(z3.And(x >= 0, x < n, y >= 0, y < n, x != y), z3.Or(noperm, PAR(q, n) == 1 - PAR(p, n), z3.And(w >= 0, w < n, sel(q, w) != z3.If(w == x, sel(p, y), z3.If(w == y, sel(p, x), sel(p, w))))))]


def rowtab(run, lv):
    """the row table array behind the local pointer"""
    p = run.load(lv) if run.eng.isscalar(lv.ty) or lv.ty.k == 'ptr' else lv
    if not isinstance(p, PtrVal): raise Unsupported('row table')
    return Seq(run, p.lv)


def inr(n, *xs): return z3.And(*[z3.And(x >= 0, x < n) for x in xs])


def factor_facts(run, k, a, l, u, pi, n):
    s = lusum(run, l, u)
    return [
        ('L is unit lower triangular, unfinished columns are those of the identity', FA(2, lambda i, j: z3.Implies(inr(n, i, j), z3.And(z3.Implies(i == j, l.at(i, j) == 1), z3.Implies(z3.Or(j > i, z3.And(j >= k, j != i)), l.at(i, j) == 0))), lambda i, j: l.pats(i, j))),
        ('U is zero below the diagonal of the finished columns', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), j < i, j < k), u.at(i, j) == 0), lambda i, j: u.pats(i, j))),
        ('finished part of L times U, plus the rest, is the permuted input', FA(2, lambda i, j: z3.Implies(inr(n, i, j), s.at(i, j, mn(i, k)) + u.at(i, j) == a.at(pi(i), j)), lambda i, j: u.pats(i, j) + [s.at(i, j, k), s.at(i, j, i)])),
        ('the row table is in range', FA(1, lambda i: z3.Implies(inr(n, i), inr(n, pi(i))), lambda i: [pi(i)])),
        ('the row table has no repetition', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), i != j), pi(i) != pi(j)), lambda i, j: [(pi(i), pi(j))])),
        ('finished pivots do not vanish', FA(1, lambda i: z3.Implies(z3.And(i >= 0, i < k), z3.Not(tiny(u.at(i, i)))), lambda i: u.pats(i, i))),
    ]


def doolittle(sig, sparse):
    N = lambda L: A(L.c, 0).R
    LL = lambda L, pre=False: W(L.run, L.pre.lv(L.lv('L')) if pre else L.lv('L'))
    UU = lambda L, pre=False: W(L.run, L.pre.lv(L.lv('U')) if pre else L.lv('U'))
    PP = lambda L: W(L.run, L.lv('P'))
    def PI(L, pre=False):
        p = L.run.load(L.lv('rowTable'))
        if not isinstance(p, PtrVal): raise Unsupported('row table')
        return Seq(L.run, L.pre.lv(p.lv) if pre else p.lv)
    def dims(L, *ms):
        n = N(L); out = []
        for m in ms: out += m.wf() + [('dimensions', z3.And(m.R == n, m.C == n))]
        return out
    same = lambda m, o, nm, cond=None: (nm, FA(2, lambda i, j: z3.Implies(z3.And(m.inr(i, j), *( [cond(i, j)] if cond else [])), m.at(i, j) == o.at(i, j)), lambda i, j: m.pats(i, j)))
    isz = lambda m, nm, dn: (nm, FA(2, lambda i, j: z3.Implies(z3.And(m.inr(i, j), dn(i, j)), m.at(i, j) == 0), lambda i, j: m.pats(i, j)))
    def setup0(L):          # rows before i are set up
        i = L.v('i'); l = LL(L); n = N(L); pi = PI(L); u = UU(L)
        out = [('range', z3.And(i >= 0, i <= n)), ('length', pi.n == n)] + dims(L, l, *([] if sparse else [PP(L)])) + [
            ('identity table so far', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < i), pi.at(p) == p), lambda p: pi.pats(p))),
            ('identity L so far', FA(2, lambda p, q: z3.Implies(z3.And(l.inr(p, q), p < i), l.at(p, q) == z3.If(p == q, z3.RealVal(1), z3.RealVal(0))), lambda p, q: l.pats(p, q)))]
        if sparse: out.append(isz(l, 'the other rows of L are zero', lambda p, q: p >= i))
        else: out.append(isz(PP(L), 'P zero so far', lambda p, q: p < i))
        return out
    def setup1(L):
        i, j = L.v('i'), L.v('j'); l, p_ = LL(L), PP(L)
        dn = lambda p, q: z3.And(p == i, q < j)
        return [('range', z3.And(j >= 0, j <= N(L)))] + dims(L, l, p_) + [
            isz(l, 'row of L zero so far', dn), isz(p_, 'row of P zero so far', dn), same(l, LL(L, True), 'other rows of L', lambda p, q: p < i), same(p_, W(L.run, L.pre.lv(L.lv('P'))), 'other rows of P', lambda p, q: p < i)]
    def pcount(L):
        x = L.c.a[-1]
        pv = L.run.load(x) if isinstance(x, LV) else x
        return L.run.load(pv.lv) if isinstance(pv, PtrVal) else None
    def main(L):
        k = L.v('k'); n = N(L); pi = PI(L); run = L.run
        out = [('range', z3.And(k >= 0, k <= n - 1)), ('length', pi.n == n)] + dims(L, LL(L), UU(L), *([] if sparse else [PP(L)])) + factor_facts(run, k, A(L.c, 0), LL(L), UU(L), pi.at, n)
        if not sparse: out.append(isz(PP(L), 'P is still zero', lambda p, q: z3.BoolVal(True)))
        pc = pcount(L)
        if pc is not None:
            if L.c.old.memo.get('par') is None: out.append(('even', DEF(par_identity(run, pi.arr[''], n))))
            out.append(('exchange count has the parity of the row table', pc % 2 == PAR(pi.arr[''], n)))
            out.append(('parity', z3.And(pc >= 0, PAR(pi.arr[''], n) >= 0, PAR(pi.arr[''], n) <= 1)))
        return out
    def main_body(L):
        L.c.old.memo['par'] = (PI(L).arr[''], L.v('k')); L.c.old.memo['luh'] = lusum(L.run, LL(L), UU(L))
        return []
    def find(L):
        k, j, i = L.v('k'), L.v('j'), L.v('i'); u = UU(L)
        L.c.old.memo['cand'] = (u, k)
        return [('range', z3.And(j > k, j <= N(L), i >= k, i < j)), ('best candidate so far', z3.And(L.v('m') == mabs(u.at(i, k)), FA(1, lambda p: z3.Implies(z3.And(p >= k, p < j), mabs(u.at(p, k)) <= L.v('m')), lambda p: u.pats(p, k)).fact('fm')))]
    def swp(nm, lo, hi):
        def inv(L):
            k, j, i = L.v('k'), L.v('j'), L.v('i'); m, o = W(L.run, L.lv(nm)), W(L.run, L.pre.lv(L.lv(nm)))
            return [('range', z3.And(j >= lo(L), j <= hi(L), i > k, i < N(L)))] + dims(L, m) + [
                ('rows exchanged so far', FA(2, lambda p, q: z3.Implies(m.inr(p, q), m.at(p, q) == z3.If(z3.And(q >= lo(L), q < j), z3.If(p == k, o.at(i, q), z3.If(p == i, o.at(k, q), o.at(p, q))), o.at(p, q))), lambda p, q: m.pats(p, q)))]
        return LoopSpec(inv, var=lambda L: hi(L) - L.v('j'))
    def elim(L):
        run = L.run; k, j = L.v('k'), L.v('j'); l, u, l0, u0 = LL(L), UU(L), LL(L, True), UU(L, True); pi0 = PI(L, True); n = N(L)
        s0 = lusum(run, l0, u0); sh = L.c.old.memo['luh']
        out = [('sums before and after the exchange', DEF(congr2(run, s0, sh, rows=True)))]
        if 'par' in L.c.old.memo:
            p0, kk = L.c.old.memo['par']
            out.append(('exchange', DEF(par_swap(run, p0, pi0.arr[''], L.v('i'), k, n))))
        out += [(nm + ' (after the row exchange)', f) for nm, f in factor_facts(run, k, A(L.c, 0), l0, u0, pi0.at, n)]
        out += [('range', z3.And(j > k, j <= n)), ('pivot', z3.Not(tiny(u0.at(k, k)))), ('quotient', DEF([cancel(run)]))] + dims(L, l, u) + [
            ('L of the finished rows', FA(2, lambda p, q: z3.Implies(inr(n, p, q), l.at(p, q) == z3.If(z3.And(q == k, p > k, p < j), rmulx(u0.at(p, k), rinv(u0.at(k, k))), l0.at(p, q))), lambda p, q: l.pats(p, q))),
            ('U of the finished rows', FA(2, lambda p, q: z3.Implies(inr(n, p, q), u.at(p, q) == z3.If(z3.And(q >= k, p > k, p < j), u0.at(p, q) - rmulx(l.at(p, k), u0.at(k, q)), u0.at(p, q))), lambda p, q: u.pats(p, q)))]
        L.c.old.memo['lu1'] = s0
        return out
    def elim2(L):
        run = L.run; k, j, t = L.v('k'), L.v('j'), L.v('t'); l, u, u0 = LL(L), UU(L), UU(L, True); n = N(L)
        return [('range', z3.And(t >= k, t <= n))] + dims(L, u) + [
            ('cells of the row so far', FA(2, lambda p, q: z3.Implies(inr(n, p, q), u.at(p, q) == z3.If(z3.And(p == j, q >= k, q < t), u0.at(p, q) - rmulx(l.at(j, k), u0.at(k, q)), u0.at(p, q))), lambda p, q: u.pats(p, q)))]
    def main_end(L):
        run = L.run; k = L.v('k') - 1; s1 = L.c.old.memo['lu1']; s2 = lusum(run, LL(L), UU(L))
        return [('sums', DEF(congr2(run, s1, s2) + [FA(2, lambda i, j: z3.And(*s2.unfold(i, j, k)), lambda i, j: [s2.at(i, j, k + 1)])]))]
    def piv(L):
        i = L.v('i'); n = N(L); p_ = PP(L); pi = PI(L)
        return [('range', z3.And(i >= 0, i <= n))] + dims(L, p_) + [('rows of P so far', FA(2, lambda p, q: z3.Implies(inr(n, p, q), p_.at(p, q) == z3.If(z3.And(p < i, q == pi.at(p)), z3.RealVal(1), z3.RealVal(0))), lambda p, q: p_.pats(p, q)))]
    def post(c):
        run = c.run; a, l, u, p_ = (A(c, i) for i in range(4)); a0 = W(run, c.old.a[0]); n = a.R
        if c.mode == 'verify':
            pi = Seq(run, c.local('rowTable').lv); arr = pi.arr['']
        else:
            arr = run.fresh('pi', RA1); run.ghosts['lastlu'] = (l, arr)
        pi = lambda i: sel(arr, i)
        c.memo['pi'] = pi
        s = lusum(run, l, u)
        # full product from the finished part: L(i,i) = 1 and zeros behind
        out = []
        for m, nm in ((l, 'L'), (u, 'U'), (p_, 'P')): out += [(f'{nm}: {x}', f) for x, f in m.wf() + [('dimensions', z3.And(m.R == n, m.C == n))]]
        if c.mode == 'verify': out.append(('sums', DEF(s.gap() + [FA(2, lambda i, j: z3.And(*s.unfold(i, j, i)), lambda i, j: [s.at(i, j, n)])])))
        out += [
            ('the row table is in range', FA(1, lambda i: z3.Implies(inr(n, i), inr(n, pi(i))), lambda i: [pi(i)])),
            ('the row table has no repetition', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), i != j), pi(i) != pi(j)), lambda i, j: [(pi(i), pi(j))])),
            ('P is the permutation matrix of the row table', FA(2, lambda i, j: z3.Implies(inr(n, i, j), p_.at(i, j) == z3.If(j == pi(i), z3.RealVal(1), z3.RealVal(0))), lambda i, j: p_.pats(i, j))),
            ('L is unit lower triangular', FA(2, lambda i, j: z3.Implies(inr(n, i, j), z3.And(z3.Implies(i == j, l.at(i, j) == 1), z3.Implies(j > i, l.at(i, j) == 0))), lambda i, j: l.pats(i, j))),
            ('U is upper triangular', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), j < i), u.at(i, j) == 0), lambda i, j: u.pats(i, j))),
            ('all pivots but the last do not vanish', FA(1, lambda i: z3.Implies(z3.And(i >= 0, i < n - 1), z3.Not(tiny(u.at(i, i)))), lambda i: u.pats(i, i))),
            ('row i of L times U is row pi(i) of the input', FA(2, lambda i, j: z3.Implies(inr(n, i, j), s.at(i, j, n) == a.at(pi(i), j)), lambda i, j: [s.at(i, j, n)])),
        ]
        ps = getsum(run, 'pa', p_.ids() + a.ids(), lambda: Sum(run, 'PA', lambda i, j, t: mkrmul(p_.at(i, t), a.at(t, j)), 2))
        if c.mode == 'verify': out.append(('sums of P A', DEF(ps.gap() + [FA(2, lambda i, j: z3.And(ps.at(i, j, 0) == 0, *ps.unfold(i, j, pi(i))), lambda i, j: [ps.at(i, j, n)])])))
        out.append(('row i of P A is row pi(i) of the input', FA(2, lambda i, j: z3.Implies(inr(n, i, j), ps.at(i, j, n) == a.at(pi(i), j)), lambda i, j: [ps.at(i, j, n)])))
        out.append(('P A = L U', FA(2, lambda i, j: z3.Implies(inr(n, i, j), ps.at(i, j, n) == s.at(i, j, n)), lambda i, j: [s.at(i, j, n), ps.at(i, j, n)])))
        x = c.a[-1]
        pv = run.load(x) if isinstance(x, LV) else x
        if isinstance(pv, PtrVal):
            pc = run.load(pv.lv)
            out.append(('exchange count has the parity of the permutation', z3.And(pc >= 0, pc % 2 == PAR(arr, n))))
        return out
    def onthrow(c, cls):
        if cls != 'SingularException': return []
        u, k = c.memo.get('cand') or c.old.memo['cand']; n = A(c, 0).R
        return [('every pivot candidate vanishes', FA(1, lambda p: z3.Implies(z3.And(p >= k, p < n), tiny(u.at(p, k))), lambda p: u.pats(p, k)))]
    sq = lambda c: A(c, 0).R == A(c, 0).C
    shape = lambda c: z3.And(sq(c), z3.Or(A(c, 0).R != A(c, 1).R, A(c, 0).C != A(c, 1).C, A(c, 0).R != A(c, 3).R, A(c, 0).C != A(c, 3).C))
    mod = lambda c: [c.a[1], c.a[2], c.a[3]] + ([run_lv(c)] if run_lv(c) is not None else [])
    def run_lv(c):
        x = c.a[-1]
        pv = c.run.load(x) if isinstance(x, LV) else x
        return pv.lv if isinstance(pv, PtrVal) else None
    loops = [LoopSpec(setup0, var=lambda L: N(L) - L.v('i'))] + ([] if sparse else [LoopSpec(setup1, var=lambda L: N(L) - L.v('j'))]) + [
        LoopSpec(main, var=lambda L: N(L) - L.v('k'), body=main_body, end=main_end), LoopSpec(find, var=lambda L: N(L) - L.v('j')),
        swp('U', lambda L: L.v('k'), N), swp('L', lambda L: z3.IntVal(0), lambda L: L.v('k')),
        LoopSpec(elim, var=lambda L: N(L) - L.v('j')), LoopSpec(elim2, var=lambda L: N(L) - L.v('t')), LoopSpec(piv, var=lambda L: N(L) - L.v('i'))]
    add(sig, opts=dict(cancel=True, **(SP.seq() if False else {})), alias=[{4: 'ref'}, {4: 'null'}],
        pre=lambda c: sum([A(c, i).wf() for i in range(4)], []) + [('not empty', A(c, 0).R > 0)],
        post=post, mod=mod, onthrow=onthrow, loops=loops,
        throws=[('NotSquareException', lambda c: z3.Not(sq(c)))] + ([] if sparse else [('InvalidOutputMatrixException', shape)]) + [('SingularException', None)])


def rmulx(a, b): return mkrmul(a, b)


DB = 'BaseMatrix<double,DataContainer2D<vector<double>,0,0>>'
doolittle(f'doolittle({DB}&,{DB}&,{DB}&,{DB}&,u64*)', False)
SMT = 'SparseMatrix<double>'
doolittle(f'doolittle({SMT}&,{SMT}&,{SMT}&,{SMT}&,u64*)', True)


# ------------------------------------------------------------------ determinant
DET = {}


def detof(run, a):
    """the mathematical determinant of a square matrix (a function of its entries)"""
    key = ('DET',) + tuple(t.get_id() for t in a.ids())
    if key not in run.ghosts: run.ghosts[key] = run.fresh('det', R)
    return run.ghosts[key]


def diagprod(run, u):
    """PROD(t): product of the first t diagonal entries"""
    key = ('DPROD',) + tuple(t.get_id() for t in u.ids())
    if key not in run.ghosts:
        run.nfresh += 1
        f = z3.Function(f'DPROD_{run.nfresh}', I, R)
        run.assume(f(z3.IntVal(0)) == 1)
        run.ghosts[key] = f
    return run.ghosts[key]


def det_theorem(run, a, l, u, pi, arr, n):
    """lemma 'determinant' (lean/Det.lean): rows of A permuted by pi are L U, L unit lower, U upper triangular
       -> det A = sgn(pi) * product of the diagonal of U"""
    s = lusum(run, l, u)
    f = diagprod(run, u)
    p = f(n)
    return z3.Implies(z3.And(a.R == a.C, a.R == n), detof(run, a) == z3.If(PAR(arr, n) == 0, p, -p))


for MT in ('DenseMatrix<double>', SMT):
    def dinv(L):
        run = L.run; i = L.v('i'); u = W(run, L.lv('U')); f = diagprod(run, u); sg = z3.If(L.v('pivotCount') % 2 == 0, z3.RealVal(1), z3.RealVal(-1))
        L.c.old.memo['U'] = u
        return [('range', z3.And(i >= 0, i <= u.R)), ('signed product so far', L.v('det') == z3.If(L.v('pivotCount') % 2 == 0, f(i), -f(i)))]
    def dbody(L):
        u = W(L.run, L.lv('U')); f = diagprod(L.run, u); i = L.v('i')
        return [z3.Implies(i >= 0, z3.And(f(i + 1) == mkrmul(f(i), u.at(i, i)), rmul(-f(i), u.at(i, i)) == -mkrmul(f(i), u.at(i, i)), rmul(u.at(i, i), -f(i)) == -mkrmul(f(i), u.at(i, i))))]
    def dpost(c):
        run = c.run; a = A(c, 0); n = a.R
        u = c.old.memo.get('U') if c.mode == 'verify' else None
        if u is not None:
            # the premises of the determinant theorem are what the contract of the decomposition just established
            dl = run.ghosts.get('lastlu')
            run.assume(det_theorem(run, a, dl[0], u, None, dl[1], n))
            return [('the mathematical determinant', z3.And(a.R == a.C, c.ret == detof(run, a)))]
        rej = 'doolittle(' in run.ghosts.get('threw', ('',))[0]
        return [('the mathematical determinant, or zero when the matrix is not square or the decomposition finds all pivot candidates vanishing', z3.BoolVal(True) if c.mode != 'verify' else z3.And(c.ret == 0, z3.Or(a.R != a.C, z3.BoolVal(rej))))]
    add(f'determinant({MT}&)', opts=dict(cancel=True), pre=lambda c: A(c, 0).wf() + [('not empty', z3.And(A(c, 0).R > 0, A(c, 0).C > 0))], post=dpost,
        loops=[LoopSpec(dinv, var=lambda L: W(L.run, L.lv('U')).R - L.v('i'), body=dbody)])


# ------------------------------------------------------------------ fixed-size determinants (unrolled; no theorem needed)
def fm(c, i, n):
    m = A(c, i)
    return [[m.at(x, y) for y in range(n)] for x in range(n)]


def det2(c):
    m = fm(c, 0, 2); big = z3.Or(z3.Not(tiny(m[0][0])), z3.Not(tiny(m[1][0])))
    return [('determinant if a pivot exceeds the threshold', z3.Implies(big, c.ret == m[0][0] * m[1][1] - m[0][1] * m[1][0])), ('zero otherwise', z3.Implies(z3.Not(big), c.ret == 0))]


def det3(c):
    m = fm(c, 0, 3)
    left = lambda p, i: m[i][1] - m[i][0] * (1 / m[p][0]) * m[p][1]       # second column after eliminating with row p
    rej1 = z3.And(*[tiny(m[i][0]) for i in range(3)])
    rej2 = z3.Or(*[z3.And(*[z3.And(mabs(m[i][0]) <= mabs(m[p][0]), tiny(left(p, i))) for i in range(3) if i != p]) for p in range(3)])
    d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
    if c.mode == 'verify' and isnum(c.ret): return [('zero only if all pivot candidates of a step vanish', z3.And(c.ret == 0, z3.Or(rej1, rej2)))]
    if c.mode != 'verify': return [('determinant, or zero if all pivot candidates of a step vanish', z3.Or(c.ret == d, z3.And(c.ret == 0, z3.Or(rej1, rej2))))]
    return [('determinant', c.ret == d)]


add('determinant(FixedMatrix<double,2,2>&)', opts=dict(nla=True), post=det2)
add('determinant(FixedMatrix<double,3,3>&)', opts=dict(nla=True), post=det3)


# ------------------------------------------------------------------ Cholesky
def gsum(run, l):
    return getsum(run, 'chol', l.ids(), lambda: Sum(run, 'LLT', lambda i, j, t: mkrmul(l.at(i, t), l.at(j, t)), 2))


def chol_facts(run, k, m, l, n):
    s = gsum(run, l)
    return [
        ('zeros above the diagonal of the finished columns', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), j < k, i < j), l.at(i, j) == 0), lambda i, j: l.pats(i, j))),
        ('positive diagonal of the finished columns', FA(1, lambda i: z3.Implies(z3.And(i >= 0, i < k), l.at(i, i) > 0), lambda i: l.pats(i, i))),
        ('finished columns reproduce the lower triangle of the input', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), j < k, i >= j), s.at(i, j, j) + mkrmul(l.at(i, j), l.at(j, j)) == m.at(i, j)), lambda i, j: l.pats(i, j) + m.pats(i, j) + [s.at(i, j, j)])),
    ]


for MT in ('DenseMatrix<double>', SMT):
    N = lambda L: A(L.c, 0).R
    LL = lambda L, pre=False: W(L.run, L.pre.lv(L.lv('L')) if pre else L.lv('L'))
    def dimsL(L): l = LL(L); return l.wf() + [('dimensions', z3.And(l.R == N(L), l.C == N(L)))]
    def c0(L):
        j = L.v('j')
        return [('range', z3.And(j >= 0, j <= N(L)))] + dimsL(L) + chol_facts(L.run, j, A(L.c, 0), LL(L), N(L))
    def c0_body(L):
        L.c.old.memo['head'] = (LL(L), L.v('j')); return []
    def c1(L):
        k, j = L.v('k'), L.v('j'); s = gsum(L.run, LL(L))
        return [('range', z3.And(k >= 0, k <= j)), ('partial sum', L.v('s') == s.at(j, j, k))]
    def c1_body(L):
        return gsum(L.run, LL(L)).unfold(L.v('j'), L.v('j'), L.v('k'))
    def c2(L):
        i, j = L.v('i'), L.v('j'); l, l0 = LL(L), LL(L, True)
        return [('range', z3.And(i >= 0, i <= j))] + dimsL(L) + [('column zeroed so far', FA(2, lambda p, q: z3.Implies(l.inr(p, q), l.at(p, q) == z3.If(z3.And(q == j, p < i), z3.RealVal(0), l0.at(p, q))), lambda p, q: l.pats(p, q)))]
    def c3(L):
        run = L.run; i, j = L.v('i'), L.v('j'); l, l0 = LL(L), LL(L, True); m = A(L.c, 0); n = N(L)
        lh, jh = L.c.old.memo['head']; sh, s0, s = gsum(run, lh), gsum(run, l0), gsum(run, l); d = l0.at(j, j)
        L.c.old.memo['chol3'] = s0
        return [('sums', DEF(congr2(run, sh, s0) + congr2(run, s0, s)))] + [(nm + ' (before the column)', f) for nm, f in chol_facts(run, j, m, l0, n)] + [
            ('zeros above the diagonal of this column', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < j), l0.at(p, j) == 0), lambda p: l0.pats(p, j))),
            ('range', z3.And(i >= j, i <= n)), ('root of the pivot', z3.And(d > 0, mkrmul(d, d) == m.at(j, j) - s0.at(j, j, j)))] + dimsL(L) + [
            ('other cells', FA(2, lambda p, q: z3.Implies(z3.And(l.inr(p, q), z3.Or(q != j, p < j, p >= i)), l.at(p, q) == l0.at(p, q)), lambda p, q: l.pats(p, q))),
            ('diagonal kept', l.at(j, j) == d),
            ('cells of the column so far', FA(1, lambda p: z3.Implies(z3.And(p >= j, p < i), mkrmul(l.at(p, j), d) == m.at(p, j) - s0.at(p, j, j)), lambda p: l.pats(p, j)))]
    def c3_end(L):
        run = L.run; l, i, j = LL(L), L.v('i') - 1, L.v('j'); d = LL(L, True).at(j, j)
        x = l.at(i, j)
        return [('x d = d d, d > 0 -> x = d', DEF([z3.Implies(z3.And(d > 0, mkrmul(x, d) == mkrmul(d, d)), x == d)]))]
    def c4(L):
        k, j, i = L.v('k'), L.v('j'), L.v('i'); s = gsum(L.run, LL(L))
        return [('range', z3.And(k >= 0, k <= j)), ('partial sum', L.v('s') == s.at(i, j, k))]
    def c4_body(L): return gsum(L.run, LL(L)).unfold(L.v('i'), L.v('j'), L.v('k'))
    def c0_end(L):
        run = L.run
        return [('sums', DEF(congr2(run, L.c.old.memo['chol3'], gsum(run, LL(L)))))]
    def cpost(c):
        run = c.run; m, l = A(c, 0), A(c, 1); n = m.R; s = gsum(run, l)
        sym = FA(2, lambda i, j: z3.Implies(inr(n, i, j), m.at(i, j) == m.at(j, i)), lambda i, j: m.pats(i, j) + m.pats(j, i))
        out = l.wf() + [('dimensions', z3.And(l.R == n, l.C == n))]
        if c.mode == 'verify': out.append(('sums', DEF(s.gap() + [FA(2, lambda i, j: z3.And(*s.unfold(i, j, j)), lambda i, j: [s.at(i, j, n)])])))
        out += [('lower triangular', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), i < j), l.at(i, j) == 0), lambda i, j: l.pats(i, j))),
                ('positive diagonal', FA(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), l.at(i, i) > 0), lambda i: l.pats(i, i))),
                ('L times its transpose is the input (lower triangle)', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), i >= j), s.at(i, j, n) == m.at(i, j)), lambda i, j: [s.at(i, j, n)] + m.pats(i, j)))]
        if c.mode == 'verify':
            run.nfresh += 1; w = z3.Function(f'cw_{run.nfresh}', I, I, I, I); f = s.fs[0]
            def bd(i, j, t):
                x = w(i, j, t)
                return z3.Or(f(i, j, t) == f(j, i, t), z3.And(x >= 0, x < t, s.body(i, j, x) != s.body(j, i, x)))
            out.append(('symmetric sums', DEF([FA(3, bd, lambda i, j, t: [f(i, j, t)])])))
        # a symmetric input is reproduced everywhere
        out.append(('L times its transpose is the input wherever the input is symmetric', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), m.at(i, j) == m.at(j, i)), s.at(i, j, n) == m.at(i, j)), lambda i, j: [s.at(i, j, n)] + m.pats(i, j), hints=lambda i, j: [s.at(j, i, n)])))
        return out
    def cthrow(c, cls):
        if cls != 'NotPositiveDefiniteException': return []
        run = c.run; l, j = c.old.memo['head']; s = gsum(run, l)
        return [('the pivot is not positive', A(c, 0).at(j, j) - s.at(j, j, j) <= 0)] + [(nm + ' (columns before the pivot)', f) for nm, f in chol_facts(run, j, A(c, 0), l, A(c, 0).R)]
    sq = lambda c: A(c, 0).R == A(c, 0).C
    add(f'cholesky({MT}&,{MT}&)', opts=dict(cancel=True), pre=lambda c: A(c, 0).wf() + A(c, 1).wf(), mod=lambda c: [c.a[1]], post=cpost, onthrow=cthrow,
        throws=[('NotSquareException', lambda c: z3.Not(sq(c))), ('InvalidOutputMatrixException', lambda c: z3.And(sq(c), z3.Or(A(c, 0).R != A(c, 1).R, A(c, 0).C != A(c, 1).C))), ('NotPositiveDefiniteException', None)],
        loops=[LoopSpec(c0, var=lambda L: N(L) - L.v('j'), body=c0_body, end=c0_end), LoopSpec(c1, var=lambda L: L.v('j') - L.v('k'), body=c1_body), LoopSpec(c2, var=lambda L: L.v('j') - L.v('i')),
               LoopSpec(c3, var=lambda L: N(L) - L.v('i'), end=c3_end), LoopSpec(c4, var=lambda L: L.v('j') - L.v('k'), body=c4_body)])


# ------------------------------------------------------------------ inverse from factors
def ysum(run, l, u, x, n):
    """(upper triangle of U) X =: Y as a function, and SUM(p,c,t): first t terms of row p of L against column c of Y"""
    su = lusum(run, u, x)
    y = lambda t, c: su.at(t, c, n) - su.at(t, c, t)
    sy = getsum(run, 'ysum', l.ids() + u.ids() + x.ids(), lambda: Sum(run, 'LYM', lambda p, c, t: mkrmul(l.at(p, t), y(t, c)), 2))
    return su, y, sy


def congr2r(run, s, o):
    """lemma 'sums' (range congruence, two parameters)"""
    f, g = s.fs[0], o.fs[0]
    if f.eq(g): return []
    run.nfresh += 1
    w = z3.Function(f'cw_{run.nfresh}', I, I, I, I, I)
    def bd(i, j, a, b):
        x = w(i, j, a, b)
        return z3.Implies(z3.And(0 <= a, a <= b), z3.Or(f(i, j, b) - f(i, j, a) == g(i, j, b) - g(i, j, a), z3.And(x >= a, x < b, s.body(i, j, x) != o.body(i, j, x))))
    return [FA(4, bd, lambda i, j, a, b: [(f(i, j, a), f(i, j, b)), (g(i, j, a), g(i, j, b))])]


def gapat(s, *ps):
    """lemma 'sums' (gap) for fixed parameters"""
    f, w = s.fs[0], s.ws[0]
    def bd(a, b):
        x = w(*ps, a, b)
        return z3.Implies(z3.And(a >= 0, a <= b), z3.Or(f(*ps, b) == f(*ps, a), z3.And(x >= a, x < b, s.body(*ps, x) != 0)))
    return [FA(2, bd, lambda a, b: [(f(*ps, a), f(*ps, b))])]


def gaprow(s, m, i, *ps):
    """lemma 'sums' (gap) for a product sum over row i of m: zeros of m in the range do not change the sum"""
    f, w = s.fs[0], s.ws[0]
    def bd(a, b):
        x = w(i, *ps, a, b)
        return z3.Implies(z3.And(a >= 0, a <= b), z3.Or(f(i, *ps, b) == f(i, *ps, a), z3.And(x >= a, x < b, m.at(i, x) != 0)))
    return [FA(2, bd, lambda a, b: [(f(i, *ps, a), f(i, *ps, b))])]


def gapz(s, m, k, i):
    """lemma 'sums' (gap) for the off-diagonal sum over row i of m"""
    f, w = s.fs[0], s.ws[0]
    def bd(a, b):
        x = w(k, i, a, b)
        return z3.Implies(z3.And(a >= 0, a <= b), z3.Or(f(k, i, b) == f(k, i, a), z3.And(x >= a, x < b, m.at(i, x) != 0)))
    return [FA(2, bd, lambda a, b: [(f(k, i, a), f(k, i, b))])]


def delta(i, j): return z3.If(i == j, z3.RealVal(1), z3.RealVal(0))


def full_products(c, l, u, x, n, su, y, sy, rhs, unit):
    """for triangular factors: L (U X) = right-hand side, with complete products"""
    run = c.run
    s2 = getsum(run, 'lux', l.ids() + u.ids() + x.ids(), lambda: Sum(run, 'LUXM', lambda p, q, t: mkrmul(l.at(p, t), su.at(t, q, n)), 2))
    out = []
    if c.mode == 'verify': out.append(('sums', DEF(su.gap() + s2.gap() + congr2(run, s2, sy) + [FA(2, lambda p, q: z3.And(s2.at(p, q, 0) == 0, sy.at(p, q, 0) == 0, *s2.unfold(p, q, p)), lambda p, q: [s2.at(p, q, n)])])))
    ul = lower(l, n)
    if unit: ul = z3.And(ul, tobool(FA(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), l.at(i, i) == 1), lambda i: l.pats(i, i))))
    return out + [('lower times upper: parts below the diagonal of U vanish', IMP(upper(u, n), FA(2, lambda p, q: z3.Implies(inr(n, p, q), su.at(p, q, p) == 0), lambda p, q: [su.at(p, q, p), su.at(p, q, n)], hints=lambda p, q: [su.at(p, q, 0)]))),
            ('triangular factors: L times (U times the result) is the right-hand side', IMP(z3.And(ul, upper(u, n)), FA(2, lambda p, q: z3.Implies(inr(n, p, q), s2.at(p, q, n) == rhs(p, q)), lambda p, q: [s2.at(p, q, n)])))]


for MT, sparse in (('DenseMatrix<double>', False), (SMT, True)):
    N = lambda L: A(L.c, 0).R
    X = lambda L, pre=False: W(L.run, L.pre.lv(L.lv('Inv')) if pre else L.lv('Inv'))
    def dimx(L): x = X(L); return x.wf() + [('dimensions', z3.And(x.R == N(L), x.C == N(L)))]
    def i0(L):
        run = L.run; l, u, x = A(L.c, 0), A(L.c, 1), X(L); n = N(L); i = L.v('i'); su, y, sy = ysum(run, l, u, x, n)
        return [('range', z3.And(i >= 0, i <= n))] + dimx(L) + [
            ('columns before i are solved', FA(2, lambda p, q: z3.Implies(z3.And(inr(n, p, q), q < i), sy.at(p, q, p) + y(p, q) == delta(p, q)), lambda p, q: x.pats(p, q) + [sy.at(p, q, p)])),
            ('pivots do not vanish once a column is solved', FA(1, lambda p: z3.Implies(z3.And(i > 0, p >= 0, p < n), z3.Not(tiny(u.at(p, p)))), lambda p: u.pats(p, p))),
            ('the other columns are still zero', FA(2, lambda p, q: z3.Implies(z3.And(inr(n, p, q), q >= i), x.at(p, q) == 0), lambda p, q: x.pats(p, q)))]
    def i0_body(L):
        L.c.old.memo['head'] = X(L); return []
    def othercols(L, x, o, i): return ('other columns', FA(2, lambda p, q: z3.Implies(z3.And(x.inr(p, q), q != i), x.at(p, q) == o.at(p, q)), lambda p, q: x.pats(p, q)))
    def fstate(run, l, x, i, lo, hi, n):
        s = lusum(run, l, x)
        return FA(1, lambda p: z3.Implies(z3.And(p >= lo, p < hi), s.at(p, i, p) + x.at(p, i) == delta(p, i)), lambda p: x.pats(p, i) + [s.at(p, i, p)])
    def i1(L, sparse=sparse):       # forward
        run = L.run; l, x, x0 = A(L.c, 0), X(L), X(L, True); n = N(L); i, j = L.v('i'), L.v('j'); s = lusum(run, l, x)
        return [('sums', DEF(s.gap())), ('range', z3.And(i >= 0, i < n, j > i, j <= n))] + dimx(L) + [othercols(L, x, x0, i),
            ('zero above', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < i), x.at(p, i) == 0), lambda p: x.pats(p, i))), ('one on the diagonal', x.at(i, i) == 1),
            ('solved rows', fstate(run, l, x, i, z3.IntVal(0), j, n)),
            ('zero below', FA(1, lambda p: z3.Implies(z3.And(p >= j, p < n), x.at(p, i) == 0), lambda p: x.pats(p, i)))]
    def i1_body(L):
        L.c.old.memo['fh'] = lusum(L.run, A(L.c, 0), X(L)); return []
    def i1_end(L):
        return [('sums', DEF(congr2(L.run, L.c.old.memo['fh'], lusum(L.run, A(L.c, 0), X(L)))))]
    def i2(L, sparse=sparse):
        run = L.run; l, x, x0 = A(L.c, 0), X(L), X(L, True); i, j = L.v('i'), L.v('j'); s = lusum(run, l, x0); k = col(run, L.lv('it'))
        return it_row(run, L.lv('it'), l, j) + [('gaps', DEF(s.gap() + s.unfold(j, i, k)))] + dimx(L) + [
            ('cell reduced by the finished part of the row', FA(2, lambda p, q: z3.Implies(x.inr(p, q), x.at(p, q) == z3.If(z3.And(p == j, q == i), -s.at(j, i, mn(k, j)), x0.at(p, q))), lambda p, q: x.pats(p, q)))]
    def i3(L):       # backward
        run = L.run; u, x, x0 = A(L.c, 1), X(L), X(L, True); n = N(L); i, j = L.v('i'), L.v('j'); s = lusum(run, u, x)
        L.c.old.memo['fwd'] = x0
        return [('range', z3.And(j >= 0, j < n))] + [('forward result', fstate(run, A(L.c, 0), x0, i, z3.IntVal(0), n, n))] + dimx(L) + [othercols(L, x, x0, i),
            ('rows after j are solved', FA(1, lambda p: z3.Implies(z3.And(p > j, p < n), z3.And(s.at(p, i, n) - s.at(p, i, p) == x0.at(p, i), z3.Not(tiny(u.at(p, p))))), lambda p: x.pats(p, i) + u.pats(p, p) + [s.at(p, i, p)])),
            ('the other cells of the column', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p <= j), x.at(p, i) == x0.at(p, i)), lambda p: x.pats(p, i)))]
    def i3_body(L):
        L.c.old.memo['bh'] = lusum(L.run, A(L.c, 1), X(L)); L.c.old.memo['pivot'] = L.v('j'); return []
    def i3_end(L):
        run = L.run; s = lusum(run, A(L.c, 1), X(L)); j, i = L.v('j') + 1, L.v('i')
        return [('sums', DEF(congr2r(run, L.c.old.memo['bh'], s) + s.unfold(j, i, j)))]
    def i4(L):
        run = L.run; u, x, x0 = A(L.c, 1), X(L), X(L, True); i, j = L.v('i'), L.v('j'); s = lusum(run, u, x0); k = col(run, L.lv('it'))
        return it_row(run, L.lv('it'), u, j) + [('gaps', DEF((gapat(s, j, i) if u.sparse else []) + s.unfold(j, i, k)))] + dimx(L) + [
            ('other cells', FA(2, lambda p, q: z3.Implies(z3.And(x.inr(p, q), z3.Or(p != j, q != i)), x.at(p, q) == x0.at(p, q)), lambda p, q: x.pats(p, q))),
            ('cell untouched up to the diagonal', z3.Implies(k <= j + 1, x.at(j, i) == x0.at(j, i))),
            ('cell reduced by the finished part of the row', z3.Implies(k >= j + 1, x.at(j, i) == x0.at(j, i) - (s.at(j, i, k) - s.at(j, i, j + 1))))]
    def i0_end(L):
        run = L.run; l, u, x = A(L.c, 0), A(L.c, 1), X(L); n = N(L); i = L.v('i') - 1; h = L.c.old.memo['head']; fwd = L.c.old.memo['fwd']
        su0, y0, sy0 = ysum(run, l, u, h, n); su, y, sy = ysum(run, l, u, x, n); sf = lusum(run, l, fwd); j = L.c.old.memo['pivot']
        yi = FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), y(p, i) == fwd.at(p, i)), lambda p: fwd.pats(p, i) + [su.at(p, i, p)])
        # the last row (left by break) and congruence of the sums
        return [('sums', DEF(congr2r(run, L.c.old.memo['bh'], su) + su.unfold(j, i, j))), ('last row of the column', su.at(j, i, n) - su.at(j, i, j) == fwd.at(j, i)), ('upper triangle of U times the column is the forward result', yi),
                ('sums of the other columns', DEF(congr2(run, su0, su))),
                ('sums (column)', DEF(congr2(run, sf, sy) + congr2(run, sy0, sy)))]
    def ipost(c):
        run = c.run; l, u, x = A(c, 0), A(c, 1), W(run, c.ret); n = l.R; su, y, sy = ysum(run, l, u, x, n)
        return x.wf() + [('dimensions', z3.And(x.R == n, x.C == n)),
                ('unit lower triangle of L times (upper triangle of U times the result) is the identity', FA(2, lambda p, q: z3.Implies(inr(n, p, q), sy.at(p, q, p) + y(p, q) == delta(p, q)), lambda p, q: x.pats(p, q) + [sy.at(p, q, p), su.at(p, q, p)]))] + full_products(c, l, u, x, n, su, y, sy, delta, True)
    def ising(c):
        l, u = A(c, 0), A(c, 1)
        return EX(1, lambda i: z3.And(l.R == l.C, u.R == u.C, l.R == u.R, i >= 0, i < l.R, tiny(u.at(i, i))), pats=lambda i: u.pats(i, i), wit=[(c.memo['pivot'],)] if 'pivot' in c.memo else None)
    add(f'inverse({MT}&,{MT}&)', opts=dict(cancel=True, **(SP.seq() if sparse else {})), pre=lambda c: A(c, 0).wf() + A(c, 1).wf() + [('not empty', A(c, 0).R > 0)], post=ipost,
        throws=[('NotSquareException', lambda c: z3.Or(A(c, 0).R != A(c, 0).C, A(c, 1).R != A(c, 1).C)), ('MatrixSizeMismatchException', lambda c: z3.And(A(c, 0).R == A(c, 0).C, A(c, 1).R == A(c, 1).C, A(c, 0).R != A(c, 1).R)), ('SingularException', ising)],
        loops=[LoopSpec(i0, var=lambda L: N(L) - L.v('i'), body=i0_body, end=i0_end), LoopSpec(i1, var=lambda L: N(L) - L.v('j'), body=i1_body, end=i1_end), LoopSpec(i2, var=lambda L: N(L) - col(L.run, L.lv('it'))),
               LoopSpec(i3, var=lambda L: L.v('j'), body=i3_body, end=i3_end), LoopSpec(i4, var=lambda L: N(L) - col(L.run, L.lv('it')))])


# ------------------------------------------------------------------ inverse from factors and a permutation
def congrc(run, sv, sm, q):
    """lemma 'sums': a one-parameter sum equals column q of a two-parameter sum with equal terms"""
    run.nfresh += 1
    f, g = sv.fs[0], sm.fs[0]; w = z3.Function(f'cw_{run.nfresh}', I, I, I)
    def bd(p, t):
        x = w(p, t)
        return z3.Or(f(p, t) == g(p, q, t), z3.And(x >= 0, x < t, sv.body(p, x) != sm.body(p, q, x)))
    return [FA(2, bd, lambda p, t: [f(p, t), g(p, q, t)])]


def lastsum(run, *keys):
    out = None
    for k, s in run.ghosts.items():
        if isinstance(k, tuple) and k[0] == 'SUM' and k[1] in keys: out = s
    if out is None: raise Unsupported('no such product on this path')
    return out


for MT, sparse in (('DenseMatrix<double>', False), (SMT, True)):
    N = lambda L: A(L.c, 0).R
    X = lambda L, pre=False: W(L.run, L.pre.lv(L.lv('Inv')) if pre else L.lv('Inv'))
    def dimx(L): x = X(L); return x.wf() + [('dimensions', z3.And(x.R == N(L), x.C == N(L)))]
    def notiny(l, u, p): return z3.And(z3.Not(tiny(u.at(p, p))), z3.Not(tiny(l.at(p, p))))
    def q0(L):
        run = L.run; l, u, P_, x = A(L.c, 0), A(L.c, 1), A(L.c, 2), X(L); n = N(L); i = L.v('i'); su, y, sy = ysum(run, l, u, x, n); b = V.D(run, L.lv('b')); xv = V.D(run, L.lv('x'))
        return [('range', z3.And(i >= 0, i <= n)), ('length', z3.And(b.n == n, xv.n == n)), ('unit vector is reset', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), b.at(p) == 0), lambda p: b.pats(p)))] + dimx(L) + [
            ('columns before i are solved', FA(2, lambda p, q: z3.Implies(z3.And(inr(n, p, q), q < i), sy.at(p, q, p) + mkrmul(l.at(p, p), y(p, q)) == P_.at(p, q)), lambda p, q: x.pats(p, q) + [sy.at(p, q, p)])),
            ('pivots do not vanish once a column is solved', FA(1, lambda p: z3.Implies(z3.And(i > 0, p >= 0, p < n), notiny(l, u, p)), lambda p: u.pats(p, p) + l.pats(p, p)))]
    def q0_body(L):
        L.c.old.memo['head'] = X(L); return []
    def q1(L):
        x, x0 = X(L), X(L, True); i, j = L.v('i'), L.v('j'); n = N(L); xv = V.D(L.run, L.lv('x'))
        L.c.old.memo['xv'] = xv
        return [('range', z3.And(j >= 0, j <= n)), ('length', xv.n == n)] + dimx(L) + [('cells of the column so far', FA(2, lambda p, q: z3.Implies(x.inr(p, q), x.at(p, q) == z3.If(z3.And(q == i, p < j), xv.at(p), x0.at(p, q))), lambda p, q: x.pats(p, q)))]
    def q0_end(L):
        run = L.run; l, u, P_, x = A(L.c, 0), A(L.c, 1), A(L.c, 2), X(L); n = N(L); i = L.v('i') - 1; h = L.c.old.memo['head']
        su, y, sy = ysum(run, l, u, x, n); su0, y0, sy0 = ysum(run, l, u, h, n); suv, syv, xr = run.ghosts['lastsolve']; mv = lastsum(run, 'matvec', 'smv')
        inq = lambda p: z3.And(p >= 0, p < n)
        return [('sums', DEF(mv.gap() + [FA(1, lambda p: z3.And(mv.at(p, 0) == 0, *mv.unfold(p, i)), lambda p: [mv.at(p, n)])])),
                ('P times the unit vector is column i of P', FA(1, lambda p: z3.Implies(inq(p), mv.at(p, n) == P_.at(p, i)), lambda p: [mv.at(p, n)] + P_.pats(p, i), hints=lambda p: [mv.at(p, i), mv.at(p, i + 1)])),
                ('solution is column i of the result', FA(1, lambda p: z3.Implies(inq(p), x.at(p, i) == xr.at(p)), lambda p: x.pats(p, i) + xr.pats(p))),
                ('sums (2)', DEF(congrc(run, suv, su, i))),
                ('sums (3)', DEF(congrc(run, syv, sy, i))),
                ('sums of the other columns', DEF(congr2(run, su0, su))),
                ('sums of the other columns (2)', DEF(congr2(run, sy0, sy)))]
    def qpost(c):
        run = c.run; l, u, P_, x = A(c, 0), A(c, 1), A(c, 2), W(run, c.ret); n = l.R; su, y, sy = ysum(run, l, u, x, n)
        return x.wf() + [('dimensions', z3.And(x.R == n, x.C == n)),
                ('lower triangle of L times (upper triangle of U times the result) is P', FA(2, lambda p, q: z3.Implies(inr(n, p, q), sy.at(p, q, p) + mkrmul(l.at(p, p), y(p, q)) == P_.at(p, q)), lambda p, q: x.pats(p, q) + [sy.at(p, q, p), su.at(p, q, p)]))] + full_products(c, l, u, x, n, su, y, sy, P_.at, False)
    def qsing(c):
        l, u, P_ = A(c, 0), A(c, 1), A(c, 2)
        return EX(1, lambda i: z3.And(l.R == l.C, u.R == u.C, P_.R == P_.C, l.R == u.R, P_.R == u.R, i >= 0, i < l.R, z3.Not(notiny(l, u, i))), pats=lambda i: u.pats(i, i) + l.pats(i, i))
    sqs = lambda c: z3.And(A(c, 0).R == A(c, 0).C, A(c, 1).R == A(c, 1).C, A(c, 2).R == A(c, 2).C)
    add(f'inverse({MT}&,{MT}&,{MT}&)', opts=dict(cancel=True, **(SP.seq() if sparse else {})), pre=lambda c: A(c, 0).wf() + A(c, 1).wf() + A(c, 2).wf() + [('not empty', z3.And(A(c, 0).R > 0, A(c, 0).C > 0, A(c, 2).R > 0, A(c, 2).C > 0))], post=qpost,
        throws=[('NotSquareException', lambda c: z3.Not(sqs(c))), ('MatrixSizeMismatchException', lambda c: z3.And(sqs(c), z3.Or(A(c, 0).R != A(c, 1).R, A(c, 2).R != A(c, 1).R))), ('SingularException', qsing)],
        loops=[LoopSpec(q0, var=lambda L: N(L) - L.v('i'), body=q0_body, end=q0_end), LoopSpec(q1, var=lambda L: N(L) - L.v('j'))])


# ------------------------------------------------------------------ inverse
def assoc(run, s, su, s2, x, n):
    """lemma 'assoc': (L U) X = L (U X); returns the sum of (L U)(i,t) X(t,j) and the fact"""
    s3 = Sum(run, 'LU_X', lambda i, j, t: mkrmul(s.at(i, t, n), x.at(t, j)), 2)
    return s3, FA(2, lambda i, j: z3.Implies(inr(n, i, j), s3.at(i, j, n) == s2.at(i, j, n)), lambda i, j: [s3.at(i, j, n)])


def surj(run, pi, n):
    """lemma 'surj': a table of n entries in range without repetition reaches every index"""
    run.nfresh += 1; f = z3.Function(f'inv_{run.nfresh}', I, I)
    return f, FA(1, lambda r: z3.Implies(z3.And(r >= 0, r < n), z3.And(f(r) >= 0, f(r) < n, pi(f(r)) == r)), lambda r: [f(r)])


for MT, sparse in (('DenseMatrix<double>', False), (SMT, True)):
    def vpost(c):
        run = c.run; a, x = A(c, 0), W(run, c.ret); n = a.R
        ai = getsum(run, 'ainv', a.ids() + x.ids(), lambda: Sum(run, 'AINV', lambda i, j, t: mkrmul(a.at(i, t), x.at(t, j)), 2))
        out = x.wf() + [('dimensions', z3.And(x.R == n, x.C == n))]
        if c.mode == 'verify':
            arr = run.ghosts['lastlu'][1]; pi = lambda i: sel(arr, i)
            l, u = W(run, c.local('L')), W(run, c.local('U')); s = lusum(run, l, u); su, y, sy = ysum(run, l, u, x, n)
            s2 = getsum(run, 'lux', l.ids() + u.ids() + x.ids(), lambda: Unsupported('products'))
            s3, fact = assoc(run, s, su, s2, x, n); iv, sj = surj(run, pi, n)
            run.nfresh += 1; w = z3.Function(f'cw_{run.nfresh}', I, I, I)
            def bd(i, j):
                t = w(i, j)
                return z3.Or(ai.at(pi(i), j, n) == s3.at(i, j, n), z3.And(t >= 0, t < n, ai.body(pi(i), j, t) != s3.body(i, j, t)))
            out.append(('L times U is defined on the table', DEF([fact, sj, FA(2, bd, lambda i, j: [s3.at(i, j, n)])])))
            out.append(('row i of L times U times the result is row i of P', FA(2, lambda i, j: z3.Implies(inr(n, i, j), s3.at(i, j, n) == z3.If(j == pi(i), z3.RealVal(1), z3.RealVal(0))), lambda i, j: [s3.at(i, j, n)])))
            out.append(('row pi(i) of the input times the result', FA(2, lambda i, j: z3.Implies(inr(n, i, j), ai.at(pi(i), j, n) == z3.If(j == pi(i), z3.RealVal(1), z3.RealVal(0))), lambda i, j: [ai.at(pi(i), j, n)], hints=lambda i, j: [s3.at(i, j, n)])))
            out.append(('the input times the result is the identity', FA(2, lambda r, j: z3.Implies(inr(n, r, j), ai.at(r, j, n) == delta(r, j)), lambda r, j: [ai.at(r, j, n)], hints=lambda r, j: [iv(r), ai.at(pi(iv(r)), j, n)])))
        else:
            out.append(('the input times the result is the identity', FA(2, lambda r, j: z3.Implies(inr(n, r, j), ai.at(r, j, n) == delta(r, j)), lambda r, j: [ai.at(r, j, n)])))
        return out
    add(f'inverse({MT}&)', opts=dict(SP.seq() if sparse else {}), pre=lambda c: A(c, 0).wf() + [('not empty', z3.And(A(c, 0).R > 0, A(c, 0).C > 0))], post=vpost,
        throws=[('NotSquareException', lambda c: A(c, 0).R != A(c, 0).C), ('SingularException', None)])


# ------------------------------------------------------------------ approximate inverses of triangular factors
def only(x, o, k): return ('other columns', FA(2, lambda p, q: z3.Implies(z3.And(x.inr(p, q), q != k), x.at(p, q) == o.at(p, q)), lambda p, q: x.pats(p, q)))


for MT, sparse in (('DenseMatrix<double>', False), (SMT, True)):
    N = lambda L: A(L.c, 0).R
    XL = lambda L, pre=False: W(L.run, L.pre.lv(L.lv('invL')) if pre else L.lv('invL'))
    XU = lambda L, pre=False: W(L.run, L.pre.lv(L.lv('invU')) if pre else L.lv('invU'))
    def dims2(L):
        x, y = XL(L), XU(L); n = N(L)
        return x.wf() + y.wf() + [('dimensions', z3.And(x.R == n, x.C == n, y.R == n, y.C == n))]
    def dl(L):
        x = XL(L); return x.wf() + [('dimensions', z3.And(x.R == N(L), x.C == N(L)))]
    def du(L):
        x = XU(L); return x.wf() + [('dimensions', z3.And(x.R == N(L), x.C == N(L)))]
    def colsL(run, l, x, n, k): 
        s = lusum(run, l, x)
        return ('columns before k of the inverse of L', FA(2, lambda p, q: z3.Implies(z3.And(inr(n, p, q), q < k), s.at(p, q, p) + x.at(p, q) == delta(p, q)), lambda p, q: x.pats(p, q) + [s.at(p, q, p)]))
    def colsU(run, u, x, n, k):
        s = lusum(run, u, x)
        return ('columns before k of the inverse of U', FA(2, lambda p, q: z3.Implies(z3.And(inr(n, p, q), q < k), s.at(p, q, n) - s.at(p, q, p) == delta(p, q)), lambda p, q: x.pats(p, q) + [s.at(p, q, p)]))
    def pivs(u, k): return ('pivots before k do not vanish', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < k), z3.Not(tiny(u.at(p, p)))), lambda p: u.pats(p, p)))
    def a0(L):
        run = L.run; l, u, x, y = A(L.c, 0), A(L.c, 1), XL(L), XU(L); n = N(L); k = L.v('k')
        return [('range', z3.And(k >= 0, k <= n))] + dims2(L) + [colsL(run, l, x, n, k), colsU(run, u, y, n, k), pivs(u, k)]
    def a0_body(L):
        L.c.old.memo['hl'], L.c.old.memo['hu'] = lusum(L.run, A(L.c, 0), XL(L)), lusum(L.run, A(L.c, 1), XU(L)); return []
    def a1(L):
        x, x0 = XL(L), XL(L, True); i, k = L.v('i'), L.v('k')
        return [('range', z3.And(i >= 0, i <= k))] + dl(L) + [only(x, x0, k), ('zero above', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < i), x.at(p, k) == 0), lambda p: x.pats(p, k)))]
    def a2(L):
        run = L.run; l, x, x0 = A(L.c, 0), XL(L), XL(L, True); n = N(L); i, k = L.v('i'), L.v('k'); s = lusum(run, l, x)
        return [('sums', DEF(s.gap())), ('range', z3.And(k >= 0, k < n, i > k, i <= n))] + dl(L) + [only(x, x0, k),
            ('zero above', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < k), x.at(p, k) == 0), lambda p: x.pats(p, k))), ('one on the diagonal', x.at(k, k) == 1),
            ('solved rows', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < i), s.at(p, k, p) + x.at(p, k) == delta(p, k)), lambda p: x.pats(p, k) + [s.at(p, k, p)]))]
    def a2_body(L):
        L.c.old.memo['fh'] = lusum(L.run, A(L.c, 0), XL(L)); return []
    def a2_end(L): return [('sums', DEF(congr2(L.run, L.c.old.memo['fh'], lusum(L.run, A(L.c, 0), XL(L)))))]
    def a3(L):
        run = L.run; l, x = A(L.c, 0), XL(L); i, k = L.v('i'), L.v('k'); s = lusum(run, l, x); c = col(run, L.lv('it'))
        return it_row(run, L.lv('it'), l, i) + [('gaps', DEF(gapat(s, i, k) + [s.at(i, k, 0) == 0])), ('nothing yet', z3.Implies(c <= i, s.at(i, k, c) == 0)), ('nothing at all', z3.Implies(c >= i, s.at(i, k, i) == 0))]
    def a4(L):
        run = L.run; l, x = A(L.c, 0), XL(L); i, k = L.v('i'), L.v('k'); s = lusum(run, l, x); c = col(run, L.lv('it'))
        return it_row(run, L.lv('it'), l, i) + [('gaps', DEF((gaprow(s, l, i, k) if l.sparse else []) + s.unfold(i, k, c))), ('partial sum', z3.Implies(c <= i, L.v('m') == -s.at(i, k, c))), ('complete sum', z3.Implies(c >= i, L.v('m') == -s.at(i, k, i)))]
    def a5(L):
        x, x0 = XU(L), XU(L, True); i, k = L.v('i'), L.v('k')
        return [('range', z3.And(k >= 0, k < N(L), i > k, i <= N(L)))] + du(L) + [only(x, x0, k), ('zero below', FA(1, lambda p: z3.Implies(z3.And(p > k, p < i), x.at(p, k) == 0), lambda p: x.pats(p, k)))]
    def gapcol(s, k):
        f, w = s.fs[0], s.ws[0]
        def bd(p, a, b):
            x = w(p, k, a, b)
            return z3.Implies(z3.And(a >= 0, a <= b), z3.Or(f(p, k, b) == f(p, k, a), z3.And(x >= a, x < b, s.body(p, k, x) != 0)))
        return [FA(3, bd, lambda p, a, b: [(f(p, k, a), f(p, k, b))])]
    def a6(L):
        run = L.run; u, x, x0 = A(L.c, 1), XU(L), XU(L, True); n = N(L); i, k = L.v('i'), L.v('k'); s = lusum(run, u, x)
        return [('sums', DEF(gapcol(s, k))), ('range', z3.And(k >= 0, k < n, i >= 0, i <= k))] + du(L) + [only(x, x0, k),
            ('zero below', FA(1, lambda p: z3.Implies(z3.And(p > k, p < n), x.at(p, k) == 0), lambda p: x.pats(p, k))),
            ('solved rows', FA(1, lambda p: z3.Implies(z3.And(p > i, p < n), z3.And(s.at(p, k, n) - s.at(p, k, p) == delta(p, k), z3.Or(p > k, z3.Not(tiny(u.at(p, p)))))), lambda p: x.pats(p, k) + u.pats(p, p) + [s.at(p, k, p)]))]
    def a6_body(L):
        L.c.old.memo['bh'] = lusum(L.run, A(L.c, 1), XU(L)); L.c.old.memo['pivot'] = L.v('i'); return []
    def a6_end(L):
        run = L.run; s = lusum(run, A(L.c, 1), XU(L)); i, k = L.v('i') + 1, L.v('k')
        n = N(L); h = L.c.old.memo['bh']
        return [('sums', DEF(congr2r(run, h, s) + s.unfold(i, k, i))), ('this row', s.at(i, k, n) - s.at(i, k, i) == delta(i, k)),
                ('rows after it', FA(1, lambda p: z3.Implies(z3.And(p > i, p < n), s.at(p, k, n) - s.at(p, k, p) == h.at(p, k, n) - h.at(p, k, p)), lambda p: [s.at(p, k, p)]))]
    def a7(L):
        run = L.run; u, x = A(L.c, 1), XU(L); i, k = L.v('i'), L.v('k'); s = lusum(run, u, x); c = col(run, L.lv('it'))
        return it_row(run, L.lv('it'), u, i) + [('gaps', DEF(gaprow(s, u, i, k))), ('nothing skipped behind the diagonal', s.at(i, k, mx(c, i + 1)) == s.at(i, k, i + 1))]
    def a8(L):
        run = L.run; u, x = A(L.c, 1), XU(L); i, k = L.v('i'), L.v('k'); s = lusum(run, u, x); c = col(run, L.lv('it'))
        return it_row(run, L.lv('it'), u, i) + [('gaps', DEF(gaprow(s, u, i, k) + s.unfold(i, k, c))), ('behind the diagonal', c >= i + 1), ('partial sum', L.v('m') == delta(i, k) - (s.at(i, k, c) - s.at(i, k, i + 1)))]
    def a48_body(L):
        L.c.old.memo['c0'] = col(L.run, L.lv('it')); return []
    def a4_end(L):
        run = L.run; s = lusum(run, A(L.c, 0), XL(L)); i, k = L.v('i'), L.v('k'); c0, c = L.c.old.memo['c0'], col(run, L.lv('it'))
        return [('only one stored cell in the step', s.at(i, k, mn(c, i)) == s.at(i, k, c0 + 1))]
    def a8_end(L):
        run = L.run; s = lusum(run, A(L.c, 1), XU(L)); i, k = L.v('i'), L.v('k'); c0, c = L.c.old.memo['c0'], col(run, L.lv('it'))
        return [('only one stored cell in the step', s.at(i, k, c) == s.at(i, k, c0 + 1))]
    def a0_end(L):
        run = L.run; l, u, x, y = A(L.c, 0), A(L.c, 1), XL(L), XU(L); n = N(L); k = L.v('k') - 1; j = L.c.old.memo['pivot']; sl, su = lusum(run, l, x), lusum(run, u, y)
        return [('sums', DEF(congr2r(run, L.c.old.memo['bh'], su) + su.unfold(j, k, j))), ('first row of the column', su.at(j, k, n) - su.at(j, k, j) == delta(j, k)),
                ('column of the inverse of U', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < n), su.at(p, k, n) - su.at(p, k, p) == delta(p, k)), lambda p: [su.at(p, k, p)])),
                ('sums of the other columns', DEF(congr2(run, L.c.old.memo['hl'], sl) + congr2(run, L.c.old.memo['hu'], su) + (congr2(run, L.c.old.memo['fh'], sl) if 'fh' in L.c.old.memo else [])))]
    def apost(c):
        run = c.run; l, u, x, y = (A(c, i) for i in range(4)); n = l.R; sl, su = lusum(run, l, x), lusum(run, u, y)
        out = x.wf() + y.wf() + [('dimensions', z3.And(x.R == n, x.C == n, y.R == n, y.C == n)), ('unit lower triangle of L times its inverse', colsL(run, l, x, n, n)[1]), ('upper triangle of U times its inverse', colsU(run, u, y, n, n)[1]), pivs(u, n)]
        if c.mode == 'verify': out.append(('sums', DEF(sl.gap() + su.gap() + [FA(2, lambda p, q: z3.And(sl.at(p, q, 0) == 0, *sl.unfold(p, q, p)), lambda p, q: [sl.at(p, q, n)])])))
        unit = z3.And(lower(l, n), tobool(FA(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), l.at(i, i) == 1), lambda i: l.pats(i, i))))
        out += [('unit lower triangular L: L times its inverse is the identity', IMP(unit, FA(2, lambda p, q: z3.Implies(inr(n, p, q), sl.at(p, q, n) == delta(p, q)), lambda p, q: [sl.at(p, q, n)], hints=lambda p, q: [sl.at(p, q, p), sl.at(p, q, p + 1)]))),
                ('upper triangular U: U times its inverse is the identity', IMP(upper(u, n), FA(2, lambda p, q: z3.Implies(inr(n, p, q), su.at(p, q, n) == delta(p, q)), lambda p, q: [su.at(p, q, n)], hints=lambda p, q: [su.at(p, q, 0), su.at(p, q, p)])))]
        return out
    sqs4 = lambda c: z3.And(*[A(c, i).R == A(c, i).C for i in range(4)])
    szs4 = lambda c: z3.And(*[A(c, i).R == A(c, 0).R for i in range(1, 4)])
    def asing(c):
        l, u = A(c, 0), A(c, 1)
        return EX(1, lambda i: z3.And(sqs4(c), szs4(c), i >= 0, i < l.R, tiny(u.at(i, i))), pats=lambda i: u.pats(i, i), wit=[(c.memo['pivot'],)] if 'pivot' in c.memo else None)
    add(f'ainv_lu({MT}&,{MT}&,{MT}&,{MT}&)', opts=dict(cancel=True, **(SP.seq() if sparse else {})), pre=lambda c: A(c, 0).wf() + A(c, 1).wf() + A(c, 2).wf() + A(c, 3).wf(), mod=lambda c: [c.a[2], c.a[3]], post=apost,
        throws=[('NotSquareException', lambda c: z3.Not(sqs4(c))), ('MatrixSizeMismatchException', lambda c: z3.And(sqs4(c), z3.Not(szs4(c)))), ('SingularException', asing)],
        loops=[LoopSpec(a0, var=lambda L: N(L) - L.v('k'), body=a0_body, end=a0_end), LoopSpec(a1, var=lambda L: L.v('k') - L.v('i')), LoopSpec(a2, var=lambda L: N(L) - L.v('i'), body=a2_body, end=a2_end),
               LoopSpec(a3, var=lambda L: N(L) - col(L.run, L.lv('it'))), LoopSpec(a4, var=lambda L: N(L) - col(L.run, L.lv('it')), body=a48_body, end=a4_end), LoopSpec(a5, var=lambda L: N(L) - L.v('i')),
               LoopSpec(a6, var=lambda L: L.v('i'), body=a6_body, end=a6_end), LoopSpec(a7, var=lambda L: N(L) - col(L.run, L.lv('it'))), LoopSpec(a8, var=lambda L: N(L) - col(L.run, L.lv('it')), body=a48_body, end=a8_end)])


# ------------------------------------------------------------------ Jacobi and relaxation
def iterates(run, a, b, x0, sor, w):
    """XI(k,i): component i of the k-th iterate of the method, by its defining recursion; OFF(k,i,t): off-diagonal part of row i below column t; CHG(k,t): squared change of step k below component t"""
    def mk():
        run.nfresh += 1
        XI = z3.Function(f'iterate_{run.nfresh}', I, I, R)
        src = lambda k, i, j: z3.If(j < i, XI(k + 1, j), XI(k, j)) if sor else XI(k, j)
        off = Sum(run, 'OFF', lambda k, i, j: z3.If(j == i, z3.RealVal(0), mkrmul(a.at(i, j), src(k, i, j))), 2)
        chg = Sum(run, 'CHG', lambda k, i: mkrmul(XI(k + 1, i) - XI(k, i), XI(k + 1, i) - XI(k, i), True), 1)
        return XI, off, chg
    return getsum(run, f'iter{sor}', a.ids() + b.ids() + x0.ids(), mk)


def step_def(run, XI, off, a, b, w, k, sor):
    n = a.R
    def d(i):
        q = mkrmul(b.at(i) - off.at(k, i, n), rinv(a.at(i, i)))
        return XI(k + 1, i) == (mkrmul(z3.RealVal(1) - w, XI(k, i)) + mkrmul(w, q) if sor else q)
    return FA(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), d(i)), lambda i: [XI(k + 1, i), off.at(k, i, n)])


for MT, sparse in (('DenseMatrix<double>', False), (SMT, True)):
    for sor in (False, True):
        def parts(c, sor=sor):
            a, b, x0 = A(c, 0), VEC(c, 1), VEC(c, 2); w = c.v(3) if sor else None
            return (a, b, x0, w) + iterates(c.run, a, b, x0, sor, w)
        VV = lambda L, nm: V.D(L.run, L.lv(nm))
        inn = lambda n, i: z3.And(i >= 0, i < n)
        def j0(L, sor=sor, parts=parts):
            a, b, x0, w, XI, off, chg = parts(L.c); x, xm = VV(L, 'x'), VV(L, 'xm'); n = a.R; it = L.v('it')
            out = [('start', DEF([FA(1, lambda i: z3.Implies(inn(n, i), XI(0, i) == x0.at(i)), lambda i: [XI(0, i)] + x0.pats(i))])),
                   ('range', z3.And(it >= 0, it <= L.c.v(4 if sor else 3))), ('length', z3.And(x.n == n, xm.n == n)),
                   ('x is the iterate', FA(1, lambda i: z3.Implies(inn(n, i), x.at(i) == XI(it, i)), lambda i: x.pats(i) + [XI(it, i)]))]
            if sor: out.append(('xm is the iterate', FA(1, lambda i: z3.Implies(inn(n, i), xm.at(i) == XI(it, i)), lambda i: xm.pats(i) + [XI(it, i)])))
            run = L.run
            out.append(('the earlier steps changed more than the tolerance', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < it), chg.at(k, n) > eps2(L.c, sor)), lambda k: [chg.at(k, n)])))
            return out
        def eps2(c, sor): e = c.v(5 if sor else 4); return mkrmul(e, e)
        def j0_body(L, sor=sor, parts=parts):
            a, b, x0, w, XI, off, chg = parts(L.c); it = L.v('it'); L.c.old.memo['it'] = it
            return [step_def(L.run, XI, off, a, b, w, it, sor)]
        def j1(L, sor=sor, parts=parts):
            a, b, x0, w, XI, off, chg = parts(L.c); x, xm = VV(L, 'x'), VV(L, 'xm'); n = a.R; it, i = L.v('it'), L.v('i')
            val = (lambda p: z3.If(p < i, XI(it + 1, p), XI(it, p))) if sor else None
            return [('range', z3.And(i >= 0, i <= n)), ('length', z3.And(xm.n == n)),
                    ('finished components of the next iterate', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < i), xm.at(p) == XI(it + 1, p)), lambda p: xm.pats(p) + [XI(it + 1, p)]))] + (
                    [('components not reached yet', FA(1, lambda p: z3.Implies(z3.And(p >= i, p < n), xm.at(p) == XI(it, p)), lambda p: xm.pats(p) + [XI(it, p)]))] if sor else [])
        def j2(L, sor=sor, parts=parts):
            run = L.run; a, b, x0, w, XI, off, chg = parts(L.c); n = a.R; it, i = L.v('it'), L.v('i'); c = col(run, L.lv('rit'))
            return it_row(run, L.lv('rit'), a, i) + [('gaps', DEF((gapz(off, a, it, i) if a.sparse else []) + [off.at(it, i, 0) == 0] + off.unfold(it, i, c))),
                    ('off-diagonal part so far', L.v('t') == off.at(it, i, c)), ('diagonal entry', L.v('mid') == z3.If(c > i, a.at(i, i), z3.RealVal(0)))]
        def j3(L, sor=sor, parts=parts):
            a, b, x0, w, XI, off, chg = parts(L.c); n = a.R; it, i = L.v('it'), L.v('i')
            return [('range', z3.And(i >= 0, i <= n)), ('change', DEF([chg.at(it, 0) == 0] + chg.unfold(it, i))), ('squared change so far', L.v('conv') == chg.at(it, i))]
        def jpost(c, sor=sor, parts=parts):
            run = c.run
            if c.mode != 'verify': return [('length', V.D(run, c.ret).n == A(c, 0).R)]
            a, b, x0, w, XI, off, chg = parts(c); n = a.R; r = V.D(run, c.ret); lim = c.v(4 if sor else 3); it = c.old.memo.get('it')
            K = lim if it is None else it + 1
            x = c.a[-1]; pv = run.load(x) if isinstance(x, LV) else x
            out = [('length', r.n == n), ('the result is the iterate of the last step', FA(1, lambda i: z3.Implies(inn(n, i), r.at(i) == XI(K, i)), lambda i: r.pats(i) + [XI(K, i)])),
                   ('at most the allowed number of steps', z3.And(K >= 0, K <= lim)),
                   ('the steps before the last changed more than the tolerance', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < K - 1), chg.at(k, n) > eps2(c, sor)), lambda k: [chg.at(k, n)]))]
            if it is not None: out.append(('the last change is a number within the tolerance', z3.And(chg.at(it, n) <= eps2(c, sor), z3.Not(isnan(chg.at(it, n))), z3.Not(isinf(chg.at(it, n))))))
            if isinstance(pv, PtrVal): out.append(('reported step count', run.load(pv.lv) == K))
            return out
        def jthrow(c, cls, parts=parts):
            if cls != 'MatrixHasZeroInDiagException': return []
            a, b, x0, w, XI, off, chg = parts(c); it = c.old.memo['it']
            return [('the change is not a finite number', z3.Or(isnan(chg.at(it, a.R)), isinf(chg.at(it, a.R))))]
        VDT = 'Vector<double,vector<double>>'
        sqd = lambda c: A(c, 0).R == A(c, 0).C
        def jmod(c):
            x = c.a[-1]; pv = c.run.load(x) if isinstance(x, LV) else x
            return [pv.lv] if isinstance(pv, PtrVal) else []
        last = 6 if sor else 5
        add(f'{"sor" if sor else "jacobi"}({MT}&,{VDT}&,{VDT}&,{"real," if sor else ""}u64,real,u64*)', opts=dict(cancel=False, **(SP.seq() if sparse else {})), alias=[{last: 'ref'}, {last: 'null'}],
            pre=lambda c: A(c, 0).wf(), post=jpost, mod=jmod, onthrow=jthrow,
            throws=[('NotSquareException', lambda c: z3.Not(sqd(c))), ('MatrixVectorMismatchException', lambda c: z3.And(sqd(c), z3.Or(A(c, 0).R != VEC(c, 1).n, A(c, 0).R != VEC(c, 2).n))), ('MatrixHasZeroInDiagException', None)],
            loops=[LoopSpec(j0, var=(lambda L: L.c.v(4) - L.v('it')) if sor else (lambda L: L.c.v(3) - L.v('it')), body=j0_body), LoopSpec(j1, var=lambda L: A(L.c, 0).R - L.v('i')),
                   LoopSpec(j2, var=lambda L: A(L.c, 0).C - col(L.run, L.lv('rit'))), LoopSpec(j3, var=lambda L: A(L.c, 0).R - L.v('i'))])


# ------------------------------------------------------------------ conjugate gradients
from . import dense as _DN, sparse2 as _SP2
VDT = 'Vector<double,vector<double>>'


def matvec(run, m, v):
    """the sum the product contract uses: (i,t) -> first t terms of row i of m times v"""
    return _SP2.mvsum(run, SP.S(run, m.lv), v) if m.sparse else _DN.mvsum(run, _DN.DM(run, m.lv), v)


def pair(run, q):
    run.nfresh += 1
    return z3.Function(f'cw_{run.nfresh}', *([I] * (q + 1)))


def mv_linear(run, s, sx, sp, x1, x, c, p, n):
    """lemma 'sums' (linearity): x1 = x + c p gives M x1 = M x + c (M p)"""
    w = pair(run, 1)
    return [FA(1, lambda i: z3.Or(s.at(i, n) == sx.at(i, n) + rmulx(c, sp.at(i, n)), z3.And(w(i) >= 0, w(i) < n, x1.at(w(i)) != x.at(w(i)) + rmulx(c, p.at(w(i))))), lambda i: [s.at(i, n)])]


def dt(run, u, v, n): return V.dot_of(run, u, v).at(n)


def dot_linear(run, u1, u, c, q, v, n, side=0):
    """lemma 'sums' (linearity): u1 = u + c q gives u1.v = u.v + c (q.v)   (side 1: the second factor is the combination)"""
    w = run.fresh('cw', I)
    d = (lambda y: dt(run, v, y, n)) if side else (lambda y: dt(run, y, v, n))
    return z3.Or(d(u1) == d(u) + rmulx(c, d(q)), z3.And(w >= 0, w < n, u1.at(w) != u.at(w) + rmulx(c, q.at(w))))


def dot_congr(run, u, v, u2, v2, n):
    """lemma 'sums' (congruence) for scalar products"""
    w = run.fresh('cw', I)
    return z3.Or(dt(run, u, v, n) == dt(run, u2, v2, n), z3.And(w >= 0, w < n, z3.Or(u.at(w) != u2.at(w), v.at(w) != v2.at(w))))


class FV:
    """vector given by a function"""
    cpx = False
    def __init__(self, run, key, f): self.f = f; self.key = key
    def at(self, i): return self.f(i)
    def ids(self): return [self.key]


def mvv(run, s, n): return FV(run, s.fs[0].name(), lambda i: s.at(i, n))


def neg_def(run):
    """rmul(-c, x) = -rmul(c, x)"""
    return FA(2, lambda c, x: rmul(-c, x) == -rmul(c, x), lambda c, x: [rmul(-c, x)], sorts=[R, R])


for MT, sparse in (('DenseMatrix<double>', False), (SMT, True)):
    vv = lambda L, nm: V.D(L.run, L.lv(nm))
    inn = lambda n, i: z3.And(i >= 0, i < n)
    def resid(run, a, b, x, r, nm):
        s = matvec(run, a, x); n = a.R
        return (nm, FA(1, lambda i: z3.Implies(inn(n, i), r.at(i) == b.at(i) - s.at(i, n)), lambda i: r.pats(i) + [s.at(i, n)]))
    def g0(L):
        run = L.run; a, b = A(L.c, 0), VEC(L.c, 1); n = a.R; x, r, p = vv(L, 'x'), vv(L, 'r'), vv(L, 'p'); k = L.v('k'); rs = L.v('rs')
        T = mvv(run, matvec(run, a, p), n)
        return [('same vectors', DEF([dot_congr(run, p, r, r, r, n), dot_congr(run, T, p, T, r, n)])),
                ('range', z3.And(k >= 0, k <= L.c.v(3), z3.Or(k < L.c.v(3), L.c.v(3) == 0))), ('length', z3.And(x.n == n, r.n == n, p.n == n)), resid(run, a, b, x, r, 'r is the residual of x'),
                ('rs is the squared length of r', rs == dt(run, r, r, n)), ('rs is not zero', rs != 0), ('square', DEF([rmulx(L.c.v(4), L.c.v(4)) >= 0])), ('no step taken yet', FA(1, lambda i: z3.Implies(z3.And(k == 0, inn(n, i)), x.at(i) == VEC(L.c, 2).at(i)), lambda i: x.pats(i))),
                ('direction against residual', dt(run, p, r, n) == rs),
                ('image of the direction against the residual (conjugacy with the direction before)', dt(run, T, r, n) == dt(run, T, p, n))]
    def g0_body(L):
        run = L.run; a = A(L.c, 0); n = a.R; p = vv(L, 'p')
        L.c.old.memo['cg'] = (vv(L, 'x'), vv(L, 'r'), p, L.v('rs'), L.v('k'))
        # assumption: no breakdown
        run.ghosts['divisor'] = L.c
        return [dt(run, mvv(run, matvec(run, a, p), n), p, n) != 0]
    def divisor(run):
        """the scalar product of t and p is the one of the image of the direction and the direction"""
        c = run.ghosts.get('divisor')
        if c is None or c.local('t') is None: return []
        a = A(c, 0); n = a.R; t, p = V.D(run, c.local('t')), V.D(run, c.local('p'))
        return [dot_congr(run, t, p, mvv(run, matvec(run, a, p), n), p, n)]
    def step_facts(run, c, x1, l, ak):
        """the facts about one step, from its start values to x1 and l"""
        a, b = A(c, 0), VEC(c, 1); n = a.R; x, r, p, rs, k = c.old.memo['cg']
        sx, sp, s1 = (matvec(run, a, v) for v in (x, p, x1)); T = mvv(run, sp, n)
        return a, b, n, x, r, p, rs, sx, sp, s1, T
    def g0_end(L):
        run = L.run; c = L.c; x1, r1, p1, l, t = (vv(L, q) for q in ('x', 'r', 'p', 'l', 't')); ak, bk = L.v('ak'), L.v('bk')
        a, b, n, x, r, p, rs, sx, sp, s1, T = step_facts(run, c, x1, l, ak)
        sp1 = matvec(run, a, p1); T1 = mvv(run, sp1, n); ls = L.v('ls'); D_ = lambda u, v: dt(run, u, v, n)
        tp, lt = D_(T, p), D_(l, T)
        return [('linearity', DEF([neg_def(run)] + mv_linear(run, s1, sx, sp, x1, x, ak, p, n) + [
                    dot_congr(run, t, p, T, p, n), dot_linear(run, l, r, -ak, T, r, n), dot_linear(run, l, r, -ak, T, p, n), dot_linear(run, l, r, -ak, T, l, n, 1), dot_congr(run, r, p, p, r, n), dot_congr(run, r, l, l, r, n),
                    dot_linear(run, p1, l, bk, p, T, n, 1), dot_linear(run, p1, l, bk, p, l, n), dot_linear(run, p1, l, bk, p, T1, n, 1), dot_congr(run, p, l, l, p, n), dot_congr(run, r1, r1, l, l, n), dot_congr(run, p1, r1, p1, l, n), dot_congr(run, T1, r1, T1, l, n)])),
                ('products commute', DEF([D_(r, p) == D_(p, r), D_(l, r) == D_(r, l), D_(T, l) == D_(l, T), D_(p, l) == D_(l, p)])),
                ('step length', rmulx(ak, tp) == rs), ('new residual is orthogonal to the old one', D_(l, r) == 0), ('new residual is orthogonal to the direction', D_(l, p) == 0),
                ('squared length of the new residual', z3.And(ls == D_(l, l), rmulx(ak, lt) == -ls)), ('direction factor', rmulx(bk, rs) == ls),
                ('field', DEF([z3.Implies(z3.And(rmulx(ak, tp) == rs, rmulx(bk, rs) == ls, rmulx(ak, lt) == -ls, rs != 0), lt + rmulx(bk, tp) == 0)])),
                ('the new direction is conjugate to the old one', D_(T, p1) == 0),
                ('symmetry', DEF([z3.Or(D_(T1, p) == D_(T, p1), z3.Not(tobool(symm(a))))])),
                ('image of the new direction against the old one', D_(T1, p) == 0)]
    def symm(m): return FA(2, lambda i, j: z3.Implies(m.inr(i, j), m.at(i, j) == m.at(j, i)), lambda i, j: m.pats(i, j))
    def gpost(c):
        run = c.run
        if c.mode != 'verify': return [('length', V.D(run, c.ret).n == A(c, 0).R)]
        a, b, x0 = A(c, 0), VEC(c, 1), VEC(c, 2); n = a.R; xr = V.D(run, c.ret); m = c.old.memo; lim = c.v(3); e2 = rmulx(c.v(4), c.v(4))
        s = matvec(run, a, xr); rv = FV(run, 'res' + s.fs[0].name(), lambda i: b.at(i) - s.at(i, n)); rn = dt(run, rv, rv, n)
        x = c.a[-1]; pv = run.load(x) if isinstance(x, LV) else x; out = [('length', xr.n == n)]
        stat = lambda K: [('reported step count', run.load(pv.lv) == K)] if isinstance(pv, PtrVal) else []
        if 'cg' in m:
            x_, r, p, rs, k = m['cg']; l = V.D(run, c.local('l')); sx, sp = matvec(run, a, x_), matvec(run, a, p); T = mvv(run, sp, n); ak = run.ghosts.get('cgak')
            ak = c.local('ak')
            if ak is not None:
                out.append(('linearity', DEF([neg_def(run)] + mv_linear(run, s, sx, sp, xr, x_, ak, p, n) + [dot_linear(run, l, r, -ak, T, r, n), dot_congr(run, V.D(run, c.local('t')), p, T, p, n), dot_congr(run, rv, rv, l, l, n)])))
                out += [resid(run, a, b, xr, l, 'the last residual is the residual of the result'), ('last residual is orthogonal to the one before', dt(run, l, r, n) == 0)]
            out += [('stops only at the tolerance or at the limit', z3.Or(rn <= e2, k + 1 == lim)), ('at most the allowed number of steps', k + 1 <= lim)] + stat(k + 1)
        else:
            r = V.D(run, c.local('r')); s0 = matvec(run, a, x0)
            w = pair(run, 1)
            out.append(('same start', DEF([FA(1, lambda i: z3.Or(s.at(i, n) == s0.at(i, n), z3.And(w(i) >= 0, w(i) < n, xr.at(w(i)) != x0.at(w(i)))), lambda i: [s.at(i, n)]), dot_congr(run, rv, rv, r, r, n)])))
            out += [('the start is returned', FA(1, lambda i: z3.Implies(inn(n, i), xr.at(i) == x0.at(i)), lambda i: xr.pats(i))), ('only when it is a solution or no step is allowed', z3.Or(rn == 0, lim == 0))]
        return out
    sqd = lambda c: A(c, 0).R == A(c, 0).C
    def gmod(c):
        x = c.a[-1]; pv = c.run.load(x) if isinstance(x, LV) else x
        return [pv.lv] if isinstance(pv, PtrVal) else []
    add(f'cg({MT}&,{VDT}&,{VDT}&,u64,real,u64*)', opts=dict(cancel=True, fdiv_check=True, ondiv=divisor), alias=[{5: 'ref'}, {5: 'null'}],
        pre=lambda c: A(c, 0).wf() + [('not empty', z3.And(A(c, 0).R > 0, A(c, 0).C > 0)), ('symmetric', symm(A(c, 0)))], post=gpost, mod=gmod,
        throws=[('NotSquareException', lambda c: z3.Not(sqd(c))), ('MatrixMulMismatchException', lambda c: z3.And(sqd(c), A(c, 0).C != VEC(c, 2).n)), ('VectorSizeMismatchException', lambda c: z3.And(sqd(c), A(c, 0).C == VEC(c, 2).n, VEC(c, 1).n != A(c, 0).R))],
        loops=[LoopSpec(g0, var=lambda L: L.c.v(3) - L.v('k'), body=g0_body, end=g0_end)])


for MT, sparse in (('DenseMatrix<double>', False), (SMT, True)):
    vv = lambda L, nm: V.D(L.run, L.lv(nm))
    inn = lambda n, i: z3.And(i >= 0, i < n)
    def image(run, m, v, z, nm):
        s = matvec(run, m, v); n = m.R
        return (nm, FA(1, lambda i: z3.Implies(inn(n, i), z.at(i) == s.at(i, n)), lambda i: z.pats(i) + [s.at(i, n)]))
    def h0(L):
        run = L.run; a, b, C_ = A(L.c, 0), VEC(L.c, 1), A(L.c, 2); n = a.R; x, r, p, z = (vv(L, q) for q in ('x', 'r', 'p', 'z')); k = L.v('k'); l1 = L.v('l1')
        T = mvv(run, matvec(run, a, p), n)
        return [('same vectors', DEF([dot_congr(run, p, r, z, r, n), dt(run, r, z, n) == dt(run, z, r, n), dot_congr(run, T, p, T, z, n)])),
                ('range', z3.And(k >= 0, k <= L.c.v(4), z3.Or(k < L.c.v(4), L.c.v(4) == 0))), ('length', z3.And(x.n == n, r.n == n, p.n == n, z.n == n)), resid(run, a, b, x, r, 'r is the residual of x'),
                image(run, C_, r, z, 'z is the preconditioned residual'), ('l1 is the scalar product of both', l1 == dt(run, r, z, n)),
                ('no step taken yet', FA(1, lambda i: z3.Implies(z3.And(k == 0, inn(n, i)), x.at(i) == VEC(L.c, 3).at(i)), lambda i: x.pats(i))),
                ('direction against residual', dt(run, p, r, n) == l1),
                ('image of the direction against the preconditioned residual (conjugacy with the direction before)', dt(run, T, z, n) == dt(run, T, p, n))]
    def h0_body(L):
        run = L.run; a = A(L.c, 0); n = a.R; p = vv(L, 'p')
        L.c.old.memo['cg'] = (vv(L, 'x'), vv(L, 'r'), p, vv(L, 'z'), L.v('l1'), L.v('k'))
        run.ghosts['divisor'] = L.c      # assumption: no breakdown
        return [dt(run, mvv(run, matvec(run, a, p), n), p, n) != 0, L.v('l1') != 0]
    def h0_end(L):
        run = L.run; c = L.c; x1, r1, p1, z1, t = (vv(L, q) for q in ('x', 'r', 'p', 'z', 't')); ak = L.v('ak'); l2 = L.v('l2')
        a, b, C_ = A(c, 0), VEC(c, 1), A(c, 2); n = a.R; x, r, p, z, l1, k = c.old.memo['cg']
        sx, sp, s1, sp1 = (matvec(run, a, v) for v in (x, p, x1, p1)); T, T1 = mvv(run, sp, n), mvv(run, sp1, n); D_ = lambda u, v: dt(run, u, v, n); tp = D_(T, p)
        cr, cr1 = mvv(run, matvec(run, C_, r), n), mvv(run, matvec(run, C_, r1), n)
        bk = rmulx(l2, rinv(l1))
        return [('linearity', DEF([neg_def(run)] + mv_linear(run, s1, sx, sp, x1, x, ak, p, n) + [
                    dot_congr(run, t, p, T, p, n), dot_linear(run, r1, r, -ak, T, z, n), dot_linear(run, r1, r, -ak, T, p, n), dot_linear(run, r1, r, -ak, T, z1, n), dot_congr(run, z, r, cr, r, n),
                    dot_congr(run, cr1, r, z1, r, n), dot_congr(run, cr, r1, z, r1, n), dot_linear(run, p1, z1, bk, p, T, n, 1), dot_linear(run, p1, z1, bk, p, r1, n), dot_linear(run, p1, z1, bk, p, T1, n, 1),
                    D_(r, p) == D_(p, r), D_(r1, z) == D_(z, r1), D_(r1, p) == D_(p, r1), D_(r, z1) == D_(z1, r), D_(T, z1) == D_(z1, T), D_(r1, z1) == D_(z1, r1), D_(r, z) == D_(z, r)])),
                ('step length', rmulx(ak, tp) == l1), ('new residual against the old preconditioned one', D_(r1, z) == 0), ('new residual is orthogonal to the direction', D_(r1, p) == 0),
                ('symmetry of the preconditioner', DEF([z3.Or(D_(cr1, r) == D_(cr, r1), z3.Not(tobool(symm(C_))))])), ('new preconditioned residual against the old residual', D_(z1, r) == 0),
                ('scalar product', z3.And(l2 == D_(r1, z1), rmulx(ak, D_(T, z1)) == -l2)), ('direction factor', rmulx(bk, l1) == l2),
                ('field', DEF([z3.Implies(z3.And(rmulx(ak, tp) == l1, rmulx(bk, l1) == l2, rmulx(ak, D_(T, z1)) == -l2, l1 != 0), D_(T, z1) + rmulx(bk, tp) == 0)])),
                ('the new direction is conjugate to the old one', D_(T, p1) == 0), ('symmetry', DEF([z3.Or(D_(T1, p) == D_(T, p1), z3.Not(tobool(symm(a))))])),
                ('image of the new direction against the old one', D_(T1, p) == 0)]
    def hpost(c):
        run = c.run
        if c.mode != 'verify': return [('length', V.D(run, c.ret).n == A(c, 0).R)]
        a, b, x0 = A(c, 0), VEC(c, 1), VEC(c, 3); n = a.R; xr = V.D(run, c.ret); m = c.old.memo; lim = c.v(4); e2 = rmulx(c.v(5), c.v(5))
        s = matvec(run, a, xr); rv = FV(run, 'res' + s.fs[0].name(), lambda i: b.at(i) - s.at(i, n)); rn = dt(run, rv, rv, n); r1 = V.D(run, c.local('r'))
        x = c.a[-1]; pv = run.load(x) if isinstance(x, LV) else x; out = [('length', xr.n == n)]
        stat = lambda K: [('reported step count', run.load(pv.lv) == K)] if isinstance(pv, PtrVal) else []
        if 'cg' in m:
            x_, r, p, z, l1, k = m['cg']; sx, sp = matvec(run, a, x_), matvec(run, a, p); T = mvv(run, sp, n); ak = c.local('ak')
            out.append(('linearity', DEF([neg_def(run)] + mv_linear(run, s, sx, sp, xr, x_, ak, p, n) + [dot_linear(run, r1, r, -ak, T, z, n), dot_congr(run, V.D(run, c.local('t')), p, T, p, n), dot_congr(run, rv, rv, r1, r1, n)])))
            out += [resid(run, a, b, xr, r1, 'the last residual is the residual of the result'), ('last residual against the preconditioned one before', dt(run, r1, z, n) == 0),
                    ('stops only at the tolerance or at the limit', z3.Or(rn <= e2, k + 1 == lim)), ('at most the allowed number of steps', k + 1 <= lim)] + stat(k + 1)
        else:
            s0 = matvec(run, a, x0); w = pair(run, 1)
            out.append(('same start', DEF([FA(1, lambda i: z3.Or(s.at(i, n) == s0.at(i, n), z3.And(w(i) >= 0, w(i) < n, xr.at(w(i)) != x0.at(w(i)))), lambda i: [s.at(i, n)]), dot_congr(run, rv, rv, r1, r1, n)])))
            out += [('the start is returned', FA(1, lambda i: z3.Implies(inn(n, i), xr.at(i) == x0.at(i)), lambda i: xr.pats(i))), ('only when it is a solution or no step is allowed', z3.Or(rn == 0, lim == 0))]
        return out
    sq2 = lambda c: z3.And(A(c, 0).R == A(c, 0).C, A(c, 2).R == A(c, 2).C)
    ok2 = lambda c: z3.And(sq2(c), A(c, 0).R == A(c, 2).R)
    add(f'pcg({MT}&,{VDT}&,{MT}&,{VDT}&,u64,real,u64*)', opts=dict(cancel=True, fdiv_check=True, ondiv=divisor), alias=[{6: 'ref'}, {6: 'null'}],
        pre=lambda c: A(c, 0).wf() + A(c, 2).wf() + [('not empty', z3.And(A(c, 0).R > 0, A(c, 0).C > 0, A(c, 2).R > 0, A(c, 2).C > 0)), ('symmetric', symm(A(c, 0))), ('symmetric preconditioner', symm(A(c, 2)))], post=hpost, mod=gmod,
        throws=[('NotSquareException', lambda c: z3.Not(sq2(c))), ('MatrixSizeMismatchException', lambda c: z3.And(sq2(c), A(c, 0).R != A(c, 2).R)), ('MatrixMulMismatchException', lambda c: z3.And(ok2(c), A(c, 0).C != VEC(c, 3).n)), ('VectorSizeMismatchException', lambda c: z3.And(ok2(c), A(c, 0).C == VEC(c, 3).n, VEC(c, 1).n != A(c, 0).R))],
        loops=[LoopSpec(h0, var=lambda L: L.c.v(4) - L.v('k'), body=h0_body, end=h0_end)])
    # preconditioner: reciprocal diagonal
    def q0(L):
        a, m, o = A(L.c, 0), W(L.run, L.lv('C')), W(L.run, L.pre.lv(L.lv('C'))); i = L.v('i')
        L.c.old.memo['pivot'] = i
        return [('range', z3.And(i >= 0, i <= a.R))] + m.wf() + [('dimensions', z3.And(m.R == a.R, m.C == a.R)),
                ('diagonal so far', FA(2, lambda p, q: z3.Implies(m.inr(p, q), m.at(p, q) == z3.If(z3.And(p == q, p < i), rinv(a.at(p, p)), o.at(p, q))), lambda p, q: m.pats(p, q))),
                ('diagonal entries do not vanish', FA(1, lambda p: z3.Implies(z3.And(p >= 0, p < i), z3.Not(tiny(a.at(p, p)))), lambda p: a.pats(p, p)))]
    def qpost2(c):
        a, m, o = A(c, 0), A(c, 1), W(c.run, c.old.a[1])
        return m.wf() + [('dimensions', z3.And(m.R == a.R, m.C == a.R)), ('reciprocal diagonal, other entries untouched', FA(2, lambda p, q: z3.Implies(m.inr(p, q), m.at(p, q) == z3.If(p == q, rinv(a.at(p, p)), o.at(p, q))), lambda p, q: m.pats(p, q)))]
    sq3 = lambda c: z3.And(A(c, 0).R == A(c, 0).C, A(c, 1).R == A(c, 1).C)
    add(f'jacobi({MT}&,{MT}&)', opts=dict(fdiv_check=True), pre=lambda c: A(c, 0).wf() + A(c, 1).wf(), mod=lambda c: [c.a[1]], post=qpost2,
        throws=[('NotSquareException', lambda c: z3.Not(sq3(c))), ('MatrixSizeMismatchException', lambda c: z3.And(sq3(c), A(c, 0).R != A(c, 1).R)),
                ('SingularException', lambda c: EX(1, lambda i: z3.And(sq3(c), A(c, 0).R == A(c, 1).R, i >= 0, i < A(c, 0).R, tiny(A(c, 0).at(i, i))), pats=lambda i: A(c, 0).pats(i, i), wit=[(c.memo['pivot'],)] if 'pivot' in c.memo else None))],
        loops=[LoopSpec(q0, var=lambda L: A(L.c, 0).R - L.v('i'))])


# ------------------------------------------------------------------ permutations
PVT = 'Vector<unsigned long,vector<unsigned long>>'


def is_perm(pi, n):
    return [('entries in range', FA(1, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(pi.at(i) >= 0, pi.at(i) < n)), lambda i: pi.pats(i))),
            ('no entry twice', FA(2, lambda i, j: z3.Implies(z3.And(inr(n, i, j), i != j), pi.at(i) != pi.at(j)), lambda i, j: [(pi.at(i), pi.at(j))]))]


def pm_cell(pi, i, j): return z3.If(j == pi.at(i), z3.RealVal(1), z3.RealVal(0))


def pm_inv(L):
    pi, m = VEC(L.c, 0), W(L.run, L.lv('nm')); i = L.v('i'); n = pi.n
    return [('range', z3.And(i >= 0, i <= n))] + m.wf() + [('dimensions', z3.And(m.R == n, m.C == n)),
            ('rows so far', FA(2, lambda p, q: z3.Implies(inr(n, p, q), m.at(p, q) == z3.If(p < i, pm_cell(pi, p, q), z3.RealVal(0))), lambda p, q: m.pats(p, q)))]


def pm_post(c):
    pi, m = VEC(c, 0), W(c.run, c.ret); n = pi.n
    return m.wf() + [('dimensions', z3.And(m.R == n, m.C == n)), ('one in row i at the column the permutation names', FA(2, lambda p, q: z3.Implies(inr(n, p, q), m.at(p, q) == pm_cell(pi, p, q)), lambda p, q: m.pats(p, q)))]


rangeonly = lambda c: is_perm(VEC(c, 0), VEC(c, 0).n)[:1] + [('not empty', VEC(c, 0).n > 0)]
add('CountableSet<unsigned long,vector<unsigned long>>::fill(u64&)', mod=V.mod_this, post=lambda c: [('all elements', V.T(c).all(lambda k: c.ov(0)))], loops=[V.maploop(lambda L, k: L.c.v(0))])
for _x in ('CountableSet<unsigned long,vector<unsigned long>>', PVT):
    add(f'{_x}::(ctor)(u64,void*)', post=lambda c: [('length', V.T(c).n == c.v(0)), ('zero', V.T(c).all(lambda k: z3.IntVal(0)))])
add(f'permutation_matrix({PVT}&)->{SMT}', pre=rangeonly, post=pm_post, loops=[LoopSpec(pm_inv, var=lambda L: VEC(L.c, 0).n - L.v('i'))])


def ip_inv(L):
    pi, np_ = VEC(L.c, 0), V.D(L.run, L.lv('np')); i = L.v('i'); n = pi.n
    return [('range', z3.And(i >= 0, i <= n)), ('length', np_.n == n), ('entries so far', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < i), np_.at(pi.at(k)) == k), lambda k: pi.pats(k)))]


def ip_post(c):
    pi, r = VEC(c, 0), V.D(c.run, c.ret); n = pi.n
    out = [('length', r.n == n), ('result undoes the permutation', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < n), r.at(pi.at(k)) == k), lambda k: pi.pats(k)))]
    if c.mode == 'verify':
        iv, sj = surj(c.run, pi.at, n)
        out.append(('every index is reached', DEF([sj])))
        out.append(('permutation undoes the result', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(r.at(k) >= 0, r.at(k) < n, pi.at(r.at(k)) == k)), lambda k: r.pats(k), hints=lambda k: [iv(k), pi.at(iv(k))])))
    else:
        out.append(('permutation undoes the result', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(r.at(k) >= 0, r.at(k) < n, pi.at(r.at(k)) == k)), lambda k: r.pats(k))))
    return out


add(f'inverse_permutation({PVT}&)', pre=lambda c: is_perm(VEC(c, 0), VEC(c, 0).n), post=ip_post, loops=[LoopSpec(ip_inv, var=lambda L: VEC(L.c, 0).n - L.v('i'))])


def pv_inv(L):
    v, pi, m = VEC(L.c, 0), VEC(L.c, 1), V.D(L.run, L.lv('nm')); i = L.v('i')
    return [('range', z3.And(i >= 0, i <= v.n)), ('length', m.n == v.n), ('components so far', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < i), m.at(k) == v.at(pi.at(k))), lambda k: m.pats(k)))]


def pv_post(c):
    v, pi, m = VEC(c, 0), VEC(c, 1), V.D(c.run, c.ret)
    return [('length', m.n == v.n), ('component i is the one the permutation names', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < v.n), m.at(k) == v.at(pi.at(k))), lambda k: m.pats(k)))]


add(f'permutate({VDT}&,{PVT}&)', pre=lambda c: [('entries in range', IMP(VEC(c, 0).n == VEC(c, 1).n, is_perm(VEC(c, 1), VEC(c, 1).n)[0][1]))], post=pv_post,
    throws=[('VectorSizeMismatchException', lambda c: VEC(c, 0).n != VEC(c, 1).n)], loops=[LoopSpec(pv_inv, var=lambda L: VEC(L.c, 0).n - L.v('i'))])


def pmat_post(c):
    run = c.run; m, pi, r = A(c, 0), VEC(c, 1), W(run, c.ret); n = m.R
    out = r.wf() + [('dimensions', z3.And(r.R == n, r.C == n))]
    if c.mode == 'verify':
        s = [x for k, x in run.ghosts.items() if isinstance(k, tuple) and k[0] == 'SUM' and k[1] == 'smul']
        if len(s) != 2: raise Unsupported('two products expected')
        i_, o_ = s      # inner m * transpose(P), outer P * inner
        out.append(('sums', DEF(i_.gap() + o_.gap() + [FA(2, lambda i, j: z3.And(i_.at(i, j, 0) == 0, *i_.unfold(i, j, pi.at(j))), lambda i, j: [i_.at(i, j, n)]),
                                                       FA(2, lambda i, j: z3.And(o_.at(i, j, 0) == 0, *o_.unfold(i, j, pi.at(i))), lambda i, j: [o_.at(i, j, n)])])))
        out.append(('product with the transposed permutation matrix', FA(2, lambda i, j: z3.Implies(inr(n, i, j), i_.at(i, j, n) == m.at(i, pi.at(j))), lambda i, j: [i_.at(i, j, n)], hints=lambda i, j: [i_.at(i, j, pi.at(j)), i_.at(i, j, pi.at(j) + 1)])))
        out.append(('product with the permutation matrix', FA(2, lambda i, j: z3.Implies(inr(n, i, j), o_.at(i, j, n) == i_.at(pi.at(i), j, n)), lambda i, j: [o_.at(i, j, n)], hints=lambda i, j: [o_.at(i, j, pi.at(i)), o_.at(i, j, pi.at(i) + 1), i_.at(pi.at(i), j, n)])))
    return out + [('every element is where the permutation puts it', FA(2, lambda i, j: z3.Implies(inr(n, i, j), r.at(i, j) == m.at(pi.at(i), pi.at(j))), lambda i, j: r.pats(i, j)))]


add(f'permutate({SMT}&,{PVT}&)', pre=lambda c: A(c, 0).wf() + [('not empty', z3.And(A(c, 0).R > 0, A(c, 0).C > 0)), ('entries in range', IMP(A(c, 0).R == VEC(c, 1).n, is_perm(VEC(c, 1), VEC(c, 1).n)[0][1]))], post=pmat_post,
    throws=[('NotSquareException', lambda c: A(c, 0).R != A(c, 0).C), ('MatrixMulMismatchException', lambda c: z3.And(A(c, 0).R == A(c, 0).C, A(c, 0).R != VEC(c, 1).n))])


def rc_inv(L):
    run = L.run; v, v0 = V.D(run, L.lv('v')), V.D(run, L.pre.lv(L.lv('v'))); i = L.v('i'); n = v0.n
    return [('range', z3.And(i >= 0, i <= n / 2)), ('length', v.n == n), ('ends exchanged so far', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < n), v.at(k) == z3.If(z3.Or(k < i, k >= n - i), v0.at(n - 1 - k), v0.at(k))), lambda k: v.pats(k)))]


def ordering(c):
    """the ordering of a matrix is a permutation; the value is a function of the matrix"""
    m, r = A(c, 0), V.D(c.run, c.ret)
    if c.mode != 'verify': c.run.ghosts['ordering'] = r
    return [('length', r.n == m.R)] + is_perm(r, m.R)


def rc_post(c):
    run = c.run; m, r = A(c, 0), V.D(run, c.ret); n = m.R; out = [('length', r.n == n)] + is_perm(r, n)
    if c.mode == 'verify':
        o = run.ghosts['ordering']
        out.append(('the reverse of the ordering', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < n), r.at(k) == o.at(n - 1 - k)), lambda k: r.pats(k))))
    return out


class MSeq:
    """std::multimap<Dimension, Index> / std::queue<Index>: the sequence of its indices"""
    def __init__(self, run, lv, p='.second'):
        lv = uncast(lv); self.n = lv.get('#len'); self.a = lv.get('[]' + p)
    def at(self, k): return sel(self.a, k)
    def pats(self, k): return [self.at(k)]


def QU(run, lv): return MSeq(run, lv, '')


def in_range(name, s, n, upto=None):
    u = s.n if upto is None else upto
    return (name, FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < u), z3.And(s.at(k) >= 0, s.at(k) < n)), lambda k: s.pats(k)))


def distinct(name, s, upto=None):
    u = s.n if upto is None else upto
    return (name, FA(2, lambda i, j: z3.Implies(z3.And(inr(u, i, j), i != j), s.at(i) != s.at(j)), lambda i, j: [(s.at(i), s.at(j))]))


def cm_core(L):
    """nodes already placed and nodes still in the degree table partition the index range"""
    run = L.run; n = A(L.c, 0).R; r = V.D(run, L.lv('R')); t = MSeq(run, L.lv('Rows')); q = QU(run, L.lv('Q')); cur = L.v('currentIndex')
    return [('length', r.n == n), ('placed and remaining nodes add up', z3.And(cur >= 0, t.n >= 0, cur + t.n == n)),
            in_range('remaining nodes in range', t, n), distinct('no remaining node twice', t),
            in_range('placed nodes in range', r, n, cur), distinct('no placed node twice', r, cur),
            ('no placed node remains', FA(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < cur, j >= 0, j < t.n), r.at(i) != t.at(j)), lambda i, j: [(r.at(i), t.at(j))])),
            ('queue', q.n >= 0), in_range('queued nodes in range', q, n)]


def cm_start(L):
    run = L.run; n = A(L.c, 0).R; t = MSeq(run, L.lv('Rows')); i = L.v('i')
    return [('range', z3.And(i >= 0, i <= n)), ('one entry per row', t.n == i), in_range('rows entered so far', t, i), distinct('no row twice', t)]


def cm_adj(at):
    def inv(L):
        run = L.run; n = A(L.c, 0).R; k = L.v(at); x = It(run, L.lv('it')); a = MSeq(run, L.lv('adj'))
        return it_in(run, L.lv('it'), L.c.a[0]) + [('stays in its row', z3.Implies(x.valid, x.i == k)), ('table', a.n >= 0), in_range('neighbours in range', a, n)]
    return LoopSpec(inv, var=lambda L: It(L.run, L.lv("it")).g.n - It(L.run, L.lv('it')).pos)


def cm_it(L):
    return [nm for nm in L.frames[-1].names if nm.startswith('__begin')][-1]


def cm_push(L):
    run = L.run; n = A(L.c, 0).R; q = QU(run, L.lv('Q')); a = MSeq(run, L.lv('adj')); b = L.lv(cm_it(L)).get('').idx
    return [('position', z3.And(b >= 0, b <= a.n)), ('queue', q.n >= 0), in_range('queued nodes in range', q, n)]


cm_push_spec = LoopSpec(cm_push, var=lambda L: MSeq(L.run, L.lv('adj')).n - L.lv(cm_it(L)).get('').idx)


def cm_inner(L):
    return cm_core(L) + [('remaining nodes only decrease', MSeq(L.run, L.lv('Rows')).n <= MSeq(L.run, L.pre.lv(L.lv('Rows'))).n)]


def mlen(L, v): return uncast(L.lv(v)).get('#len')


def fp_find(c):
    m = uncast(c.a[0]); t = MSeq(c.run, m); x = c.ret
    if c.mode == 'verify' and not (isinstance(x, PtrVal) and uncast(x.lv) is m): return [('iterator into the table', z3.BoolVal(False))]
    key = uncast(c.a[1]).get('.second')
    return [('position in the table or its end', z3.And(x.idx >= 0, x.idx <= t.n)), ('the entry found carries the index searched for', z3.Implies(x.idx < t.n, t.at(x.idx) == key))]


def fp_inv(L):
    x = L.lv('it').get(''); e = Field(uncast(L.lv('range')), 'second', None).get('')
    return [('position', z3.And(x.idx >= 0, x.idx <= e.idx))]


FPS = 'find_pair(multimap<unsigned long,unsigned long>&,pair<unsigned long,unsigned long>&)'
add(FPS, pre=lambda c: [('length', uncast(c.a[0]).get('#len') >= 0)], post=fp_find, ret=lambda c: PtrVal(uncast(c.a[0]), c.run.fresh('fp', I)),
    loops=[LoopSpec(fp_inv, var=lambda L: Field(uncast(L.lv('range')), 'second', None).get('').idx - L.lv('it').get('').idx)])
add(f'cuthill_mckee({SMT}&)', pre=lambda c: A(c, 0).wf(), post=ordering, throws=[('NotSquareException', lambda c: A(c, 0).R != A(c, 0).C)],
    loops=[LoopSpec(cm_start, var=lambda L: A(L.c, 0).R - L.v('i')), LoopSpec(cm_core, var=lambda L: mlen(L, 'Rows')), cm_adj('p'), cm_push_spec,
           LoopSpec(cm_inner, var=lambda L: (mlen(L, 'Rows'), mlen(L, 'Q'))), cm_adj('c'), cm_push_spec])
add(f'r_cuthill_mckee({SMT}&)', pre=lambda c: A(c, 0).wf(), post=rc_post, throws=[('NotSquareException', lambda c: A(c, 0).R != A(c, 0).C)],
    loops=[LoopSpec(rc_inv, var=lambda L: V.D(L.run, L.lv('v')).n / 2 - L.v('i'))])
