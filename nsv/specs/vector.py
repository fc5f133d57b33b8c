"""Contracts of CountableSet / Vector (dynamic and fixed, real and complex)."""
import z3
from ..core import *
from ..interp import Cast, uncast
from ..contracts import Contract, LoopSpec
from ..sums import Sum, Seq, getsum

C = {}


def add(sig, **kw):
    C[sig] = Contract(sig, **kw)
    return C[sig]


def data(run, lv):
    lv = uncast(lv)
    return Field(lv, 'mData', run.eng.fieldty(lv.ty, 'mData'))


def D(run, lv): return Seq(run, data(run, lv))


def cell_of(run, lv):
    s = D(run, lv); k = run.fresh('cell', z3.IntSort())
    run.assume(z3.And(k >= 0, k < s.n))
    return Elem(s.lv, k, s.et)


def T(c): return D(c.run, c.this)
def T0(c): return D(c.run, c.old.this)
def A(c, i=0): return D(c.run, c.a[i])
def A0(c, i=0): return D(c.run, c.old.a[i])


def lv_same(a, b):
    from ..contracts import lv_eq
    return lv_eq(None, a, b) is True


def lenok(c, s):
    return [('length', s.n >= 0)]


def mod_this(c): return [(data(c.run, c.this), [p for p in dict(c.run.eng.shape(data(c.run, c.this).ty)) if p != '#len'])]


def ret_elem(c):
    d = data(c.run, c.this)
    return Elem(d, c.v(0), c.run.eng.elemty(d.ty))


def sval(c, i, old=True):
    """scalar argument value (by value or by reference)"""
    return c.ov(i) if old else c.v(i)


def fdiv(run, x, y): return run.fdiv(x, y)


def maploop(f, bound=None, tgt=None):
    """element k is done once k < i; f(L, k) is the new value in terms of the entry state"""
    def inv(L):
        cur = D(L.run, tgt(L) if tgt else L.this); old = D(L.run, L.pre.lv(tgt(L) if tgt else L.this)); i = L.v('i')
        return [('range', z3.And(i >= 0, i <= cur.n)), ('length kept', cur.n == old.n),
                ('elements done so far', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < cur.n), mkeq(cur.at(k), mkite(k < i, f(L, k), old.at(k)))), lambda k: cur.pats(k)))]
    return LoopSpec(inv, var=lambda L: D(L.run, tgt(L) if tgt else L.this).n - L.v('i'))


def scan(extra):
    def inv(L):
        i = L.v('i'); n = T(L.c).n
        return [('range', z3.And(i >= 0, i <= n))] + extra(L, i)
    return inv


def sum_of(run, s):
    return getsum(run, 'sum', s.ids(), lambda: Sum(run, 'SUM', s.at, 0, s.cpx))


def dot_of(run, a, b, op=lambda x: x):
    return getsum(run, 'dot', a.ids() + b.ids(), lambda: Sum(run, 'DOT', lambda t: mkrmul(a.at(t), b.at(t)), 0, a.cpx))


OPS = {'+': mkadd, '-': mksub, '*': mkrmul}


def opf(run, op):
    if op == '/': return run.fdiv
    return OPS[op]


def sopf(run, op, cpx):
    """scalar variant; complex division is stated as the product with the reciprocal"""
    if op == '/' and cpx: return lambda x, y: mkrmul(x, run.fdiv(one(True), y))
    return opf(run, op)


def rmulneg(c):
    """(-x)*z = -(x*z), as a background fact about the uninterpreted product (proved in nsv/lemmas.py)"""
    c.run.assume(FA(3, lambda x, y, z: z3.Implies(x == -y, rmul(x, z) == -rmul(y, z)), lambda x, y, z: [(rmul(x, z), rmul(y, z))], sorts=[R, R, R]))


def instances(CS, VT, cpx, fixed):
    E_ = 'complex<double>' if cpx else 'real'
    TN = 'complex<double>' if cpx else 'double'
    DC = f'array<{TN},3>' if fixed else f'vector<{TN}>'
    cmod = mod_this
    # --- element access (verified, and inlined at call sites)
    add(f'{CS}::size() const', inl=True, post=lambda c: [('number of elements', c.ret == T(c).n)])
    rng = lambda c: [('index in range', z3.And(c.v(0) >= 0, c.v(0) < T(c).n))]
    add(f'{CS}::linear_at(u64) const', inl=True, pre=rng, ret=ret_elem)
    add(f'{CS}::operator[](u64) const', inl=True, pre=rng, ret=ret_elem)
    add(f'{CS}::operator[](u64)', inl=True, pre=rng, ret=ret_elem)
    add(f'{VT}::at(u64) const', inl=True, pre=rng, ret=ret_elem)
    wr = lambda c: [('only that element', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < T(c).n), mkeq(T(c).at(k), mkite(k == c.v(0), c.ov(1), T0(c).at(k)))), lambda k: T(c).pats(k)))]
    add(f'{CS}::linear_set(u64,{E_}&)', inl=True, pre=rng, mod=cmod, post=wr)
    add(f'{VT}::set(u64,{E_}&)', inl=True, pre=rng, mod=cmod, post=wr)
    # --- iterators
    IT = f'CountableSetIterator<{TN},{DC}>'
    def itseq(c, lv): return D(c.run, uncast(lv).get('.mVec').lv)
    def ipos(lv): return uncast(lv).get('.mPos')
    def bind(c):
        """the iterators of one call run over one arbitrary set"""
        lvs = [c.this] + [x for x in c.a if isinstance(x, LV) and x.ty.k == 'rec' and x.ty.n == 'CountableSetIterator']
        t = c.run.eng.fieldty(lvs[0].ty, 'mVec')
        m = c.run.new_root('set', t.a); m.serial = 0
        for p, s in c.run.eng.shape(m.ty):
            if not isinstance(s, str): m.get(p)
        for x in lvs: uncast(x).set('.mVec', PtrVal(m, None))
    def iok(c): return [('position', z3.And(ipos(c.this) >= 0, ipos(c.this) <= itseq(c, c.this).n))]
    def samev(c, lv, m):
        p = uncast(lv).get('.mVec')
        return [('over the same set', z3.BoolVal(isinstance(p, PtrVal) and lv_same(p.lv, m)))]
    add(f'{IT}::(ctor)({CS}&,u64)', inl=True, post=lambda c: [('position', ipos(c.this) == c.v(1))] + samev(c, c.this, c.a[0]))
    add(f'{IT}::isValid() const', inl=True, setup=bind, pre=iok, post=lambda c: [('before the end', c.ret == (ipos(c.this) < itseq(c, c.this).n))])
    iboth = lambda c: iok(c) + [('other position', z3.And(ipos(c.a[0]) >= 0, ipos(c.a[0]) <= itseq(c, c.a[0]).n))]
    add(f'{IT}::operator==({IT}&) const', inl=True, setup=bind, alias=[{}, {0: 'this'}], pre=iboth, post=lambda c: [('equal iff same position', c.ret == (ipos(c.this) == ipos(c.a[0])))])
    add(f'{IT}::operator!=({IT}&) const', inl=True, setup=bind, alias=[{}, {0: 'this'}], pre=iboth, post=lambda c: [('different iff other position', c.ret == (ipos(c.this) != ipos(c.a[0])))])
    add(f'{IT}::operator*() const', inl=True, setup=bind, pre=lambda c: iok(c) + [('before the end', ipos(c.this) < itseq(c, c.this).n)], post=lambda c: [('element at the position', mkeq(c.ret, itseq(c, c.this).at(ipos(c.this))))])
    ipre = lambda c: iok(c) + [('before the end', ipos(c.this) < itseq(c, c.this).n)]
    add(f'{IT}::operator++()', inl=True, setup=bind, pre=ipre, mod=lambda c: [(uncast(c.this), ['.mPos'])], ret=lambda c: c.this, post=lambda c: [('next element or the end', ipos(c.this) == ipos(c.old.this) + 1)] + iok(c))
    add(f'{IT}::operator++(i32)', inl=True, setup=bind, pre=ipre, mod=lambda c: [(uncast(c.this), ['.mPos'])], post=lambda c: [('next element or the end', ipos(c.this) == ipos(c.old.this) + 1), ('returns the old position', ipos(c.ret) == ipos(c.old.this))] + iok(c))
    add(f'{CS}::begin() const', inl=True, post=lambda c: [('first element', ipos(c.ret) == 0)] + samev(c, c.ret, c.this))
    add(f'{CS}::end() const', inl=True, post=lambda c: [('behind the last element', ipos(c.ret) == T(c).n)] + samev(c, c.ret, c.this))
    # --- whole-sequence operations
    add(f'{CS}::fill({E_}&)', mod=cmod, post=lambda c: [('all elements', T(c).all(lambda k: c.ov(0)))], loops=[maploop(lambda L, k: L.c.v(0))])
    add(f'{CS}::do_reciprocal()', mod=cmod, post=lambda c: [('all elements', T(c).all(lambda k: c.run.fdiv(one(cpx), T0(c).at(k))))],
        loops=[maploop(lambda L, k: L.run.fdiv(one(cpx), T0(L.c).at(k)))])
    sw = lambda c: [('lengths exchanged', mkand(T(c).n == A0(c).n, A(c).n == T0(c).n)), ('contents exchanged', T(c).all(lambda k: A0(c).at(k))), ('contents exchanged (2)', A(c).all(lambda k: T0(c).at(k)))]
    add(f'{CS}::swap({CS}&)', alias=[{}, {0: 'this'}], mod=lambda c: [data(c.run, c.this), data(c.run, c.a[0])], post=sw)
    if not fixed:
        def rsz(c):
            a, b = T(c), T0(c)
            return [('length', a.n == c.v(0)), ('elements kept, new ones zero', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < a.n), mkeq(a.at(k), mkite(k < b.n, b.at(k), zero(cpx)))), lambda k: a.pats(k)))]
        add(f'{CS}::resize(u64)', mod=lambda c: [data(c.run, c.this)], post=rsz)
    # --- constructors
    if fixed:
        zf = lambda c: [('zero', T(c).all(lambda k: zero(cpx)))]
        add(f'{CS}::(ctor)()', post=zf)
        add(f'{VT}::(ctor)()', post=zf)
    else:
        add(f'{CS}::(ctor)()', post=lambda c: [('empty', T(c).n == 0)])
        add(f'{VT}::(ctor)()', post=lambda c: [('empty', T(c).n == 0)])
        zf = lambda c: [('length', T(c).n == c.v(0)), ('zero', T(c).all(lambda k: zero(cpx)))]
        add(f'{CS}::(ctor)(u64,void*)', post=zf)
        add(f'{VT}::(ctor)(u64,void*)', post=zf)
    def il(c):
        l = Seq(c.run, c.a[0])
        return ([('length', T(c).n == l.n)] if not fixed else []) + [('initializer values in order', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < T(c).n), mkeq(T(c).at(k), mkite(k < l.n, l.at(k), zero(cpx)))), lambda k: T(c).pats(k)))]
    def ilinv(L):
        l = Seq(L.run, L.c.a[0]); i = L.v('i'); s = T(L.c)
        b = L.lv('__begin1' if False else range_begin(L))
        bi = L.run.load(b).idx
        return [('range', z3.And(i >= 0, i <= l.n, bi == i, s.n == (l.n if not fixed else s.n))),
                ('elements so far', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < s.n), mkeq(s.at(k), mkite(k < i, l.at(k), zero(cpx)))), lambda k: s.pats(k)))]
    add(f'{VT}::(ctor)(initializer_list<{TN}>,void*)', pre=(lambda c: [('not more values than elements', Seq(c.run, c.a[0]).n <= T(c).n)]) if fixed else None, post=il,
        loops=[LoopSpec(ilinv, var=lambda L: Seq(L.run, L.c.a[0]).n - L.v('i'))])
    # --- reductions
    def sumpost(c):
        return [('sum of all elements', mkeq(c.ret, sum_of(c.run, T(c)).at(T(c).n)))]
    add(f'{CS}::sum() const', post=sumpost,
        loops=[LoopSpec(scan(lambda L, i: [('partial sum', mkeq(L.v('s'), sum_of(L.run, T(L.c)).at(i)))]), body=lambda L: sum_of(L.run, T(L.c)).unfold(L.v('i')), var=lambda L: T(L.c).n - L.v('i'))])
    add(f'{CS}::avg() const', pre=lambda c: [('not empty', T(c).n > 0)],
        post=lambda c: [('sum over count', mkeq(c.ret, c.run.fdiv(sum_of(c.run, T(c)).at(T(c).n), tocpx(T(c).n) if cpx else toreal(T(c).n))))])
    if not cpx:
        BIG = z3.RealVal('17976931348623157') * z3.RealVal(10) ** 292 if False else None
        for nm, op in (('max', lambda a, b: a >= b), ('min', lambda a, b: a <= b)):
            def inv(L, op=op):
                s = L.v('s'); a = T(L.c); i = L.v('i')
                return [('range', z3.And(i >= 0, i <= a.n)),
                        ('bound of the elements seen', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < i), op(s, a.at(k))), lambda k: a.pats(k))),
                        ('attained', EXI(L, lambda w: z3.If(i == 0, s == lim(op), z3.And(w >= 0, w < i, s == a.at(w)))))]
            def post(c, op=op):
                a = T(c)
                return [('bounds every element', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < a.n), op(c.ret, a.at(k))), lambda k: a.pats(k))),
                        ('is one of the elements', witness_post(c, a))]
            add(f'{CS}::{nm}() const', pre=lambda c: [('not empty', T(c).n > 0), ('elements in the range of double', fin(T(c)))], post=post, loops=[LoopSpec(inv, var=lambda L: T(L.c).n - L.v('i'))])
    for nm, f in (('hasNaN', isnan), ('hasInf', isinf), ('hasZero', None)):
        def test(x, f=f):
            if f is None: return mkeq(x, zero(cpx))
            return z3.Or(f(x.re), f(x.im)) if cpx else f(x)
        def inv(L, test=test):
            a = T(L.c); i = L.v('i')
            return [('range', z3.And(i >= 0, i <= a.n)), ('none so far', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < i), z3.Not(test(a.at(k)))), lambda k: a.pats(k)))]
        def post(c, test=test):
            a = T(c)
            i = c.local('i') if c.mode == 'verify' else None
            return [('false means no such element', IMP(z3.Not(c.ret), FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < a.n), z3.Not(test(a.at(k)))), lambda k: a.pats(k)))),
                    ('true means some such element', IMP(c.ret, EX(1, lambda w: z3.And(w >= 0, w < a.n, test(a.at(w))), [(i,)] if i is not None else [])))]
        add(f'{CS}::{nm}() const', post=post, loops=[LoopSpec(inv, var=lambda L: T(L.c).n - L.v('i'))])
    # --- arithmetic
    for op in '+-*/':
        def vpost(c, op=op):
            f = opf(c.run, op)
            return [('componentwise', T(c).all(lambda k: f(T0(c).at(k), A0(c).at(k))))]
        def vval(L, k, op=op): return opf(L.run, op)(T0(L.c).at(k), D(L.run, L.c.old.a[0]).at(k))
        add(f'{VT}::operator{op}=({VT}&)', alias=[{}, {0: 'this'}], throws=[('VectorSizeMismatchException', lambda c: T(c).n != A(c).n)], mod=mod_this, ret=lambda c: c.this, post=vpost, loops=[maploop(vval)])
        def fpost(c, op=op):
            f = sopf(c.run, op, cpx)
            return [('componentwise', T(c).all(lambda k: f(T0(c).at(k), c.ov(0))))]
        def fval(L, k, op=op):
            return sopf(L.run, op, cpx)(T0(L.c).at(k), L.c.ov(0))
        add(f'{VT}::operator{op}=({E_}&)', alias=[{}, {0: 'elem'}], elem=cell_of, mod=mod_this, ret=lambda c: c.this, post=fpost, loops=[maploop(fval)])
    def R_(c): return D(c.run, c.ret)
    def binpost(f):
        def post(c):
            r = R_(c); n, g = f(c)
            return [('length', r.n == n), ('componentwise', r.all(g))]
        return post
    thr = [('VectorSizeMismatchException', lambda c: A(c, 0).n != A(c, 1).n)]
    for op in '+-*/':
        add(f'operator{op}({VT}&,{VT}&)', alias=[{}, {1: 0}], throws=thr, post=binpost(lambda c, op=op: (A(c, 0).n, lambda k: opf(c.run, op)(A(c, 0).at(k), A(c, 1).at(k)))))
        add(f'operator{op}({VT}&,{E_})', post=binpost(lambda c, op=op: (A(c, 0).n, lambda k: sopf(c.run, op, cpx)(A(c, 0).at(k), c.ov(1)))))
        add(f'operator{op}({E_},{VT}&)', setup=rmulneg if cpx and op == '/' else None, post=binpost(lambda c, op=op: (A(c, 1).n, lambda k: sopf(c.run, op, cpx)(c.ov(0), A(c, 1).at(k)))))
    add(f'operator-({VT}&)', post=binpost(lambda c: (A(c, 0).n, lambda k: mkneg(A(c, 0).at(k)))))
    dthr = [('VectorSizeMismatchException', lambda c: T(c).n != A(c).n)]
    add(f'{VT}::dot({VT}&) const', alias=[{}, {0: 'this'}], throws=dthr, post=lambda c: [('sum of products', mkeq(c.ret, dot_of(c.run, T(c), A(c)).at(T(c).n)))],
        loops=[LoopSpec(scan(lambda L, i: [('partial sum', mkeq(L.v('s'), dot_of(L.run, T(L.c), A(L.c)).at(i)))]), body=lambda L: dot_of(L.run, T(L.c), A(L.c)).unfold(L.v('i')), var=lambda L: T(L.c).n - L.v('i'))])
    add(f'{VT}::magSqr() const', post=lambda c: [('sum of squares', mkeq(c.ret, dot_of(c.run, T(c), T(c)).at(T(c).n)))])
    if not cpx:
        from ..stdlib import mksqrt
        mag = lambda c: mksqrt(c.run, dot_of(c.run, T(c), T(c)).at(T(c).n))
        add(f'{VT}::mag() const', post=lambda c: [('root of the sum of squares', c.ret == mag(c))])
        add(f'{VT}::normalized() const', post=lambda c: [('length', R_(c).n == T(c).n), ('divided by the magnitude', R_(c).all(lambda k: c.run.fdiv(T(c).at(k), mag(c))))])
    # --- comparison
    def eqpost(c):
        a, b = A(c, 0), A(c, 1)
        i = c.local('i') if c.mode == 'verify' else None
        r = c.ret if c.sig_eq else z3.Not(c.ret)
        return [('true means equal', IMP(r, FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < a.n), mkeq(a.at(k), b.at(k))), lambda k: a.pats(k) + b.pats(k)))),
                ('false means different', IMP(z3.Not(r), EX(1, lambda w: z3.And(w >= 0, w < a.n, z3.Not(mkeq(a.at(w), b.at(w)))), [(i,)] if i is not None else [])))]
    def eqinv(L):
        a, b = A(L.c, 0), A(L.c, 1); i = L.v('i')
        return [('range', z3.And(i >= 0, i <= a.n)), ('equal so far', FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < i), mkeq(a.at(k), b.at(k))), lambda k: a.pats(k) + b.pats(k)))]
    def eqp(flag):
        def f(c):
            c.sig_eq = flag
            return eqpost(c)
        return f
    add(f'operator==({VT}&,{VT}&)', alias=[{}, {1: 0}], throws=thr, post=eqp(True), loops=[LoopSpec(eqinv, var=lambda L: A(L.c, 0).n - L.v('i'))])
    add(f'operator!=({VT}&,{VT}&)', alias=[{}, {1: 0}], throws=thr, post=eqp(False))
    def haspost(c):
        a = T(c); i = c.local('i') if c.mode == 'verify' else None
        return [('false means absent', IMP(z3.Not(c.ret), FA(1, lambda k: z3.Implies(z3.And(k >= c.v(0), k < c.v(1), k < a.n), z3.Not(mkeq(a.at(k), c.v(2)))), lambda k: a.pats(k)))),
                ('true means present', IMP(c.ret, EX(1, lambda w: z3.And(w >= c.v(0), w < c.v(1), w < a.n, mkeq(a.at(w), c.v(2))), [(i,)] if i is not None else [])))]
    def hasinv(L):
        a = T(L.c); i = L.v('i'); c = L.c
        return [('range', i >= c.v(0)), ('absent so far', FA(1, lambda k: z3.Implies(z3.And(k >= c.v(0), k < i), z3.Not(mkeq(a.at(k), c.v(2)))), lambda k: a.pats(k)))]
    add(f'{VT}::has(u64,u64,{E_}&) const', post=haspost, loops=[LoopSpec(hasinv, var=lambda L: L.c.v(1) - L.v('i'))])


def EXI(L, f):
    """existential loop fact: witnesses are the previous element and the one carried by the loop fact"""
    i = L.v('i')
    return EX(1, f, [(i - 1,), (z3.IntVal(0),)])


def lim(op):
    from ..stdlib import frac, NUMLIM
    return frac(NUMLIM['max']) if z3.is_le(op(z3.RealVal(0) + z3.Real('q'), z3.RealVal(1) + z3.Real('r'))) else frac(NUMLIM['lowest'])


def fin(s):
    from ..stdlib import frac, NUMLIM
    m = frac(NUMLIM['max'])
    return FA(1, lambda k: z3.Implies(z3.And(k >= 0, k < s.n), z3.And(s.at(k) <= m, s.at(k) >= -m)), lambda k: s.pats(k))


def witness_post(c, a):
    return EX(1, lambda w: z3.And(w >= 0, w < a.n, c.ret == a.at(w)), [])


def zero(cpx): return Cpx(0, 0) if cpx else z3.RealVal(0)
def one(cpx): return Cpx(1, 0) if cpx else z3.RealVal(1)


instances('CountableSet<double,vector<double>>', 'Vector<double,vector<double>>', False, False)
instances('CountableSet<double,array<double,3>>', 'Vector<double,array<double,3>>', False, True)
instances('CountableSet<complex<double>,vector<complex<double>>>', 'Vector<complex<double>,vector<complex<double>>>', True, False)


def range_begin(L):
    for fr in reversed(L.frames):
        for nm in fr.names:
            if nm.startswith('__begin'): return nm
    raise Unsupported('no range loop')
