"""Contracts of Mesh, its parts and the hypercube generator (heap regions per class)."""
import z3
from ..core import *
from ..interp import Cast, uncast
from ..ast import Ty
from ..contracts import Contract, LoopSpec

DRV = 'mesh'
USES = ['simplex']
C = {}
M = 'Mesh<double,2>::'
OP = dict(nla=False)


def add(sig, **kw):
    kw.setdefault('opts', OP)
    C[sig] = Contract(sig, **kw)
    return C[sig]


class HP:
    """heap regions of one state"""
    def __init__(self, run, snap=None):
        self.run = run; self.snap = snap

    def root(self, cls):
        r = self.run.heap(self.run.unit.types.parse(cls))
        return self.snap.lv(r) if self.snap is not None else r

    def obj(self, cls, ref): return Elem(self.root(cls), ref, self.run.unit.types.parse(cls))

    def leaf(self, cls, p): return self.root(cls).get('[]' + p)

    def n(self, cls): return self.root(cls).get('#len')


PD, V_, E_, G_ = 'Mesh<double,2>::PrivateData', 'MeshVertex<double,2>', 'MeshElement<double,2>', 'MeshEdge<double,2>'




class ST:
    """one state of the heap, by object reference"""
    def __init__(self, c, old=False, snap=None):
        self.c = c; self.run = c.run
        self.h = HP(c.run, snap if snap is not None else c.old.snap if old else None)
        self.old = old

    def _l(self, cls, p):
        if not hasattr(self, '_m'): self._m = {}
        k = (cls, p)
        if k not in self._m: self._m[k] = self.h.leaf(cls, p)
        return self._m[k]

    def n(self, cls): return self.h.n(cls)
    # vertices
    def fl(self, r): return sel(self._l(V_, '.Flags'), r)
    def gi(self, r): return sel(self._l(V_, '.GlobalIndex'), r)
    def vx(self, r, k): return sel(sel(self._l(V_, '.Vertex.mData[]'), r), z3.IntVal(k))
    def vn(self, r): return sel(self._l(V_, '.Elements#len'), r)
    def ve(self, r, k): return sel(sel(self._l(V_, '.Elements[]'), r), iv(k))
    # elements
    def ev(self, r, i): return sel(sel(self._l(E_, '.Vertices[]'), r), iv(i))
    def en(self, r, i): return sel(sel(self._l(E_, '.Neighbors[]'), r), iv(i))
    def ex(self, r, i, k): return sel(sel(sel(self._l(E_, '.Element.mVertices[].mData[]'), r), iv(i)), z3.IntVal(k))
    def edn(self, r): return sel(self._l(E_, '.DOFVertices#len'), r)
    def ed(self, r, k): return sel(sel(self._l(E_, '.DOFVertices[]'), r), iv(k))
    # edges
    def gv(self, r, i): return sel(sel(self._l(G_, '.Vertices[]'), r), iv(i))
    def ge(self, r, i): return sel(sel(self._l(G_, '.Elements[]'), r), iv(i))
    # mesh data
    def nv(self, m): return sel(self._l(PD, '.Vertices#len'), m)
    def v(self, m, i): return sel(sel(self._l(PD, '.Vertices[]'), m), iv(i))
    def ne(self, m): return sel(self._l(PD, '.Elements#len'), m)
    def e(self, m, i): return sel(sel(self._l(PD, '.Elements[]'), m), iv(i))
    def ng(self, m): return sel(self._l(PD, '.Edges#len'), m)
    def g(self, m, i): return sel(sel(self._l(PD, '.Edges[]'), m), iv(i))
    def refs(self, m): return sel(self._l(PD, '.Refs'), m)


S_ = lambda c: ST(c)
O_ = lambda c: ST(c, True)


def mref(c, x=None, old=False):
    """reference of the content a handle points to"""
    lv = uncast(c.this if x is None else x)
    p = lv.get('.mData')
    if p is NULL: return z3.IntVal(-1)
    if z3.is_expr(p): return p
    return uncast(p.lv).idx


def pref(c, i):
    """reference passed as pointer argument i"""
    lv = c.a[i]
    p = lv if not isinstance(lv, LV) else c.run.load(lv)
    if p is NULL: return z3.IntVal(-1)
    return uncast(p.lv).idx


def hptr(run, cls, nm):
    t = run.unit.types.parse(cls)
    return PtrVal(Elem(run.heap(t), run.fresh(nm, I), t), None)


def setup(*args):
    """this handle holds a content; the listed pointer arguments designate heap objects"""
    def f(c):
        if c.this is not None: uncast(c.this).leaves['.mData'] = hptr(c.run, PD, 'content')
        for i, cls in args:
            if cls is None: uncast(c.a[i]).leaves['.mData'] = hptr(c.run, PD, f'content{i}')
            else: c.a[i].leaves[''] = hptr(c.run, cls, f'ptr{i}')
    return f


def within(r, n): return z3.And(r >= 0, r < n)


def held(c):
    return [('the handle holds a content', within(mref(c), S_(c).n(PD)))]


def H(c, cls): return S_(c).h.root(cls)


def same(c, cls, paths):
    """unchanged leaves of a heap region"""
    return [getattr(S_(c), 'h').leaf(cls, p) == getattr(O_(c), 'h').leaf(cls, p) for p in paths]


# ---- blank parts
def arr(c, p, i): return sel(uncast(c.this).get(p), z3.IntVal(i))


add('MeshVertex<double,2>::(ctor)()', post=lambda c: [('blank', z3.And(c.this.get('.Flags') == 0, c.this.get('.GlobalIndex') == 0, c.this.get('.Elements#len') == 0, *[arr(c, '.Vertex.mData[]', k) == 0 for k in range(2)]))])
add('MeshVertex<double,2>::(ctor)(Vector<double,array<double,2>>&)', post=lambda c: [('blank at the given point', z3.And(c.this.get('.Flags') == 0, c.this.get('.GlobalIndex') == 0, c.this.get('.Elements#len') == 0, *[arr(c, '.Vertex.mData[]', k) == sel(c.a[0].get('.mData[]'), z3.IntVal(k)) for k in range(2)]))])
add('MeshElement<double,2>::(ctor)()', post=lambda c: [('blank', z3.And(c.this.get('.DOFVertices#len') == 0, *[arr(c, p, k) == -1 for p in ('.Vertices[]', '.Neighbors[]') for k in range(3)]))])
add('MeshEdge<double,2>::(ctor)()', post=lambda c: [('blank', z3.And(c.this.get('.DOFVertices#len') == 0, *[arr(c, p, k) == -1 for p in ('.Vertices[]', '.Elements[]') for k in range(2)]))])

# ---- access
for nm, cls, f, n in (('vertex', V_, 'v', 'nv'), ('element', E_, 'e', 'ne'), ('edge', G_, 'g', 'ng')):
    add(M + f'{nm}(u64) const', setup=setup(), pre=lambda c, n=n: held(c) + [('index in range', c.v(0) < getattr(S_(c), n)(mref(c)))],
        ret=lambda c, f=f, cls=cls: PtrVal(Elem(c.run.heap(c.run.unit.types.parse(cls)), getattr(S_(c), f)(mref(c), c.v(0)), c.run.unit.types.parse(cls)), None),
        post=lambda c, f=f: [('the stored pointer', uncast(c.ret.lv).idx == getattr(S_(c), f)(mref(c), c.v(0)))])
for nm, fld in (('vertices', 'Vertices'), ('elements', 'Elements'), ('edges', 'Edges')):
    def ret(c, fld=fld):
        o = S_(c).h.obj(PD, mref(c))
        return Field(o, fld, c.run.eng.fieldty(o.ty, fld))
    add(M + f'{nm}() const', setup=setup(), pre=held, ret=ret)


def setpost(f, n, fld):
    def post(c):
        s, o, m = S_(c), O_(c), mref(c)
        i, r = c.v(0), pref(c, 1)
        old = o.h.leaf(PD, f'.{fld}[]')
        return [('exactly this entry replaced', s.h.leaf(PD, f'.{fld}[]') == z3.Store(old, m, z3.Store(z3.Select(old, m), i, r)))]
    return post


for nm, cls, f, n, fld in (('setVertex', V_, 'v', 'nv', 'Vertices'), ('setElement', E_, 'e', 'ne', 'Elements')):
    add(M + f'{nm}(u64,{cls}*)', setup=setup((1, cls)), pre=lambda c, n=n: held(c) + [('index in range', c.v(0) < getattr(S_(c), n)(mref(c)))],
        mod=lambda c, fld=fld: [(H(c, PD), [f'[].{fld}[]'])], post=setpost(f, n, fld))
for nm in ('reserveVertices', 'reserveElements'):
    add(M + f'{nm}(u64)', setup=setup(), pre=lambda c: held(c) + [('positive', c.v(0) > 0)])


# ---- building
def pushed(c, fld, r):
    s, o, m = S_(c), O_(c), mref(c)
    ol, oa = o.h.leaf(PD, f'.{fld}#len'), o.h.leaf(PD, f'.{fld}[]')
    return [('list grows by one', s.h.leaf(PD, f'.{fld}#len') == z3.Store(ol, m, z3.Select(ol, m) + 1)),
            ('appended at the end, nothing else changes', s.h.leaf(PD, f'.{fld}[]') == z3.Store(oa, m, z3.Store(z3.Select(oa, m), z3.Select(ol, m), r)))]


def avpost(c):
    s, o, m, r = S_(c), O_(c), mref(c), pref(c, 0)
    return pushed(c, 'Vertices', r) + [('carries its index', s.h.leaf(V_, '.GlobalIndex') == z3.Store(o.h.leaf(V_, '.GlobalIndex'), r, o.nv(m)))]


add(M + 'addVertex(MeshVertex<double,2>*)', setup=setup((0, V_)), pre=lambda c: held(c) + [('an object', within(pref(c, 0), S_(c).n(V_))), ('length', S_(c).nv(mref(c)) >= 0)],
    mod=lambda c: [(H(c, PD), ['[].Vertices#len', '[].Vertices[]']), (H(c, V_), ['[].GlobalIndex'])], post=avpost)


def aepre(c):
    s, e = S_(c), pref(c, 0)
    return held(c) + [('an object', within(e, s.n(E_)))] + [(f'corner {i} is a vertex', within(s.ev(e, i), s.n(V_))) for i in range(3)] + [
        ('corners are distinct', z3.Distinct(*[s.ev(e, i) for i in range(3)])), ('length', s.ne(mref(c)) >= 0), ('lengths', FA(1, lambda r: s.vn(r) >= 0, lambda r: [s.vn(r)]))]


def aepost(c):
    s, o, m, e = S_(c), O_(c), mref(c), pref(c, 0)
    vs = [o.ev(e, i) for i in range(3)]
    inn = lambda r: z3.Or(*[r == v for v in vs])
    xs, xo = s.h.leaf(E_, '.Element.mVertices[].mData[]'), o.h.leaf(E_, '.Element.mVertices[].mData[]')
    return pushed(c, 'Elements', e) + [('coordinates of its vertices', z3.And(*[s.ex(e, i, k) == o.vx(vs[i], k) for i in range(3) for k in range(2)])),
        ('other elements keep their coordinates', FA(1, lambda r: z3.Implies(r != e, z3.Select(xs, r) == z3.Select(xo, r)), lambda r: [z3.Select(xs, r)])),
        ('registered exactly once with each of its vertices and no other', FA(1, lambda r: s.vn(r) == o.vn(r) + z3.If(inn(r), 1, 0), lambda r: [s.vn(r)])),
        ('registered entry', FA(1, lambda r: z3.Implies(inn(r), s.ve(r, o.vn(r)) == e), lambda r: [s.vn(r), s.ve(r, o.vn(r))])),
        ('other registrations kept', FA(2, lambda r, k: z3.Implies(z3.And(0 <= k, k < o.vn(r)), s.ve(r, k) == o.ve(r, k)), lambda r, k: [s.ve(r, k), o.ve(r, k)]))]


add(M + 'addElement(MeshElement<double,2>*)', setup=setup((0, E_)), pre=aepre,
    mod=lambda c: [(H(c, PD), ['[].Elements#len', '[].Elements[]']), (H(c, E_), ['[].Element.mVertices[].mData[]', '[].Element.mPrepared']), (H(c, V_), ['[].Elements#len', '[].Elements[]'])], post=aepost)


# ---- lifetime (ownership: 'alive' flags per heap object)
AL = dict(alive=True)
POS = z3.Function('position', z3.ArraySort(I, I), I, I)


def alive(c, cls, old=False):
    run = c.run
    run.alive(run.heap(run.unit.types.parse(cls)))
    r = run.roots['alive:heap:' + run.heap(run.unit.types.parse(cls)).name[5:]]
    return (c.old.snap.lv(r) if old else r).get('[]')


def aroot(c, cls):
    alive(c, cls)
    return c.run.roots['alive:' + c.run.heap(c.run.unit.types.parse(cls)).name]


PARTS = [('Vertices', V_, 'v', 'nv'), ('Elements', E_, 'e', 'ne'), ('Edges', G_, 'g', 'ng')]


def lst(c, m, fld, old=False):
    h = (O_ if old else S_)(c).h
    return z3.Select(h.leaf(PD, f'.{fld}[]'), m), z3.Select(h.leaf(PD, f'.{fld}#len'), m)


def owned(c, m, old=False):
    """the parts of content m are alive objects, each listed once"""
    out = []
    for fld, cls, f, n in PARTS:
        l, k = lst(c, m, fld, old)
        out += [(f'{fld}: length', k >= 0), (f'{fld}: alive objects, each listed once', listed(l, k, alive(c, cls, old), S_(c).n(cls)))]
    return out


def listed(l, k, al, n):
    return FA(1, lambda i: z3.Implies(within(i, k), z3.And(within(z3.Select(l, i), n), z3.Select(al, z3.Select(l, i)), POS(l, z3.Select(l, i)) == i)), lambda i: [z3.Select(l, i)])


def inlist(l, k, r, upto=None):
    """r is one of the first entries (POS is the left inverse of the list)"""
    p = POS(l, r)
    return z3.And(p >= 0, p < (k if upto is None else upto), z3.Select(l, p) == r)


def released(c, m, fld, cls, upto=None, al=None, al0=None, l=None, k=None):
    return FA(1, lambda r: z3.Select(al, r) == z3.And(z3.Select(al0, r), z3.Not(inlist(l, k, r, upto))), lambda r: [z3.Select(al, r)])


def clearedpost(c, m):
    out = []
    for fld, cls, f, n in PARTS:
        l, k = lst(c, m, fld, True)
        out += [(f'{fld}: empty', S_(c).h.leaf(PD, f'.{fld}#len') == z3.Store(O_(c).h.leaf(PD, f'.{fld}#len'), m, z3.IntVal(0))),
                (f'{fld}: exactly the listed objects are released', released(c, m, fld, cls, None, alive(c, cls), alive(c, cls, True), l, k))]
    return out


def clearmod(c): return [(H(c, PD), ['[].Vertices#len', '[].Elements#len', '[].Edges#len'])] + [(aroot(c, cls), ['[]']) for _, cls, _, _ in PARTS]


def clearloop(j):
    fld, cls, f, n = PARTS[j]
    def inv(L):
        c = L.c; m = mref(c.old); i = L.pos()
        l, k = lst(c, m, fld, True)
        return [('range', z3.And(i >= 0, i <= k)), ('released so far', released(c, m, fld, cls, i, alive(c, cls), alive(c, cls, True), l, k))]
    return LoopSpec(inv, var=lambda L: lst(L.c, mref(L.c.old), fld, True)[1] - L.pos())


def live(c): return held(c) + [('content is alive', z3.Select(alive(c, PD), mref(c)))]


add(M + 'clear()', setup=setup(), opts=AL, pre=lambda c: live(c) + owned(c, mref(c)), mod=clearmod, post=lambda c: clearedpost(c, mref(c)), loops=[clearloop(j) for j in range(3)])


# ---- handles
def unchanged(c, skip=()):
    """the listed content is untouched (used for handles that keep their content)"""
    return []


def refset(c, f):
    """Refs of every content; f: reference -> expected value from the old state"""
    s, o = S_(c), O_(c)
    return FA(1, lambda r: z3.Implies(within(r, o.n(PD)), s.refs(r) == f(o, r)), lambda r: [s.refs(r)])


def ctorpost(c):
    s, o, m = S_(c), O_(c), mref(c)
    keep = lambda p: (lambda a, b: FA(1, lambda r: z3.Implies(within(r, o.n(PD)), z3.Select(a, r) == z3.Select(b, r)), lambda r: [z3.Select(a, r)]))(s.h.leaf(PD, p), o.h.leaf(PD, p))
    return [('a content of its own', z3.And(m == o.n(PD), s.n(PD) == m + 1, s.refs(m) == 1, s.nv(m) == 0, s.ne(m) == 0, s.ng(m) == 0)), ('alive', alive(c, PD) == z3.Store(alive(c, PD, True), m, z3.BoolVal(True)))] + [
        (f'other contents keep {p}', keep(p)) for p in ('.Refs', '.Vertices#len', '.Vertices[]', '.Elements#len', '.Elements[]', '.Edges#len', '.Edges[]')]


def newmod(c): return [H(c, PD), (aroot(c, PD), ['[]'])]


def handle_init(c):
    """result of a constructor: the handle points to some content"""
    uncast(c.this).leaves['.mData'] = hptr(c.run, PD, 'content')


add(M + '(ctor)()', opts=AL, setup=lambda c: aroot(c, PD), mod=lambda c: newmod(c), post=ctorpost, retinit=handle_init)


def other(c, old=False): return mref(c, (c.old if old else c).a[0])


def liveo(c): return [('the other handle holds an alive, counted content', z3.And(within(other(c), S_(c).n(PD)), z3.Select(alive(c, PD), other(c)), S_(c).refs(other(c)) >= 1))]


def refmod(c): return [(H(c, PD), ['[].Refs'])]


def refstore(c, r, d):
    o = O_(c).h.leaf(PD, '.Refs')
    return z3.Store(o, r, z3.Select(o, r) + d)


def osetup(c):
    aroot(c, PD); uncast(c.a[0]).leaves['.mData'] = hptr(c.run, PD, 'other')


add(M + '(ctor)(Mesh<double,2>&)', opts=AL, setup=osetup, pre=liveo, mod=refmod, retinit=handle_init,
    post=lambda c: [('same content', mref(c) == other(c, True)), ('the other handle keeps it', other(c) == other(c, True)), ('counted once more', S_(c).h.leaf(PD, '.Refs') == refstore(c, other(c, True), 1))])
add(M + 'move (ctor)(Mesh<double,2>&)', opts=AL, setup=osetup, mod=lambda c: [(c.a[0], ['.mData'])], retinit=handle_init,
    post=lambda c: [('takes the content', mref(c) == other(c, True)), ('the other handle is empty', other(c) == -1)])


def ownhandle(c):
    """a handle is empty or holds an alive, counted content with its parts"""
    m = mref(c); l = z3.And(within(m, S_(c).n(PD)), z3.Select(alive(c, PD), m), S_(c).refs(m) >= 1)
    return [('empty or an alive, counted content', z3.Or(m == -1, l))] + [(nm, IMP(m != -1, g)) for nm, g in owned(c, m)]


def relmod(c): return clearmod(c) + [(H(c, PD), ['[].Refs']), (aroot(c, PD), ['[]'])]


def relpost(c, m, last, kept):
    """content m is released when last holds, untouched otherwise; kept: expected count otherwise"""
    s, o = S_(c), O_(c); out = []
    for fld, cls, f, n in PARTS:
        l, k = lst(c, m, fld, True)
        a, a0 = alive(c, cls), alive(c, cls, True)
        out += [(f'{fld}: released exactly once with the last handle', IMP(last, released(c, m, fld, cls, None, a, a0, l, k))), (f'{fld}: never earlier', z3.Implies(z3.Not(last), a == a0)),
                (f'{fld}: kept', z3.Implies(z3.Not(last), s.h.leaf(PD, f'.{fld}#len') == o.h.leaf(PD, f'.{fld}#len'))),
                (f'{fld}: other contents keep theirs', lenkeep(s.h.leaf(PD, f'.{fld}#len'), o.h.leaf(PD, f'.{fld}#len'), m))]
    out += [('the content itself is released with the last handle', alive(c, PD) == z3.If(last, z3.Store(alive(c, PD, True), m, z3.BoolVal(False)), alive(c, PD, True)))]
    return out


def lenkeep(a, b, m): return FA(1, lambda r: z3.Implies(r != m, z3.Select(a, r) == z3.Select(b, r)), lambda r: [z3.Select(a, r)])


def dtorpost(c):
    m = mref(c.old); o = O_(c)
    last = z3.And(m != -1, o.refs(m) == 1)
    return relpost(c, m, last, None) + [('counted once less', S_(c).h.leaf(PD, '.Refs') == z3.If(m != -1, refstore(c, m, -1), o.h.leaf(PD, '.Refs')))]


def tsetup(c):
    aroot(c, PD); [aroot(c, x[1]) for x in PARTS]
    uncast(c.this).leaves['.mData'] = hptr(c.run, PD, 'content')


add(M + '(dtor)()', opts=AL, setup=tsetup, pre=ownhandle, mod=relmod, post=dtorpost)


def asetup(c):
    tsetup(c)
    if uncast(c.a[0]) is not uncast(c.this): uncast(c.a[0]).leaves['.mData'] = hptr(c.run, PD, 'other')


def selfassign(c): return uncast(c.a[0]) is uncast(c.this)


def apre(c):
    if selfassign(c): return ownhandle(c)
    return ownhandle(c) + liveo(c) + [('two handles are counted twice', z3.Implies(mref(c) == other(c), S_(c).refs(mref(c)) >= 2))]


def apost(c):
    if selfassign(c): return [('keeps its content', mref(c) == mref(c.old)), ('count unchanged', S_(c).h.leaf(PD, '.Refs') == O_(c).h.leaf(PD, '.Refs')), ('nothing released', z3.And(alive(c, PD) == alive(c, PD, True), *[alive(c, x[1]) == alive(c, x[1], True) for x in PARTS]))]
    m, q, o = mref(c.old), other(c, True), O_(c)
    last = z3.And(m != -1, m != q, o.refs(m) == 1)
    r0 = o.h.leaf(PD, '.Refs')
    r1 = z3.If(m != -1, z3.Store(r0, m, z3.Select(r0, m) - 1), r0)
    return relpost(c, m, last, None) + [('refers to the other content', mref(c) == q), ('the other handle keeps it', other(c) == q), ('counts', S_(c).h.leaf(PD, '.Refs') == z3.Store(r1, q, z3.Select(r1, q) + 1))]


def mapost(c):
    if selfassign(c): return apost(c)
    m, q, o = mref(c.old), other(c, True), O_(c)
    last = z3.And(m != -1, o.refs(m) == 1)
    r0 = o.h.leaf(PD, '.Refs')
    return relpost(c, m, last, None) + [('takes the other content', mref(c) == q), ('the other handle is empty', other(c) == -1), ('counts', S_(c).h.leaf(PD, '.Refs') == z3.If(m != -1, z3.Store(r0, m, z3.Select(r0, m) - 1), r0))]


def mapre(c):
    if selfassign(c): return ownhandle(c)
    return ownhandle(c) + [('two handles are counted twice', z3.Implies(z3.And(mref(c) != -1, mref(c) == other(c)), S_(c).refs(mref(c)) >= 2))]


hmod = lambda c: relmod(c) + [(c.this, ['.mData'])]
add(M + 'operator=(Mesh<double,2>&)', opts=AL, setup=asetup, alias=[{}, {0: 'this'}], pre=apre, mod=hmod, ret=lambda c: c.this, post=apost)
add(M + 'move operator=(Mesh<double,2>&)', opts=AL, setup=asetup, alias=[{}, {0: 'this'}], pre=mapre, mod=lambda c: hmod(c) + [(c.a[0], ['.mData'])], ret=lambda c: c.this, post=mapost)


# ---- whole-mesh passes
from .simplex import G as SG, EPS, ab
BOR = z3.Function('bitor', I, I, I)


def listok(c, fld, f, n, cls, m=None):
    s = S_(c); m = mref(c) if m is None else m
    return [(f'{fld}: length', getattr(s, n)(m) >= 0), (f'{fld}: objects', FA(1, lambda k: z3.Implies(within(k, getattr(s, n)(m)), within(getattr(s, f)(m, k), s.n(cls))), lambda k: [getattr(s, f)(m, k)]))]


def sx(c, r):
    o = S_(c).h.obj(E_, r)
    return SG(c.run, Field(o, 'Element', c.run.eng.fieldty(o.ty, 'Element')))


def prepd(c, r): return z3.And(*[g for _, g in sx(c, r).prepared()])


def allprep(c, n):
    s, m = S_(c), mref(c)
    return FA(1, lambda k: z3.Implies(within(k, n), prepd(c, s.e(m, k))), lambda k: [s.e(m, k)])


def nondeg(c):
    s, m = S_(c), mref(c)
    return FA(1, lambda k: z3.Implies(within(k, s.ne(m)), z3.And(*[g for _, g in sx(c, s.e(m, k)).nd()])), lambda k: [s.e(m, k)])


PREP = ['[].Element.mPrepared', '[].Element.mDeterminant', '[].Element.mMatrix.mValues.Container[]', '[].Element.mInverseMatrix.mValues.Container[]']
add(M + 'prepare()', opts=NLA_ if False else dict(nla=True), setup=setup(), pre=lambda c: held(c) + listok(c, 'Elements', 'e', 'ne', E_) + [('no element is degenerate', nondeg(c))], mod=lambda c: [(H(c, E_), PREP)],
    post=lambda c: [('every element is prepared', allprep(c, S_(c).ne(mref(c))))],
    loops=[LoopSpec(lambda L: [('range', z3.And(L.pos() >= 0, L.pos() <= S_(L.c).ne(mref(L.c)))), ('prepared so far', allprep(L.c, L.pos()))], var=lambda L: S_(L.c).ne(mref(L.c)) - L.pos())])

FIRST = z3.Function('first_boundary_edge', I, I)     # of a vertex; the number of edges if there is none


def bd(s, g): return z3.Or(s.ge(g, 0) == -1, s.ge(g, 1) == -1)
def onedge(s, g, r): return z3.Or(s.gv(g, 0) == r, s.gv(g, 1) == r)


def firstdef(c):
    s, m = S_(c), mref(c)
    return DEF([FA(1, lambda r: z3.And(FIRST(r) >= 0, FIRST(r) <= s.ng(m), z3.Implies(FIRST(r) < s.ng(m), z3.And(bd(s, s.g(m, FIRST(r))), onedge(s, s.g(m, FIRST(r)), r)))), lambda r: [FIRST(r)]),
                FA(2, lambda k, r: z3.Implies(z3.And(within(k, s.ng(m)), bd(s, s.g(m, k)), onedge(s, s.g(m, k), r)), FIRST(r) <= k), lambda k, r: [z3.MultiPattern(s.g(m, k), FIRST(r))])])


def flagged(c, i):
    s, o = S_(c), O_(c)
    return FA(1, lambda r: s.fl(r) == z3.If(FIRST(r) < i, BOR(o.fl(r), z3.IntVal(1)), o.fl(r)), lambda r: [s.fl(r)])


def edgesok(c):
    s, m = S_(c), mref(c)
    return listok(c, 'Edges', 'g', 'ng', G_) + [('edges have both vertices', FA(1, lambda k: z3.Implies(within(k, s.ng(m)), z3.And(*[within(s.gv(s.g(m, k), j), s.n(V_)) for j in range(2)])), lambda k: [s.g(m, k)]))]


add(M + 'setupBoundaries()', setup=setup(), pre=lambda c: held(c) + edgesok(c) + [('first edge', firstdef(c))], mod=lambda c: [(H(c, V_), ['[].Flags'])],
    post=lambda c: [('exactly the vertices of edges with one element get the boundary flag', flagged(c, S_(c).ng(mref(c))))],
    loops=[LoopSpec(lambda L: [('range', z3.And(L.pos() >= 0, L.pos() <= S_(L.c).ng(mref(L.c)))), ('flags so far', flagged(L.c, L.pos()))], var=lambda L: S_(L.c).ng(mref(L.c)) - L.pos()), None])

FD = z3.Function('first_dof', I, I, I)


def contains(s, e, v): return z3.If(s.edn(e) == 0, z3.Or(*[s.ev(e, i) == v for i in range(3)]), FD(e, v) < s.edn(e))


def fddef(c):
    s = S_(c)
    return DEF([FA(2, lambda e, v: z3.And(FD(e, v) >= 0, FD(e, v) <= s.edn(e), z3.Implies(FD(e, v) < s.edn(e), s.ed(e, FD(e, v)) == v)), lambda e, v: [FD(e, v)]),
                FA(3, lambda e, v, q: z3.Implies(z3.And(within(q, s.edn(e)), s.ed(e, q) == v), FD(e, v) <= q), lambda e, v, q: [z3.MultiPattern(s.ed(e, q), FD(e, v))])])


def dist(s, e, i):
    d = [mksub(s.ex(e, i, k), s.vx(s.ev(e, i), k)) for k in (0, 1)]
    return mkadd(mkrmul(d[0], d[0]), mkrmul(d[1], d[1]))


def vok(s, m, k): return [('index', s.gi(s.v(m, k)) == k), ('used', s.vn(s.v(m, k)) > 0)]
def reg(s, m, k, j): return contains(s, s.ve(s.v(m, k), j), s.v(m, k))
def det(s, e): return sel(s._l(E_, '.Element.mDeterminant'), e)
def eok(s, e, i): return z3.And(s.ev(e, i) != -1, z3.Not(ab(dist(s, e, i)) > EPS))


def vpre(c):
    s, m = S_(c), mref(c)
    return held(c) + listok(c, 'Vertices', 'v', 'nv', V_) + listok(c, 'Elements', 'e', 'ne', E_) + [('lengths', z3.And(tobool(FA(1, lambda r: s.vn(r) >= 0, lambda r: [s.vn(r)])), tobool(FA(1, lambda r: s.edn(r) >= 0, lambda r: [s.edn(r)])))),
        ('registered objects', FA(2, lambda k, j: z3.Implies(z3.And(within(k, s.n(V_)), within(j, s.vn(k))), within(s.ve(k, j), s.n(E_))), lambda k, j: [s.ve(k, j)])),
        ('corners are vertices or missing', FA(2, lambda e, i: z3.Implies(z3.And(within(e, s.n(E_)), within(i, 3)), z3.And(s.ev(e, i) >= -1, s.ev(e, i) < s.n(V_))), lambda e, i: [s.ev(e, i)])),
        ('elements are prepared', FA(1, lambda k: z3.Implies(within(k, s.ne(m)), sel(s._l(E_, '.Element.mPrepared'), s.e(m, k))), lambda k: [s.e(m, k)])), ('first position', fddef(c))]


def vinv0(c, n):
    s, m = S_(c), mref(c)
    return [('vertices so far carry their index and are used', FA(1, lambda k: z3.Implies(within(k, n), z3.And(*[g for _, g in vok(s, m, k)])), lambda k: [s.v(m, k)])),
            ('elements registered with the vertices so far contain them', FA(2, lambda k, j: z3.Implies(z3.And(within(k, n), within(j, s.vn(s.v(m, k)))), reg(s, m, k, j)), lambda k, j: [s.ve(s.v(m, k), j)]))]


def einv(c, n):
    s, m = S_(c), mref(c)
    return [('elements so far have matching corners', FA(1, lambda k: z3.Implies(within(k, n), z3.And(*[eok(s, s.e(m, k), i) for i in range(3)])), lambda k: [s.e(m, k)])),
            ('elements so far have a volume', FA(1, lambda k: z3.Implies(within(k, n), ab(det(s, s.e(m, k))) / 2 > EPS), lambda k: [s.e(m, k)])),
            ('elements so far have all neighbour edges', FA(1, lambda k: z3.Implies(within(k, n), z3.And(*[s.en(s.e(m, k), i) != -1 for i in range(3)])), lambda k: [s.e(m, k)]))]


def wit(c, *nm): return [tuple(c.memo[n] for n in nm)] if all(n in c.memo for n in nm) else None


def rec(nm):
    def body(L):
        L.c.old.memo[nm] = L.pos()
        return z3.BoolVal(True)
    return body


def bad(nv, f, *nm):
    def cond(c):
        s, m = S_(c), mref(c)
        lim = s.nv(m) if nv else s.ne(m)
        if len(nm) == 1: return EX(1, lambda k: z3.And(within(k, lim), f(s, m, k)), wit=wit(c, *nm), pats=lambda k: [s.v(m, k) if nv else s.e(m, k)])
        return EX(2, lambda k, j: z3.And(within(k, lim), within(j, s.vn(s.v(m, k))), f(s, m, k, j)), wit=wit(c, *nm), pats=lambda k, j: [s.ve(s.v(m, k), j)])
    return cond


add(M + 'validate() const', inline=('Simplex<double,2>::volume() const',), setup=setup(), pre=vpre,
    post=lambda c: vinv0(c, S_(c).nv(mref(c))) + einv(c, S_(c).ne(mref(c))),
    throws=[('InvalidVertexIndexException', bad(True, lambda s, m, k: s.gi(s.v(m, k)) != k, 'k')), ('IsolatedVertexException', bad(True, lambda s, m, k: s.vn(s.v(m, k)) == 0, 'k')),
            ('MalformedVertexElementConnectionException', bad(True, lambda s, m, k, j: z3.Not(reg(s, m, k, j)), 'k', 'j')),
            ('IncompleteElementException', bad(False, lambda s, m, k: z3.Not(z3.And(*[eok(s, s.e(m, k), i) for i in range(3)])), 'e')),
            ('ZeroVolumeSimplexException', bad(False, lambda s, m, k: ab(det(s, s.e(m, k))) / 2 <= EPS, 'e')),
            ('MalformedElementNeighborConnectionException', bad(False, lambda s, m, k: z3.Or(*[s.en(s.e(m, k), i) == -1 for i in range(3)]), 'e'))],
    loops=[LoopSpec(lambda L: [('range', z3.And(L.pos() >= 0, L.pos() <= S_(L.c).nv(mref(L.c)), L.v('id') == L.pos()))] + vinv0(L.c, L.pos()), body=rec('k'), var=lambda L: S_(L.c).nv(mref(L.c)) - L.pos()),
           LoopSpec(lambda L: (lambda s, m, k: [('range', z3.And(L.pos() >= 0, L.pos() <= s.vn(s.v(m, k)))), ('so far', FA(1, lambda j: z3.Implies(within(j, L.pos()), reg(s, m, k, j)), lambda j: [s.ve(s.v(m, k), j)]))])(S_(L.c), mref(L.c), L.pos(1)), body=rec('j'),
                    var=lambda L: S_(L.c).vn(S_(L.c).v(mref(L.c), L.pos(1))) - L.pos()), None,
           LoopSpec(lambda L: (lambda s, m, k, j: (lambda e, v: [('range', z3.And(L.pos() >= 0, L.pos() <= s.edn(e))), ('not found so far', z3.Not(L.v('found'))), ('not among the first', FA(1, lambda q: z3.Implies(within(q, L.pos()), s.ed(e, q) != v), lambda q: [s.ed(e, q)]))])(s.ve(s.v(m, k), j), s.v(m, k)))(S_(L.c), mref(L.c), L.pos(2), L.pos(1)),
                    var=lambda L: S_(L.c).edn(S_(L.c).ve(S_(L.c).v(mref(L.c), L.pos(2)), L.pos(1))) - L.pos()),
           LoopSpec(lambda L: [('range', z3.And(L.pos() >= 0, L.pos() <= S_(L.c).ne(mref(L.c))))] + einv(L.c, L.pos()), body=rec('e'), var=lambda L: S_(L.c).ne(mref(L.c)) - L.pos()), None, None])


# ---- neighbours: LE(e) = e is an element of the mesh under construction, LP its position
LE = z3.Function('mesh_element', I, B)
LP = z3.Function('mesh_position', I, I)


def has(s, e, r): return z3.Or(*[s.ev(e, i) == r for i in range(3)])
def isg(s, g, r): return z3.Or(s.gv(g, 0) == r, s.gv(g, 1) == r)
def side(s, e, g): return z3.If(z3.Not(isg(s, g, s.ev(e, 0))), z3.IntVal(0), z3.If(z3.Not(isg(s, g, s.ev(e, 1))), z3.IntVal(1), z3.IntVal(2)))
def fa_(s, e, i): return z3.If(iv(i) == 0, s.ev(e, 1), s.ev(e, 0))
def fb_(s, e, i): return z3.If(iv(i) == 2, s.ev(e, 1), s.ev(e, 2))
def both(s, e, g): return z3.And(has(s, e, s.gv(g, 0)), has(s, e, s.gv(g, 1)))
def enat(s, e, i): return z3.If(i == 0, s.en(e, 0), z3.If(i == 1, s.en(e, 1), s.en(e, 2)))
def corners(s, e): return z3.And(z3.Distinct(*[s.ev(e, i) for i in range(3)]), *[within(s.ev(e, i), s.n(V_)) for i in range(3)])


_x = [0]


def exz(f, pat):
    _x[0] += 1
    x = z3.Int(f'ex!{_x[0]}')
    return z3.Exists([x], f(x), patterns=[pat(x)])


def built(c, m=None):
    """the mesh before neighbours are set up: what addVertex and addElement establish"""
    s = S_(c); m = mref(c) if m is None else m
    k_ = lambda f: FA(1, lambda k: z3.Implies(within(k, s.ne(m)), f(k, s.e(m, k))), lambda k: [s.e(m, k)])
    return listok(c, 'Elements', 'e', 'ne', E_, m) + [('objects', s.n(G_) >= 0),
        ('each element is listed once', FA(2, lambda k, q: z3.Implies(z3.And(0 <= k, k < q, q < s.ne(m)), s.e(m, k) != s.e(m, q)), lambda k, q: [z3.MultiPattern(s.e(m, k), s.e(m, q))])),
        ('corners are distinct vertices', k_(lambda k, e: corners(s, e))), ('lengths', FA(1, lambda r: s.vn(r) >= 0, lambda r: [s.vn(r)])),
        ('no neighbours yet', k_(lambda k, e: z3.And(*[s.en(e, i) == -1 for i in range(3)]))), ('no edges yet', s.ng(m) == 0)] + [
        (f'registered with corner {i}', k_(lambda k, e, i=i: exz(lambda j: z3.And(within(j, s.vn(s.ev(e, i))), s.ve(s.ev(e, i), j) == e), lambda j: s.ve(s.ev(e, i), j)))) for i in range(3)] + [
        ('only elements of the mesh are registered with its corners', FA(3, lambda k, i, j: (lambda v: z3.Implies(z3.And(within(k, s.ne(m)), within(i, 3), within(j, s.vn(v))), exz(lambda q: z3.And(within(q, s.ne(m)), s.e(m, q) == s.ve(v, j)), lambda q: s.e(m, q))))(s.ev(s.e(m, k), i)),
            lambda k, i, j: [s.ve(s.ev(s.e(m, k), i), j)]))]


def ledef(c):
    s, m = S_(c), mref(c)
    return DEF([FA(1, lambda k: z3.Implies(within(k, s.ne(m)), z3.And(LE(s.e(m, k)), LP(s.e(m, k)) == k)), lambda k: [s.e(m, k)]),
                FA(1, lambda e: z3.Implies(LE(e), z3.And(within(LP(e), s.ne(m)), s.e(m, LP(e)) == e)), lambda e: [LE(e)])])


def edgeok(s, g):
    """edge g: its vertices, its elements and their links back"""
    side_ok = lambda x: z3.Implies(s.ge(g, x) != -1, z3.And(LE(s.ge(g, x)), both(s, s.ge(g, x), g), enat(s, s.ge(g, x), side(s, s.ge(g, x), g)) == g))
    return z3.And(s.ge(g, 0) != -1, s.gv(g, 0) != s.gv(g, 1), s.ge(g, 0) != s.ge(g, 1), side_ok(0), side_ok(1))


def linkok(s, e, i, lo, skip=None):
    """neighbour i of e is missing or the edge of this face"""
    g = s.en(e, i)
    return z3.Or(g == -1, z3.And(g >= lo, g < s.n(G_), both(s, e, g), side(s, e, g) == i, z3.Or(s.ge(g, 0) == e, s.ge(g, 1) == e)))


def nb(c, skip=None):
    """links between the edges created so far and the elements; skip: the edge under construction"""
    s, o, m = S_(c), O_(c), mref(c)
    n0 = o.n(G_); rg = lambda g: z3.And(g >= n0, g < s.n(G_), *([g != skip] if skip is not None else []))
    N, NO = s.h.leaf(E_, '.Neighbors[]'), o.h.leaf(E_, '.Neighbors[]')
    return [('edges are linked from their elements', FA(1, lambda g: z3.Implies(rg(g), edgeok(s, g)), lambda g: [z3.Select(s._l(G_, ".Elements[]"), g)])),
            ('an edge knows every element with its two vertices', FA(2, lambda g, e: z3.Implies(z3.And(rg(g), LE(e), both(s, e, g)), z3.Or(s.ge(g, 0) == e, s.ge(g, 1) == e)), lambda g, e: [z3.MultiPattern(z3.Select(s._l(G_, ".Vertices[]"), g), LE(e))])),
            ('neighbours are edges of their face', FA(1, lambda e: z3.Implies(LE(e), z3.And(*[linkok(s, e, i, n0) for i in range(3)])), lambda e: [LE(e)])),
            ('other elements keep their neighbours', FA(1, lambda e: z3.Implies(z3.Not(LE(e)), z3.Select(N, e) == z3.Select(NO, e)), lambda e: [z3.Select(N, e)]))]


def nlist(c):
    s, o, m = S_(c), O_(c), mref(c)
    ol, oa = s.h.leaf(PD, '.Edges#len'), s.h.leaf(PD, '.Edges[]')
    keep = lambda a, b: FA(1, lambda r: z3.Implies(r != m, z3.Select(a, r) == z3.Select(b, r)), lambda r: [z3.Select(a, r)])
    return [('as many edges as listed', z3.And(s.n(G_) - o.n(G_) == s.ng(m), s.ng(m) >= 0)), ('edges are listed once', FA(1, lambda q: z3.Implies(within(q, s.ng(m)), s.g(m, q) == o.n(G_) + q), lambda q: [s.g(m, q)])),
            ('other meshes keep their edges', keep(ol, o.h.leaf(PD, '.Edges#len'))), ('other meshes keep their edge lists', keep(oa, o.h.leaf(PD, '.Edges[]')))]


def nset(c, p):
    s, m = S_(c), mref(c)
    return [('every face so far has its edge', FA(1, lambda k: z3.Implies(within(k, p), z3.And(*[s.en(s.e(m, k), i) != -1 for i in range(3)])), lambda k: [s.e(m, k)]))]


def nouter(L):
    c = L.c; s, m = S_(c), mref(c)
    return [('range', z3.And(L.pos() >= 0, L.pos() <= s.ne(m)))] + nlist(c) + nb(c) + nset(c, L.pos())


def nmid(L):
    c = L.c; s, m = S_(c), mref(c); i = L.pos(); S = s.e(m, L.pos(1))
    return [('range', rng3(i))] + nlist(c) + nb(c) + nset(c, L.pos(1)) + [('faces of this element so far', z3.And(*[z3.Implies(z3.IntVal(q) < i, s.en(S, q) != -1) for q in range(3)]))]


def named_(L, nm, e):
    """a constant for the value (so that it may occur in patterns)"""
    d = L.__dict__.setdefault('_named', {})
    if nm not in d:
        d[nm] = L.c.run.fresh(nm, I); L.c.run.assume(d[nm] == e)
    return d[nm]


def nsearch(L):
    """the second element is the only other one found"""
    c = L.c; s, m = S_(c), mref(c); p = ST(c, snap=L.pre)
    j, q = L.pos(1), L.pos(); S = s.e(m, L.pos(3)); i = L.pos(2)
    g = s.n(G_) - 1; a, b = named_(L, 'fa', fa_(s, S, i)), named_(L, 'fb', fb_(s, S, i)); x = s.ge(g, 1)
    v = named_(L, 'fv', z3.If(iv(j) == 0, a, b))
    done = lambda v, lim: FA(1, lambda k: z3.Implies(z3.And(within(k, lim), s.ve(v, k) != S, has(s, s.ve(v, k), a), has(s, s.ve(v, k), b)), s.ve(v, k) == x), lambda k: [s.ve(v, k)])
    A, A0 = s.h.leaf(G_, '.Elements[]'), p.h.leaf(G_, '.Elements[]')
    return [('range', z3.And(q >= 0, q <= s.vn(v))), ('first element', s.ge(g, 0) == S), ('other edges keep their elements', FA(1, lambda r: z3.Implies(r != g, z3.Select(A, r) == z3.Select(A0, r)), lambda r: [z3.Select(A, r)])),
            ('second element', z3.Or(x == -1, z3.And(LE(x), x != S, has(s, x, a), has(s, x, b)))), ('all found among those of the first vertex', IMP(z3.Or(iv(j) > 0, q >= s.vn(a)), done(a, s.vn(a)))), ('all found so far', done(v, q))]


def links(c, m):
    """faces, their edges and the elements on both sides"""
    s = S_(c)
    k_ = lambda f: FA(1, lambda k: z3.Implies(within(k, s.ne(m)), f(k, s.e(m, k))), lambda k: [s.e(m, k)])
    g_ = lambda f: FA(1, lambda q: z3.Implies(within(q, s.ng(m)), f(s.g(m, q))), lambda q: [s.g(m, q)])
    lk = lambda g, x: z3.Implies(s.ge(g, x) != -1, exz(lambda k: z3.And(within(k, s.ne(m)), s.e(m, k) == s.ge(g, x), both(s, s.ge(g, x), g), enat(s, s.ge(g, x), side(s, s.ge(g, x), g)) == g), lambda k: s.e(m, k)))
    sameface = lambda g, h: z3.And(isg(s, h, s.gv(g, 0)), isg(s, h, s.gv(g, 1)))
    return [(f'face {i} has its edge, linked to the element', k_(lambda k, e, i=i: (lambda g: z3.And(g != -1, both(s, e, g), side(s, e, g) == i, z3.Or(s.ge(g, 0) == e, s.ge(g, 1) == e)))(s.en(e, i)))) for i in range(3)] + [
        ('an edge has two vertices and a first element', g_(lambda g: z3.And(s.gv(g, 0) != s.gv(g, 1), s.ge(g, 0) != -1, s.ge(g, 0) != s.ge(g, 1))))] + [
        (f'element {x} of an edge is an element of the mesh that has the face and the edge', g_(lambda g, x=x: lk(g, x))) for x in (0, 1)] + [
        ('an edge knows every element of its face', FA(2, lambda q, k: z3.Implies(z3.And(within(q, s.ng(m)), within(k, s.ne(m)), both(s, s.e(m, k), s.g(m, q))), z3.Or(s.ge(s.g(m, q), 0) == s.e(m, k), s.ge(s.g(m, q), 1) == s.e(m, k))), lambda q, k: [z3.MultiPattern(s.g(m, q), s.e(m, k))])),
        ('one edge per face', FA(2, lambda q, k: z3.Implies(z3.And(within(q, s.ng(m)), within(k, s.ng(m)), sameface(s.g(m, q), s.g(m, k))), q == k), lambda q, k: [z3.MultiPattern(s.g(m, q), s.g(m, k))]))]


def npost(c):
    s, o, m = S_(c), O_(c), mref(c)
    N, NO = s.h.leaf(E_, '.Neighbors[]'), o.h.leaf(E_, '.Neighbors[]')
    notlisted = lambda e: z3.Not(exz(lambda k: z3.And(within(k, s.ne(m)), s.e(m, k) == e), lambda k: s.e(m, k)))
    return nlist(c) + links(c, m) + [('other elements keep their neighbours', FA(1, lambda e: z3.Implies(notlisted(e), z3.Select(N, e) == z3.Select(NO, e)), lambda e: [z3.Select(N, e)]))]


def nv_(L): return L.__dict__['_named']['fv']


def rng3(q): return z3.Or(*[q == z for z in range(4)])


def fresh_face(L):
    """a face without an edge: no edge so far has its two vertices"""
    c = L.c; s, o, m = S_(c), O_(c), mref(c); i = L.pos(); S = s.e(m, L.pos(1))
    out = []
    for q in range(3):
        a, b = fa_(s, S, z3.IntVal(q)), fb_(s, S, z3.IntVal(q)); a, b = [(s.ev(S, 1), s.ev(S, 2)), (s.ev(S, 0), s.ev(S, 2)), (s.ev(S, 0), s.ev(S, 1))][q]
        st = lambda nm, f, a=a, b=b: out.append((f'{nm} {q}', IMP(i == q, FA(1, lambda g: z3.Implies(z3.And(g >= o.n(G_), g < s.n(G_), isg(s, g, a), isg(s, g, b)), f(g)), lambda g: [z3.Select(s._l(G_, '.Vertices[]'), g)]))))
        st('edge with the vertices of face', lambda g, a=a, b=b: z3.Or(z3.And(s.gv(g, 0) == a, s.gv(g, 1) == b), z3.And(s.gv(g, 0) == b, s.gv(g, 1) == a)))
        st('the element has both vertices of face', lambda g: both(s, S, g))
        st('the edge knows the element at face', lambda g: z3.Or(s.ge(g, 0) == S, s.ge(g, 1) == S))
        st('side of the face', lambda g, q=q: side(s, S, g) == q)
        st('the element knows the edge at face', lambda g, q=q: s.en(S, q) == g)
        st('no edge yet if there is no neighbour at face', lambda g, q=q: s.en(S, q) != -1)
    return [('element', LE(S)), ('corners', corners(s, S))] + out


def nopp(L):
    """the corner of the other element that is not in the face"""
    c = L.c; s, m = S_(c), mref(c); q = L.pos(); S, i = s.e(m, L.pos(2)), L.pos(1)
    a, b = fa_(s, S, i), fb_(s, S, i); x = s.ge(s.n(G_) - 1, 1)
    return [('range', rng3(q)), ('corners so far belong to the face', z3.And(*[z3.Implies(q > z, z3.Or(s.ev(x, z) == a, s.ev(x, z) == b)) for z in range(3)]))]


def ncount(L):
    """corners of the candidate that belong to the face"""
    c = L.c; s, m = S_(c), mref(c); q = L.pos()
    j, S, i = L.pos(2), s.e(m, L.pos(4)), L.pos(3)
    a, b = fa_(s, S, i), fb_(s, S, i); oe = s.ve(z3.If(iv(j) == 0, a, b), L.pos(1))
    return [('range', rng3(q)), ('matches', L.v('matches') == z3.Sum(*[z3.If(z3.And(q > z, z3.Or(s.ev(oe, z) == a, s.ev(oe, z) == b)), 1, 0) for z in range(3)]))]


def many(c):
    """a face with three elements"""
    s, m = S_(c), mref(c)
    return EX(3, lambda k, p, q: three(s, m, k, p, q), wit=c.memo.get('many'), pats=lambda k, p, q: [z3.MultiPattern(s.e(m, k), s.e(m, p), s.e(m, q))])


def three(s, m, k, p, q):
    """elements k, p, q of the mesh share a face"""
    e = s.e(m, k); n = s.ne(m)
    out = []
    for i in range(3):
        a, b = [(s.ev(e, 1), s.ev(e, 2)), (s.ev(e, 0), s.ev(e, 2)), (s.ev(e, 0), s.ev(e, 1))][i]
        out.append(z3.And(*[z3.And(has(s, s.e(m, z), a), has(s, s.e(m, z), b)) for z in (p, q)]))
    return z3.And(within(k, n), within(p, n), within(q, n), p != q, p != k, q != k, z3.Or(*out))


def manyrec(L):
    c = L.c; s, m = S_(c), mref(c); S, i = s.e(m, L.pos(3)), L.pos(2)
    v = z3.If(iv(L.pos(1)) == 0, fa_(s, S, i), fb_(s, S, i))
    L.c.old.memo['many'] = [(L.pos(3), LP(s.ge(s.n(G_) - 1, 1)), LP(s.ve(v, L.pos())))]
    return z3.BoolVal(True)


add(M + 'setupNeighbors()', setup=setup(), pre=lambda c: held(c) + built(c) + ([('elements', ledef(c))] if c.mode == 'verify' else []),
    mod=lambda c: [(H(c, PD), ['[].Edges#len', '[].Edges[]']), (H(c, E_), ['[].Neighbors[]']), H(c, G_)], post=npost,
    throws=[('TooManySharedFacesException', many)],
    loops=[LoopSpec(nouter, var=lambda L: S_(L.c).ne(mref(L.c)) - L.pos()), LoopSpec(nmid, var=lambda L: 3 - L.pos(), start=fresh_face), None, None, None,
           LoopSpec(nsearch, body=manyrec, var=lambda L: L.v('__range1') if False else S_(L.c).vn(nv_(L)) - L.pos()), LoopSpec(ncount, var=lambda L: 3 - L.pos()), None, LoopSpec(nopp, var=lambda L: 3 - L.pos()), None])


# ---- hypercube: grid position (i, j) is vertex lin(i, W, j) with W columns
HG = 'HyperCube<double,2>::generate(Vector<unsigned long,array<unsigned long,2>>&,Vector<double,array<double,2>>&,Vector<double,array<double,2>>&)'


def hmesh(c):
    """content of the mesh being built (local variable, later the result)"""
    x = c.ret if c.ret is not None else c.local('mesh')
    return mref(c, x)


class Grid:
    def __init__(self, c):
        self.c = c; s = self.s = S_(c); o = self.o = O_(c)
        self.m = hmesh(c)
        a0 = c.old.a
        self.a, self.b = (sel(a0[0].get('.mData[]'), z3.IntVal(k)) for k in (0, 1))
        self.size = [sel(a0[1].get('.mData[]'), z3.IntVal(k)) for k in (0, 1)]
        self.off = [sel(a0[2].get('.mData[]'), z3.IntVal(k)) for k in (0, 1)]
        self.W = self.a + 1
        self.v0, self.e0 = o.n(V_), o.n(E_)

    def V(self, i, j): return self.v0 + lin(iv(i), self.W, iv(j))


    @property
    def hx(self): return mkrmul(self.size[0], rinv(z3.ToReal(self.a)))

    @property
    def hy(self): return mkrmul(self.size[1], rinv(z3.ToReal(self.b)))

    def arr(self): return uncast(self.c.local('lastRowVertices').lv).get('[]')

    def verts(self, n, bd):
        """the first n vertices: grid positions, flags on the boundary found so far (bd: row, column -> condition)"""
        s, m, W = self.s, self.m, self.W
        rc = lambda r: (lfst(r - self.v0, W), lsnd(r - self.v0, W))
        R_ = lambda f, p: FA(1, lambda r: z3.Implies(z3.And(r >= self.v0, r < self.v0 + n), f(r, *rc(r))), lambda r: [p(r)])
        return [('vertices are new objects', z3.And(s.nv(m) == n, s.n(V_) == self.v0 + n)), ('vertices in order of creation', FA(1, lambda k: z3.Implies(within(k, n), s.v(m, k) == self.v0 + k), lambda k: [s.v(m, k)])),
                ('vertex index', R_(lambda r, i, j: s.gi(r) == r - self.v0, s.gi)),
                ('grid position, first axis', R_(lambda r, i, j: s.vx(r, 0) == self.off[0] + mkrmul(self.hx, z3.ToReal(j)), lambda r: s.vx(r, 0))),
                ('grid position, second axis', R_(lambda r, i, j: s.vx(r, 1) == self.off[1] + mkrmul(self.hy, z3.ToReal(i)), lambda r: s.vx(r, 1))),
                ('boundary flag', R_(lambda r, i, j: s.fl(r) == z3.If(bd(i, j), 1, 0), s.fl)),
                ('lengths', FA(1, lambda r: s.vn(r) >= 0, lambda r: [s.vn(r)])),
                ('only elements of the mesh are registered', FA(2, lambda r, t: z3.Implies(z3.And(r >= self.v0, r < self.v0 + n, within(t, s.vn(r))), exz(lambda q: z3.And(within(q, s.ne(m)), s.e(m, q) == s.ve(r, t)), lambda q: s.e(m, q))), lambda r, t: [s.ve(r, t)]))]

    def corner(self, k, x):
        """grid coordinates of corner x of element k"""
        z = k / 2; i, j = lfst(z, self.a), lsnd(z, self.a); even = k % 2 == 0
        return [(i, j), (i + 1, z3.If(even, j, j + 1)), (z3.If(even, i + 1, i), j + 1)][x]

    def elems(self, n):
        s, m = self.s, self.m
        R_ = lambda f, p: FA(1, lambda r: z3.Implies(z3.And(r >= self.e0, r < self.e0 + n), f(r)), lambda r: [p(r)])
        out = [('elements are new objects', z3.And(s.ne(m) == n, s.n(E_) == self.e0 + n)), ('elements in order of creation', FA(1, lambda k: z3.Implies(within(k, n), s.e(m, k) == self.e0 + k), lambda k: [s.e(m, k)]))]
        for x in range(3):
            out += [(f'corner {x}', R_(lambda r, x=x: s.ev(r, x) == self.V(*self.corner(r - self.e0, x)), lambda r, x=x: s.ev(r, x))),
                    (f'registered with corner {x}', R_(lambda r, x=x: exz(lambda t: z3.And(within(t, s.vn(s.ev(r, x))), s.ve(s.ev(r, x), t) == r), lambda t: s.ve(s.ev(r, x), t)), lambda r, x=x: s.ev(r, x))),
                    (f'no neighbour at face {x}', R_(lambda r, x=x: s.en(r, x) == -1, lambda r, x=x: s.en(r, x)))]
            for k in range(2): out.append((f'coordinate {k} of corner {x}', R_(lambda r, x=x, k=k: s.ex(r, x, k) == s.vx(s.ev(r, x), k), lambda r, x=x, k=k: s.ex(r, x, k))))
        return out

    def row(self, n, f, nm='last row'):
        return [(nm, FA(1, lambda q: z3.Implies(within(q, n), sel(self.arr(), q) == f(q)), lambda q: [sel(self.arr(), q)]))]


def linax(c):
    """lin(u, v, j) = u v + j"""
    return DEF([FA(3, lambda u, v, j: lin(u, v, j) == imul(u, v) + j, lambda u, v, j: [lin(u, v, j)])])


def imulstep(u, v): return z3.And(imul(u + 1, v) == imul(u, v) + v)


def h0(L):
    g = Grid(L.c); j = L.pos()
    return [('range', z3.And(j >= 0, j <= g.W)), ('no edges', g.s.ng(g.m) == 0)] + g.verts(j, lambda i, q: i == 0) + g.elems(z3.IntVal(0)) + g.row(j, lambda q: g.V(0, q))


def h1(L):
    g = Grid(L.c); i = L.pos()
    return [('range', z3.And(i >= 1, i <= g.b + 1)), ('no edges', g.s.ng(g.m) == 0)] + g.verts(lin(i, g.W, z3.IntVal(0)), lambda r, q: z3.Or(r == 0, q == 0, q == g.a)) + g.elems(2 * lin(i - 1, g.a, z3.IntVal(0))) + g.row(g.W, lambda q: g.V(i - 1, q))


def h2(L):
    g = Grid(L.c); i, j = L.pos(1), L.pos()
    return [('range', z3.And(j >= 1, j <= g.W)), ('no edges', g.s.ng(g.m) == 0)] + g.verts(lin(i, g.W, j), lambda r, q: z3.Or(r == 0, q == 0, z3.And(q == g.a, r < i))) + g.elems(2 * lin(i - 1, g.a, j - 1)) + \
        g.row(g.W, lambda q: z3.If(q < j - 1, g.V(i, q), g.V(i - 1, q))) + [('last vertex', uncast(L.v('lastVertex').lv).idx == g.V(i, j - 1))]


def hstart(L):
    L._pre2 = L.c.run.snapshot()
    return []


def hkept(L):
    """what one step keeps (triggered by terms of the state before the step)"""
    g = Grid(L.c); s, m = g.s, g.m; p = ST(L.c, snap=L._pre2)
    n = p.ne(m)
    return [('lists only grow', FA(1, lambda r: z3.Implies(r < p.n(V_), s.vn(r) >= p.vn(r)), lambda r: [p.vn(r)])), ('registrations are kept', FA(2, lambda r, t: z3.Implies(z3.And(within(t, p.vn(r)), r < p.n(V_)), s.ve(r, t) == p.ve(r, t)), lambda r, t: [p.ve(r, t)])),
            ('elements are kept', FA(1, lambda q: z3.Implies(within(q, n), s.e(m, q) == p.e(m, q)), lambda q: [p.e(m, q)])), ('corners are kept', FA(1, lambda r: z3.Implies(r < p.n(E_), z3.And(*[s.ev(r, x) == p.ev(r, x) for x in range(3)])), lambda r: [z3.Select(s._l(E_, '.Vertices[]'), r)])),
            ('new registrations', FA(2, lambda r, t: z3.Implies(z3.And(r >= g.v0, r < s.n(V_), within(t, s.vn(r))), z3.Or(z3.And(r < p.n(V_), t < p.vn(r), s.ve(r, t) == p.ve(r, t)), s.ve(r, t) == g.e0 + n, s.ve(r, t) == g.e0 + n + 1)), lambda r, t: [s.ve(r, t)])),
            ('new elements', z3.And(s.e(m, n) == g.e0 + n, s.e(m, n + 1) == g.e0 + n + 1))]


def h3(L):
    g = Grid(L.c); j = L.pos()
    return [('range', z3.And(j >= 0, j <= g.W)), ('no edges', g.s.ng(g.m) == 0)] + g.verts(lin(g.b + 1, g.W, z3.IntVal(0)), lambda r, q: z3.Or(r == 0, q == 0, q == g.a, z3.And(r == g.b, q < j))) + g.elems(2 * lin(g.b, g.a, z3.IntVal(0))) + g.row(g.W, lambda q: g.V(g.b, q)) + \
        [('no face has three elements', FA(3, lambda k, p, q: z3.Not(three(g.s, g.m, k, p, q)), lambda k, p, q: [z3.MultiPattern(g.s.e(g.m, k), g.s.e(g.m, p), g.s.e(g.m, q))]))]


def hpost(c):
    g = Grid(c); s, m = g.s, g.m
    return [(nm, f) for nm, f in g.verts(imul(g.W, g.b + 1), lambda i, j: z3.Or(i == 0, i == g.b, j == 0, j == g.a)) + g.elems(2 * imul(g.a, g.b)) if not nm.startswith(('no neighbour', 'lengths'))] + links(c, m)


HL = [None] * 15
HL[4] = LoopSpec(h0, var=lambda L: Grid(L.c).W - L.pos())
HL[7] = LoopSpec(h1, var=lambda L: Grid(L.c).b + 1 - L.pos(), body=lambda L: z3.And(imulstep(L.pos(), Grid(L.c).W), imulstep(L.pos() - 1, Grid(L.c).a)))
HL[10] = LoopSpec(h2, var=lambda L: Grid(L.c).W - L.pos(), start=hstart, end=hkept)
HL[14] = LoopSpec(h3, var=lambda L: Grid(L.c).W - L.pos())
add(HG, pre=lambda c: [('lengths', FA(1, lambda r: S_(c).vn(r) >= 0, lambda r: [S_(c).vn(r)])), ('grid index', linax(c))], mod=lambda c: [H(c, x) for x in (PD, V_, E_, G_)], post=hpost, loops=HL, throws=[('InvalidElementCountException', lambda c: z3.Or(*[sel(c.a[0].get('.mData[]'), z3.IntVal(k)) < 1 for k in (0, 1)]))])
