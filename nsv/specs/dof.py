"""Contracts of PolyShapePolicy<double,2,Order>::prepareMesh: which nodes carry the degrees of freedom."""
import z3
from ..core import *
from ..interp import uncast
from ..contracts import Contract, LoopSpec
from .mesh import ST, S_, O_, PD, V_, E_, G_, H, within, mref, setup, listok, BOR

DRV = 'dof'
USES = ['vector', 'mesh']
C = {}
P = 'PolyShapePolicy<double,2,{}>::prepareMesh(Mesh<double,2>&)'
FE = z3.Function('first_element', I, I)         # of an edge: index of the first element having it, the number of elements if none
POS = z3.Function('element_index', I, I)        # of an element: its index in the mesh
RK = z3.Function('rank_of', I, I, I)            # rank_of(g, k): number of elements before k having the edge g
CNT = z3.Function('edges_before', I, I)         # edges_before(k): number of edges of the elements before k
ORDER = (2, 0, 1)                               # the edge opposite to corner 2 comes first


class D(ST):
    def __init__(self, c, old=False, snap=None):
        super().__init__(c, old, snap)
        self.m = mref(c, c.a[0])

    def gdn(self, r): return sel(self._l(G_, '.DOFVertices#len'), r)
    def gd(self, r, k): return sel(sel(self._l(G_, '.DOFVertices[]'), r), iv(k))
    def mid(self, r): return self.gd(r, 2)
    def adj(self, k, g): return z3.Or(*[self.en(self.e(self.m, k), j) == g for j in range(3)])


def b2i(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))


def pre(c):
    s = D(c); m = s.m; ne = s.ne(m)
    ek = lambda f: FA(1, lambda k: z3.Implies(within(k, ne), f(s.e(m, k), k)), lambda k: [s.e(m, k)])
    return [('the handle holds a content', within(m, s.n(PD)))] + listok(c, 'Vertices', 'v', 'nv', V_, m) + listok(c, 'Elements', 'e', 'ne', E_, m) + [
        ('elements are distinct', DEF([ek(lambda e, k: POS(e) == k)])),
        ('corners are vertices', ek(lambda e, k: z3.And(*[within(s.ev(e, i), s.n(V_)) for i in range(3)]))),
        ('neighbour edges', ek(lambda e, k: z3.And(*[within(s.en(e, i), s.n(G_)) for i in range(3)]))),
        ('the edges of an element are distinct', ek(lambda e, k: z3.Distinct(*[s.en(e, i) for i in range(3)]))),
        ('no node yet', z3.And(tobool(ek(lambda e, k: s.edn(e) == 0)), tobool(FA(1, lambda g: z3.Implies(FE(g) < ne, s.gdn(g) == 0), lambda g: [s.gdn(g)])))),
        ('edges have both vertices', FA(2, lambda g, j: z3.Implies(z3.And(within(g, s.n(G_)), within(j, 2)), within(s.gv(g, j), s.n(V_))), lambda g, j: [s.gv(g, j)])),
        ('first element of an edge', DEF([FA(1, lambda g: z3.And(FE(g) >= 0, FE(g) <= ne, z3.Implies(FE(g) < ne, s.adj(FE(g), g))), lambda g: [FE(g)]),
                                         ek(lambda e, k: z3.And(*[FE(s.en(e, j)) <= k for j in range(3)]))])),
        ('rank', DEF([FA(1, lambda g: RK(g, z3.IntVal(0)) == 0, lambda g: [RK(g, z3.IntVal(0))]), FA(2, lambda g, k: z3.Implies(within(k, ne), RK(g, k + 1) == RK(g, k) + b2i(s.adj(k, g))), lambda g, k: [z3.MultiPattern(RK(g, k), s.e(m, k))])])),
        ('bits', DEF([BOR(z3.IntVal(x), z3.IntVal(y)) == (x | y) for x in range(4) for y in range(1, 4)])),
        ('number of edges', DEF([CNT(z3.IntVal(0)) == 0, FA(1, lambda k: z3.Implies(within(k, ne), CNT(k + 1) == CNT(k) + sum(b2i(FE(s.en(s.e(m, k), j)) == k) for j in range(3))), lambda k: [CNT(k)])]))]


def corners(c, i, n=3):
    """the nodes of the first i elements are their corners, the others are untouched"""
    s, o = D(c), D(c, True); m = s.m
    isin = lambda r: z3.And(POS(r) >= 0, POS(r) < i, s.e(m, POS(r)) == r)
    return [('number of nodes of an element', FA(1, lambda r: s.edn(r) == z3.If(isin(r), n, o.edn(r)), lambda r: [s.edn(r)])),
            ('corners come first', FA(1, lambda k: z3.Implies(within(k, i), z3.And(*[s.ed(s.e(m, k), j) == s.ev(s.e(m, k), j) for j in range(3)])), lambda k: [s.e(m, k)])),
            ('the other elements are untouched', FA(2, lambda r, j: z3.Implies(z3.Not(isin(r)), s.ed(r, j) == o.ed(r, j)), lambda r, j: [s.ed(r, j)]))]


def ends(c, i, n=2):
    s, o = D(c), D(c, True); ne = o.ne(s.m)
    has = lambda g: FE(g) < i
    return [('number of nodes of an edge', FA(1, lambda g: s.gdn(g) == z3.If(has(g), n, o.gdn(g)), lambda g: [s.gdn(g)])),
            ('vertices of the edge come first', FA(1, lambda g: z3.Implies(has(g), z3.And(s.gd(g, 0) == s.gv(g, 0), s.gd(g, 1) == s.gv(g, 1))), lambda g: [FE(g)])),
            ('the other edges are untouched', FA(2, lambda g, j: z3.Implies(z3.Not(has(g)), s.gd(g, j) == o.gd(g, j)), lambda g, j: [s.gd(g, j)]))]


def post1(c):
    ne = D(c).ne(D(c).m)
    return corners(c, ne) + ends(c, ne)


NODES = [(E_, ['[].DOFVertices#len', '[].DOFVertices[]']), (G_, ['[].DOFVertices#len', '[].DOFVertices[]'])]


def mod1(c): return [(H(c, cls), ps) for cls, ps in NODES]


def rng(L): return [('range', z3.And(L.pos() >= 0, L.pos() <= D(L.c, True).ne(D(L.c).m)))]
def left(L): return D(L.c, True).ne(D(L.c).m) - L.pos()


first = LoopSpec(lambda L: rng(L) + corners(L.c, L.pos()) + ends(L.c, L.pos()), var=left)


def add(sig, **kw):
    C[sig] = Contract(sig, **kw)


add(P.format(1), setup=setup((0, None)), pre=pre, mod=mod1, post=post1, loops=[first, None, None, None], opts=dict(nla=False))


# ---- order 2: one more node in the middle of every edge
def nodes2(c, i):
    s, o = D(c), D(c, True); m = s.m; ne = o.ne(m)
    isin = lambda r, n: z3.And(POS(r) >= 0, POS(r) < n, s.e(m, POS(r)) == r)
    el = [('number of nodes of an element', FA(1, lambda r: s.edn(r) == z3.If(isin(r, i), 6, z3.If(isin(r, ne), 3, o.edn(r))), lambda r: [s.edn(r)])),
          ('corners come first', FA(1, lambda k: z3.Implies(within(k, ne), z3.And(*[s.ed(s.e(m, k), j) == s.ev(s.e(m, k), j) for j in range(3)])), lambda k: [s.e(m, k)])),
          ('then the middle of each edge, in order', FA(1, lambda k: z3.Implies(within(k, i), z3.And(*[s.ed(s.e(m, k), 3 + t) == s.mid(s.en(s.e(m, k), j)) for t, j in enumerate(ORDER)])), lambda k: [s.e(m, k)])),
          ('the other elements are untouched', FA(2, lambda r, j: z3.Implies(z3.Not(isin(r, ne)), s.ed(r, j) == o.ed(r, j)), lambda r, j: [s.ed(r, j)]))]
    ed = [('number of nodes of an edge', FA(1, lambda g: s.gdn(g) == z3.If(FE(g) < i, 3, z3.If(FE(g) < ne, 2, o.gdn(g))), lambda g: [s.gdn(g)])),
          ('vertices of the edge come first', FA(1, lambda g: z3.Implies(FE(g) < ne, z3.And(s.gd(g, 0) == s.gv(g, 0), s.gd(g, 1) == s.gv(g, 1))), lambda g: [FE(g)])),
          ('the other edges are untouched', FA(2, lambda g, j: z3.Implies(FE(g) >= ne, s.gd(g, j) == o.gd(g, j)), lambda g, j: [s.gd(g, j)]))]
    n0, v0 = o.n(V_), o.nv(m)
    one = lambda f, *p: FA(1, lambda g: z3.Implies(z3.And(g >= 0, FE(g) < i), f(g)), lambda g: [s.mid(g)])
    mids = [('a new vertex in the middle', one(lambda g: z3.And(s.mid(g) >= n0, s.mid(g) < s.n(V_)))),
            *[(f'coordinate {k} of the middle', one(lambda g, k=k: s.vx(s.mid(g), k) == mkrmul(mkadd(o.vx(o.gv(g, 0), k), o.vx(o.gv(g, 1), k)), z3.RealVal('1/2')))) for k in range(2)],
            ('flags of the middle', one(lambda g: s.fl(s.mid(g)) == z3.If(z3.Or(o.ge(g, 0) == -1, o.ge(g, 1) == -1), 3, 2))),
            ('one for each edge', FA(2, lambda g, h: z3.Implies(z3.And(g >= 0, h >= 0, FE(g) < i, FE(h) < i, s.mid(g) == s.mid(h)), g == h), lambda g, h: [z3.MultiPattern(s.mid(g), s.mid(h))])),
            ('registered with as many elements as have the edge', one(lambda g: s.vn(s.mid(g)) == RK(g, i))),
            ('registered with the elements that have the edge, in order', FA(2, lambda g, k: z3.Implies(z3.And(g >= 0, within(k, i), s.adj(k, g)), s.ve(s.mid(g), RK(g, k)) == s.e(m, k)), lambda g, k: [z3.MultiPattern(s.mid(g), s.e(m, k))]))]
    new = [('one new vertex for each edge', z3.And(CNT(i) >= 0, s.nv(m) == v0 + CNT(i), s.n(V_) == n0 + CNT(i))),
           ('in order of creation', FA(1, lambda k: z3.Implies(within(k, s.nv(m)), s.v(m, k) == z3.If(k < v0, o.v(m, k), n0 + k - v0)), lambda k: [s.v(m, k)])),
           ('index', FA(1, lambda r: z3.Implies(z3.And(r >= n0, r < s.n(V_)), s.gi(r) == v0 + r - n0), lambda r: [s.gi(r)])),
           *[(f'the vertices there were keep their {nm}', FA(1, lambda r, f=f: z3.Implies(z3.And(r >= 0, r < n0), f(s, r) == f(o, r)), lambda r, f=f: [f(s, r)]))
             for nm, f in (('flags', lambda x, r: x.fl(r)), ('index', lambda x, r: x.gi(r)), ('number of registrations', lambda x, r: x.vn(r)), ('first coordinate', lambda x, r: x.vx(r, 0)), ('second coordinate', lambda x, r: x.vx(r, 1)))],
           ('and so are their registrations', FA(2, lambda r, k: z3.Implies(z3.And(r >= 0, r < n0), s.ve(r, k) == o.ve(r, k)), lambda r, k: [s.ve(r, k)])),
           ('other meshes are untouched', FA(1, lambda r: z3.Implies(r != m, s.nv(r) == o.nv(r)), lambda r: [s.nv(r)])), ('and their lists', FA(2, lambda r, k: z3.Implies(r != m, s.v(r, k) == o.v(r, k)), lambda r, k: [s.v(r, k)]))]
    return el + ed + mids + new


def rank(c, i):
    s = D(c)
    return [('rank below', FA(2, lambda g, k: z3.Implies(z3.And(within(k, i), s.adj(k, g)), z3.And(RK(g, k) >= 0, RK(g, k) < RK(g, i))), lambda g, k: [RK(g, k)])),
            ('rank positive', FA(1, lambda g: z3.And(RK(g, i) >= 0, (RK(g, i) > 0) == (FE(g) < i)), lambda g: [RK(g, i)]))]


def step(L):
    s, i = D(L.c), L.pos()
    return [('rank of the next element', FA(1, lambda g: RK(g, i + 1) == RK(g, i) + b2i(s.adj(i, g)), lambda g: [RK(g, i + 1)]))]


def mod2(c): return mod1(c) + [H(c, V_), (H(c, PD), ['[].Vertices#len', '[].Vertices[]'])]


second = LoopSpec(lambda L: rng(L) + nodes2(L.c, L.pos()) + rank(L.c, L.pos()), var=left, start=step)
add(P.format(2), setup=setup((0, None)), pre=pre, mod=mod2, post=lambda c: nodes2(c, D(c, True).ne(D(c).m)), loops=[first, None, None, None, None, None, None, second], opts=dict(nla=False))
