"""Contracts of the mesh file loaders (texts and streams: nsv/text.py)."""
import z3
from ..core import *
from ..interp import uncast
from ..contracts import Contract, LoopSpec
from .. import text as T
from .mesh import ST, S_, O_, H, PD, V_, E_, G_, within, mref, hptr, hmesh, corners, exz, built, links, many, wit

DRV = 'loader'
USES = ['mesh', 'simplex']
C = {}
TL = 'MeshTriangleLoader<double>::'
IT = '__normal_iterator<signed char*,string>'
AI = T.AI
SK, NS_ = (z3.Function(n, AI, I, I, I) for n in ('field_start', 'nonspace'))


def add(sig, **kw):
    kw.setdefault('opts', dict(nla=False))
    C[sig] = Contract(sig, **kw)
    return C[sig]


def skip_axioms(A, s, e):
    """nonspace: first position that is not white space; field_start: the same, or the end if the rest is a comment"""
    p = NS_(A, s, e)
    return z3.Implies(s <= e, z3.And(s <= p, p <= e, z3.Implies(p < e, z3.Not(T.ISSP(sel(A, p)))), SK(A, s, e) == z3.If(z3.And(p < e, sel(A, p) != 35), p, e)))


def it(c, i, old=False):
    v = (c.old if old else c).a[i]
    if isinstance(v, LV): v = c.run.load(v)
    return v


def isetup(c):
    run = c.run
    r = run.new_root('text', run.unit.types.parse('std::string')); r.serial = 0
    run.assume(r.get('#len') >= 0)
    for i in (0, 1): uncast(c.a[i]).leaves[''] = PtrVal(r, run.fresh(f'pos{i}', I))


def win(c, old=True):
    """characters, start and end of the range"""
    a, b = it(c, 0, old), it(c, 1)
    return uncast(b.lv).get('[]'), a.idx, b.idx


def ipre(c):
    a, b = it(c, 0), it(c, 1)
    return [('a range of the text', z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= c.run.seqlen(b.lv)))]


def skpre(c):
    A, s, e = win(c, False)
    return ipre(c) + [('definition of the next field', DEF([skip_axioms(A, s, e), z3.Not(T.ISSP(z3.IntVal(35))), FA(1, lambda j: z3.Implies(z3.And(s <= j, j < NS_(A, s, e)), T.ISSP(sel(A, j))), lambda j: [sel(A, j)])]))]


def skinv(L):
    c = L.c; A, s, e = win(c); i = it(c, 0).idx
    return [('range', z3.And(s <= i, i <= e)), ('only white space so far', i <= NS_(A, s, e))]


add(TL + f'skipWS({IT}&,{IT})', setup=isetup, pre=skpre, mod=lambda c: [c.a[0]], post=lambda c: [('at the next field or the end', it(c, 0).idx == SK(*win(c))), ('range', z3.And(win(c)[1] <= SK(*win(c)), SK(*win(c)) <= win(c)[2]))],
    loops=[LoopSpec(skinv, var=lambda L: it(L.c, 1).idx - it(L.c, 0).idx)])


def efn(k):
    ok, val, end = T.numf(k)
    add(TL + f'extractFirstNumber({IT}&,{IT})->{dict(u64="u64", i32="i32", r="real")[k]}', setup=isetup, pre=ipre, mod=lambda c: [c.a[0]],
        throws=[('LoadTriangleNodeErrorException', lambda c: z3.Not(ok(*(uncast(it(c, 1).lv).get('[]'), it(c, 0).idx, it(c, 1).idx))))],
        post=lambda c: [('the number at the start of the text', c.ret == val(*win(c))), ('continues behind the number', it(c, 0).idx == end(*win(c))), ('range', z3.And(win(c)[1] < end(*win(c)), end(*win(c)) <= win(c)[2]))] + ([('fits the type', z3.And(c.ret >= 0, c.ret < 1 << 64))] if k == 'u64' else []))


for k in ('u64', 'i32', 'r'): efn(k)


# ---- the text as a table: lines, content lines, fields
HC, SH = (z3.Function(n, AI, I, I) for n in ('declared', 'first_is_one'))
CN = z3.Function('content_lines', AI, I, I, I)
ENT = {x: [z3.Function(f'entry_{x}_{i}', AI, I, I, I if x == 'i' else R) for i in range(4)] for x in 'ir'}
FU, FI, FR = T.numf('u64'), T.numf('i32'), T.numf('r')


class TX:
    def __init__(self, c, i):
        lv = uncast(c.a[i]); self.A, self.n = lv.get('[]'), lv.get('#len')

    def line(self, k): return T.LINE(self.A, self.n, k), T.LLEN(self.A, self.n, k)

    @property
    def NL(self): return T.NLINES(self.A, self.n)

    def CN(self, k): return CN(self.A, self.n, iv(k))

    def ENT(self, q, i, f): return ENT['r' if f is FR else 'i'][i](self.A, self.n, iv(q))

    @property
    def SH(self): return SH(self.A, self.n)

    @property
    def HC(self): return HC(self.A, self.n)

    def content(self, k):
        A, e = self.line(k)
        return SK(A, z3.IntVal(0), e) != e

    def fields(self, k, fs):
        """[(start, present, value)] of the first fields of line k"""
        A, e = self.line(k); p = SK(A, z3.IntVal(0), e); out = []
        for i, f in enumerate(fs):
            if i: p = SK(A, out[-1][3], e)
            out.append((p, z3.And(p != e, f[0](A, p, e)), f[1](A, p, e), f[2](A, p, e)))
        return out

    def defs(self, head, body):
        """count of content lines, fields of an entry, declared count, index base"""
        return DEF([self.CN(0) == 0, self.NL >= 0, self.NL < 1 << 63,
                    FA(1, lambda k: z3.Implies(k >= 0, self.CN(k + 1) == self.CN(k) + z3.If(self.content(k), 1, 0)), lambda k: [self.line(k)[1]]),
                    FA(1, lambda k: z3.Implies(k >= 0, z3.And(self.CN(k) >= 0, self.CN(k) <= k)), lambda k: [self.CN(k)]),
                    *[FA(1, lambda k, i=i, f=f: z3.Implies(z3.And(k >= 0, self.content(k), self.CN(k) >= 1), self.ENT(self.CN(k), i, f) == self.fields(k, body)[i][2]), lambda k: [self.line(k)[1]]) for i, f in enumerate(body)],
                    FA(1, lambda k: z3.Implies(z3.And(k >= 0, self.content(k), self.CN(k) == 0), self.HC == self.fields(k, head)[0][2]), lambda k: [self.line(k)[1]]),
                    FA(1, lambda k: z3.Implies(z3.And(k >= 0, self.content(k), self.CN(k) == 1), self.SH == z3.If(self.fields(k, body)[0][2] == 0, 0, 1)), lambda k: [self.line(k)[1]]),
                    z3.Or(self.SH == 0, self.SH == 1)])

    def badhead(self, k, head, dim):
        f = self.fields(k, head)
        return z3.And(self.content(k), self.CN(k) == 0, z3.Or(z3.Not(f[0][1]), f[0][2] == 0, z3.Not(f[1][1]), f[1][2] != dim))

    def badrow(self, k, body):
        f = self.fields(k, body)
        return z3.And(self.content(k), self.CN(k) > 0, z3.Or(*[z3.Not(x[1]) for x in f], f[0][2] != self.CN(k) - 1 + self.SH))


NODE = ([FU, FI], [FU, FR, FR])


def nodetx(c): return TX(c, 1)


def lsetup(c):
    uncast(c.a[0]).leaves['.mData'] = hptr(c.run, PD, 'content')


def mh(c):
    a = c.a[0]
    return hmesh(c) if uncast(a).ty.n != 'Mesh' else mref(c, a)


def npre(c):
    s, m = S_(c), mh(c)
    return [('the handle holds a content', within(m, s.n(PD))), ('empty mesh', s.nv(m) == 0), ('objects', s.n(V_) >= 0), ('text', nodetx(c).n >= 0), ('reading the text', nodetx(c).defs(*NODE)), ('lengths', FA(1, lambda r: s.vn(r) >= 0, lambda r: [s.vn(r)]))]


def vertsok(c, t, n):
    """vertex q is what entry q of the text says"""
    s, o, m = S_(c), O_(c), mh(c); v0 = o.n(V_)
    R_ = lambda f, p: FA(1, lambda r: z3.Implies(z3.And(r >= v0, r < v0 + n), f(r, [t.ENT(r - v0 + 1, i, x) for i, x in enumerate(NODE[1])])), lambda r: [p(r)])
    return [('as many vertices as entries', z3.And(s.nv(m) == n, s.n(V_) == v0 + n)), ('vertices in order of the entries', FA(1, lambda k: z3.Implies(within(k, n), s.v(m, k) == v0 + k), lambda k: [s.v(m, k)])),
            ('vertex index', R_(lambda r, f: s.gi(r) == r - v0, s.gi)), ('no element registered', R_(lambda r, f: s.vn(r) == 0, s.vn)),
            ('lengths', FA(1, lambda r: s.vn(r) >= 0, lambda r: [s.vn(r)])), ('first coordinate', R_(lambda r, f: s.vx(r, 0) == f[1], lambda r: s.vx(r, 0))), ('second coordinate', R_(lambda r, f: s.vx(r, 1) == f[2], lambda r: s.vx(r, 1)))] + oldverts(c)


def oldverts(c):
    s, o = S_(c), O_(c); v0 = o.n(V_); out = []
    for p in ('.Vertex.mData[]', '.GlobalIndex', '.Flags', '.Elements#len', '.Elements[]'):
        a, b = s.h.leaf(V_, p), o.h.leaf(V_, p)
        out.append((f'other vertices keep {p}', FA(1, lambda r, a=a, b=b: z3.Implies(r < v0, z3.Select(a, r) == z3.Select(b, r)), lambda r, a=a: [z3.Select(a, r)])))
    return out


def othermeshes(c, flds):
    s, o, m = S_(c), O_(c), mh(c); out = []
    for f in flds:
        for x in ('#len', '[]'):
            a, b = s.h.leaf(PD, f'.{f}{x}'), o.h.leaf(PD, f'.{f}{x}')
            out.append((f'other meshes keep {f}{x}', FA(1, lambda r, a=a, b=b: z3.Implies(r != m, z3.Select(a, r) == z3.Select(b, r)), lambda r, a=a: [z3.Select(a, r)])))
    return out


def nodeinv(L):
    c = L.c; t = nodetx(c); f = L.lv('f'); k = f.get('.pos'); q = L.v('nextIndex')
    return [('range', z3.And(k >= 0, k <= t.NL, z3.Not(f.get('.fail')))), ('the whole text is read', z3.And(f.get('[]') == t.A, f.get('#len') == t.n)),
            ('entries so far', q == z3.If(t.CN(k) >= 1, t.CN(k) - 1, 0)), ('header seen', L.v('parseMode') == z3.If(t.CN(k) >= 1, 1, 0)), ('declared count', L.v('count') == z3.If(t.CN(k) >= 1, t.HC, 0)),
            ('index base', L.v('indexShift') == z3.If(q == 0, 1, t.SH)), ('header ok', FA(1, lambda j: z3.Implies(within(j, k), z3.Not(t.badhead(j, NODE[0], 2))), lambda j: [t.line(j)[1]])),
            ('entries ok', FA(1, lambda j: z3.Implies(within(j, k), z3.Not(t.badrow(j, NODE[1]))), lambda j: [t.line(j)[1]]))] + vertsok(c, t, q) + othermeshes(c, ['Vertices'])


def nodethrows(tx=nodetx):
    return [(NE, lambda c: exl(c, tx(c), lambda k: tx(c).badhead(k, NODE[0], 2))), (NE, lambda c: exl(c, tx(c), lambda k: tx(c).badrow(k, NODE[1]))),
            (NE, lambda c: tx(c).CN(tx(c).NL) - 1 != tx(c).HC), (NE, lambda c: tx(c).CN(tx(c).NL) == 0)]


def exl(c, t, f): return EX(1, lambda k: z3.And(within(k, t.NL), f(k)), wit=wit(c, 'line'), pats=lambda k: [t.line(k)[1]])


def recline(L):
    L.c.old.memo['line'] = L.lv('f').get('.pos') - 1
    return z3.BoolVal(True)


NE = 'LoadTriangleNodeErrorException'
add(TL + 'setupNode(Mesh<double,2>&,string&)', setup=lsetup, pre=npre, mod=lambda c: [H(c, V_), (H(c, PD), ['[].Vertices#len', '[].Vertices[]'])],
    throws=nodethrows(),
    post=lambda c: vertsok(c, nodetx(c), nodetx(c).HC) + othermeshes(c, ['Vertices']),
    loops=[LoopSpec(nodeinv, body=recline, var=lambda L: nodetx(L.c).NL - L.lv('f').get('.pos'))])


# ---- elements
ELE = ([FU, FI], [FU, FU, FU, FU])
EE = 'LoadTriangleElementErrorException'


def badcorner(c, t, k, nv=None):
    """an entry naming a vertex the mesh does not have, or one vertex twice"""
    f = [x[2] for x in t.fields(k, ELE[1])[1:]]; nv = S_(c).nv(mh(c)) if nv is None else nv
    return z3.And(t.content(k), t.CN(k) > 0, z3.Or(*[z3.Or(x < t.SH, x - t.SH >= nv) for x in f], z3.Not(z3.Distinct(*f))))


def badelehead(k, t):
    f = t.fields(k, ELE[0])
    return z3.And(t.content(k), t.CN(k) == 0, z3.Or(f[0][2] == 0, z3.Not(f[1][1]), f[1][2] != 3))


def badelenum(k, t):
    f = t.fields(k, ELE[0])
    return z3.And(t.content(k), t.CN(k) == 0, z3.Or(z3.Not(f[0][1]), z3.Not(f[1][1])))


def epre(c):
    s, m = S_(c), mh(c)
    return [('the handle holds a content', within(m, s.n(PD))), ('no elements yet', z3.And(s.ne(m) == 0, s.nv(m) >= 0, s.nv(m) < 1 << 63)), ('objects', z3.And(s.n(V_) >= 0, s.n(E_) >= 0)), ('text', nodetx(c).n >= 0),
            ('vertices are objects', FA(1, lambda k: z3.Implies(within(k, s.nv(m)), within(s.v(m, k), s.n(V_))), lambda k: [s.v(m, k)])),
            ('vertices are objects created in order', FA(1, lambda k: z3.Implies(within(k, s.nv(m)), s.v(m, k) == s.v(m, 0) + k), lambda k: [s.v(m, k)])),
            ('no registration yet', FA(1, lambda k: z3.Implies(within(k, s.nv(m)), s.vn(s.v(m, k)) == 0), lambda k: [s.v(m, k)])), ('lengths', FA(1, lambda r: s.vn(r) >= 0, lambda r: [s.vn(r)])),
            ('reading the text', nodetx(c).defs(*ELE))]


def tele(t): return lambda q, x: t.ENT(q, 1 + x, FU)


def elesok(c, n, ent, shift):
    """element q is what entry q of the text says"""
    s, o, m = S_(c), O_(c), mh(c); e0 = o.n(E_)
    R_ = lambda f, p: FA(1, lambda r: z3.Implies(z3.And(r >= e0, r < e0 + n), f(r)), lambda r: [p(r)])
    out = [('as many elements as entries', z3.And(s.ne(m) == n, s.n(E_) == e0 + n)), ('elements in order of the entries', FA(1, lambda k: z3.Implies(within(k, n), s.e(m, k) == e0 + k), lambda k: [s.e(m, k)]))]
    for x in range(3):
        ix = lambda r, x=x: ent(r - e0 + 1, x) - shift
        out += [(f'corner {x} is the vertex of the entry', R_(lambda r, x=x, ix=ix: s.ev(r, x) == s.v(m, ix(r)), lambda r, x=x: s.ev(r, x))),
                (f'registered with corner {x}', R_(lambda r, x=x: exz(lambda j: z3.And(within(j, s.vn(s.ev(r, x))), s.ve(s.ev(r, x), j) == r), lambda j: s.ve(s.ev(r, x), j)), lambda r, x=x: s.ev(r, x))),
                (f'no neighbour at face {x}', R_(lambda r, x=x: s.en(r, x) == -1, lambda r, x=x: s.en(r, x)))]
        out.append((f'corner {x} names a vertex of the mesh', FA(1, lambda q, x=x: z3.Implies(z3.And(q >= 1, q <= n), within(ent(q, x) - shift, s.nv(m))), lambda q, x=x: [ent(q, x)])))
        for k in range(2): out.append((f'coordinate {k} of corner {x}', R_(lambda r, x=x, k=k: s.ex(r, x, k) == s.vx(s.ev(r, x), k), lambda r, x=x, k=k: s.ex(r, x, k))))
    others = [('other vertices keep their registrations', FA(1, lambda r: z3.Or(exz(lambda k: z3.And(within(k, s.nv(m)), s.v(m, k) == r), lambda k: s.v(m, k)), s.vn(r) == o.vn(r)), lambda r: [s.vn(r)]))]
    return out + others + [('corners by position', FA(1, lambda k: z3.Implies(within(k, n), z3.And(*[s.ev(s.e(m, k), x) == s.v(m, ent(k + 1, x) - shift) for x in range(3)])), lambda k: [s.e(m, k)])),
                  ('corners are distinct', R_(lambda r: corners(s, r), lambda r: s.ev(r, 0))), ('lengths', FA(1, lambda r: s.vn(r) >= 0, lambda r: [s.vn(r)])),
                  ('only elements of the mesh are registered', FA(2, lambda k, j: z3.Implies(z3.And(within(k, s.nv(m)), within(j, s.vn(s.v(m, k)))), within(s.ve(s.v(m, k), j) - e0, n)), lambda k, j: [s.ve(s.v(m, k), j)]))]


def eleinv(L):
    c = L.c; t = nodetx(c); f = L.lv('f'); k = f.get('.pos'); q = L.v('nextIndex')
    none = lambda g: FA(1, lambda j: z3.Implies(within(j, k), z3.Not(g(j))), lambda j: [t.line(j)[1]])
    return [('range', z3.And(k >= 0, k <= t.NL, z3.Not(f.get('.fail')))), ('the whole text is read', z3.And(f.get('[]') == t.A, f.get('#len') == t.n)),
            ('entries so far', q == z3.If(t.CN(k) >= 1, t.CN(k) - 1, 0)), ('header seen', L.v('parseMode') == z3.If(t.CN(k) >= 1, 1, 0)), ('declared count', L.v('elementCount') == z3.If(t.CN(k) >= 1, t.HC, 0)),
            ('index base', L.v('indexShift') == z3.If(q == 0, 1, t.SH)), ('header ok', none(lambda j: z3.Or(badelehead(j, t), badelenum(j, t)))),
            ('entries ok', none(lambda j: t.badrow(j, ELE[1]))), ('corners ok', none(lambda j: badcorner(c, t, j)))] + elesok(c, q, tele(t), t.SH) + othermeshes(c, ['Elements'])


def estart(L):
    L._pre2 = L.c.run.snapshot()
    return []


def ekept(L):
    """what one line keeps (triggered by terms of the state before the step)"""
    c = L.c; s, m = S_(c), mh(c); p = ST(c, snap=L._pre2); n = p.ne(m); e0 = O_(c).n(E_); t = nodetx(c)
    nw = lambda x: z3.Implies(s.ne(m) == n + 1, z3.And(s.ev(e0 + n, x) == s.v(m, t.ENT(n + 1, 1 + x, FU) - t.SH), within(t.ENT(n + 1, 1 + x, FU) - t.SH, s.nv(m))))
    return [(f'corner {x} of the new element', nw(x)) for x in range(3)] + kept(s, p, m, e0)


def kept(s, p, m, e0):
    n = p.ne(m)
    return [('lists only grow', FA(1, lambda r: s.vn(r) >= p.vn(r), lambda r: [p.vn(r)])), ('registrations are kept', FA(2, lambda r, t: z3.Implies(within(t, p.vn(r)), s.ve(r, t) == p.ve(r, t)), lambda r, t: [p.ve(r, t)])),
            ('elements are kept', FA(1, lambda q: z3.Implies(within(q, n), s.e(m, q) == p.e(m, q)), lambda q: [p.e(m, q)])), ('corners are kept', FA(1, lambda r: z3.Implies(r < p.n(E_), z3.And(*[s.ev(r, x) == p.ev(r, x) for x in range(3)])), lambda r: [z3.Select(p._l(E_, '.Vertices[]'), r)])),
            ('new registrations', FA(2, lambda r, t: z3.Implies(within(t, s.vn(r)), z3.Or(z3.And(t < p.vn(r), s.ve(r, t) == p.ve(r, t)), z3.And(s.ne(m) == n + 1, s.ve(r, t) == e0 + n))), lambda r, t: [s.ve(r, t)]))]


def elethrows(tx=nodetx, nv=lambda c: None):
    return [(NE, lambda c: exl(c, tx(c), lambda k: badelenum(k, tx(c)))), (NE, lambda c: exl(c, tx(c), lambda k: tx(c).badrow(k, ELE[1]))),
            (EE, lambda c: exl(c, tx(c), lambda k: badelehead(k, tx(c)))), (EE, lambda c: exl(c, tx(c), lambda k: badcorner(c, tx(c), k, nv(c)))),
            (EE, lambda c: tx(c).CN(tx(c).NL) - 1 != tx(c).HC), (EE, lambda c: tx(c).CN(tx(c).NL) == 0)]


def regist(c, f, n=None):
    s, m = S_(c), mh(c); n = nodetx(c).HC if n is None else n
    return [('only elements of the mesh are registered', FA(2, lambda k, j: z3.Implies(z3.And(within(k, s.nv(m)), within(j, s.vn(s.v(m, k)))), f(s, m, n, s.ve(s.v(m, k), j))), lambda k, j: [s.ve(s.v(m, k), j)]))]


add(TL + 'setupElement(Mesh<double,2>&,string&)', setup=lsetup, pre=epre, mod=lambda c: [H(c, E_), (H(c, PD), ['[].Elements#len', '[].Elements[]']), (H(c, V_), ['[].Elements#len', '[].Elements[]'])],
    throws=elethrows(), lemma=lambda c: regist(c, lambda s, m, n, e: z3.And(within(e - O_(c).n(E_), n), s.e(m, e - O_(c).n(E_)) == e)),
    post=lambda c: built(c, mh(c))[-1:] + [x for x in elesok(c, nodetx(c).HC, tele(nodetx(c)), nodetx(c).SH) if x[0] != 'only elements of the mesh are registered'] + othermeshes(c, ['Elements']),
    loops=[LoopSpec(eleinv, body=recline, start=estart, end=ekept, var=lambda L: nodetx(L.c).NL - L.lv('f').get('.pos'))])


# ---- both files
def t0(c): return TX(c, 0)


def three(n, cor, k, p, q):
    """entries k, p, q of the element text name two common vertices"""
    hasc = lambda e, v: z3.Or(*[cor(e, x) == v for x in range(3)])
    one = lambda a, b: z3.And(*[z3.And(hasc(z, cor(k, a)), hasc(z, cor(k, b))) for z in (p, q)])
    return z3.And(*[z3.And(z >= 1, z <= n) for z in (k, p, q)], p != q, p != k, q != k, z3.Or(one(1, 2), one(0, 2), one(0, 1)))


def manyrows(c):
    t = nodetx(c)
    return EX(3, lambda k, p, q: three(t.HC, tele(t), k + 1, p + 1, q + 1), pats=lambda k, p, q: [z3.MultiPattern(*[t.ENT(z + 1, 1, FU) for z in (k, p, q)])])


def lspost(c):
    s, m = S_(c), mh(c)
    e0 = O_(c).n(E_)
    return [x for x in vertsok(c, t0(c), t0(c).HC) if x[0] != 'no element registered' and not x[0].startswith('other vertices keep .Elements')] + \
        [x for x in elesok(c, nodetx(c).HC, tele(nodetx(c)), nodetx(c).SH) if not x[0].startswith(('no neighbour', 'lengths', 'other vert', 'only elements'))] + built(c, m)[-1:] + links(c, m) + \
        [('other vertices keep their number of registrations', FA(1, lambda r: z3.Implies(r < O_(c).n(V_), s.vn(r) == O_(c).vn(r)), lambda r: [s.vn(r)]))]


def lslemma(c):
    s, m = S_(c), mh(c); e0 = O_(c).n(E_)
    t = nodetx(c)
    return [('corners of an entry', FA(1, lambda q: z3.Implies(z3.And(q >= 1, q <= t.HC, s.e(m, q - 1) == e0 + q - 1), z3.And(*[s.ev(e0 + q - 1, x) == s.v(m, t.ENT(q, 1 + x, FU) - t.SH) for x in range(3)])), lambda q: [t.ENT(q, 1, FU)])),
        ('no face has three elements', FA(3, lambda k, p, q: z3.Implies(z3.And(*[s.e(m, z - 1) == e0 + z - 1 for z in (k, p, q)]), z3.Not(three(t.HC, tele(t), k, p, q))), lambda k, p, q: [z3.MultiPattern(*[nodetx(c).ENT(z, 1, FU) for z in (k, p, q)])]))]


add(TL + 'loadString(string&,string&)', pre=lambda c: [('objects', z3.And(S_(c).n(V_) >= 0, S_(c).n(E_) >= 0, S_(c).n(G_) >= 0)), ('texts', z3.And(t0(c).n >= 0, nodetx(c).n >= 0)), ('lengths', FA(1, lambda r: S_(c).vn(r) >= 0, lambda r: [S_(c).vn(r)])),
                                                       ('reading the vertex text', t0(c).defs(*NODE)), ('reading the element text', nodetx(c).defs(*ELE))],
    mod=lambda c: [H(c, x) for x in (PD, V_, E_, G_)], post=lspost, lemma=lslemma,
    throws=nodethrows(t0) + elethrows(nodetx, lambda c: t0(c).HC) + [('TooManySharedFacesException', manyrows)])


# ---- object files: the shapes come from the external reader
OE = 'LoadObjErrorException'
OIX = [z3.Function(f'face_corner_{i}', z3.ArraySort(I, I), I, I) for i in range(3)]


class OB:
    """first shape: coordinates, three per vertex, and vertex numbers, three per face"""
    def __init__(self, c):
        lv = uncast(c.a[0]); self.n = lv.get('#len')
        g = lambda f: sel(lv.get(f'[].mesh.{f}'), z3.IntVal(0))
        self.P, self.np, self.X, self.nx = g('positions[]'), g('positions#len'), g('indices[]'), g('indices#len')

    def cnt(self, x): return z3.If(self.n > 0, x / 3, z3.IntVal(0))

    @property
    def nv(self): return self.cnt(self.np)

    @property
    def ne(self): return self.cnt(self.nx)

    def ix(self, q, x): return OIX[x](self.X, iv(q))

    def bad(self, q):
        f = [self.ix(q, x) for x in range(3)]
        return z3.And(q >= 1, q <= self.ne, z3.Or(*[x >= self.nv for x in f], z3.Not(z3.Distinct(*f))))


def opre(c):
    o = OB(c)
    return [('objects', z3.And(S_(c).n(V_) >= 0, S_(c).n(E_) >= 0, S_(c).n(G_) >= 0)), ('lengths', FA(1, lambda r: S_(c).vn(r) >= 0, lambda r: [S_(c).vn(r)])),
            ('a shape has vertices and faces', z3.And(o.n >= 0, z3.Implies(o.n > 0, z3.And(o.np >= 3, o.nx >= 3, o.np < 1 << 63, o.nx < 1 << 63)))), ('vertex numbers', FA(1, lambda k: sel(o.X, k) >= 0, lambda k: [sel(o.X, k)])),
            ('corners of a face', DEF([FA(1, lambda q, x=x: o.ix(q, x) == sel(o.X, 3 * (q - 1) + x), lambda q, x=x: [o.ix(q, x)]) for x in range(3)]))]


def overts(c, n, xi, yi):
    s, o, m, b = S_(c), O_(c), mh(c), OB(c.old); v0 = o.n(V_)
    R_ = lambda f, p: FA(1, lambda r: z3.Implies(z3.And(r >= v0, r < v0 + n), f(r)), lambda r: [p(r)])
    return [('as many vertices as listed', z3.And(s.nv(m) == n, s.n(V_) == v0 + n)), ('vertices in order', FA(1, lambda k: z3.Implies(within(k, n), s.v(m, k) == v0 + k), lambda k: [s.v(m, k)])),
            ('vertex index', R_(lambda r: s.gi(r) == r - v0, s.gi)), ('lengths', FA(1, lambda r: s.vn(r) >= 0, lambda r: [s.vn(r)])),
            ('first coordinate', R_(lambda r: s.vx(r, 0) == sel(b.P, 3 * (r - v0) + xi), lambda r: s.vx(r, 0))), ('second coordinate', R_(lambda r: s.vx(r, 1) == sel(b.P, 3 * (r - v0) + yi), lambda r: s.vx(r, 1)))]


def blank(c):
    s, o = S_(c), O_(c); v0 = o.n(V_)
    return [('no element registered', FA(1, lambda r: z3.Implies(z3.And(r >= v0, r < s.n(V_)), s.vn(r) == 0), lambda r: [s.vn(r)])),
            ('other vertices keep their number of registrations', FA(1, lambda r: z3.Implies(r < v0, s.vn(r) == o.vn(r)), lambda r: [s.vn(r)]))]


def o0(L):
    c = L.c; s, m, o = S_(c), mh(c), O_(c)
    return [('first shape', z3.And(L.pos() == 0, s.nv(m) == 0, s.ne(m) == 0, s.ng(m) == 0, s.n(V_) == o.n(V_), s.n(E_) == o.n(E_)))] + [x for x in blank(c)[1:]] + [('lengths', FA(1, lambda r: s.vn(r) >= 0, lambda r: [s.vn(r)]))]


def oelems(c, n):
    b = OB(c.old)
    return elesok(c, n, b.ix, 0)


def o1(xi, yi):
    def inv(L):
        c = L.c; s, m = S_(c), mh(c); j = L.pos()
        return [('range', z3.And(j >= 0, j <= OB(c.old).nv, s.ne(m) == 0, s.ng(m) == 0, s.n(E_) == O_(c).n(E_)))] + overts(c, j, xi, yi) + blank(c)
    return inv


def o2(xi, yi):
    def inv(L):
        c = L.c; s, m = S_(c), mh(c); j = L.pos(); b = OB(c.old)
        return [('range', z3.And(j >= 0, j <= b.ne, s.ng(m) == 0))] + overts(c, b.nv, xi, yi) + oothers(c) + [x for x in oelems(c, j) if x[0] not in ('other vertices keep their registrations', 'only elements of the mesh are registered')] + \
            regist(c, lambda s, m, n, e: exz(lambda q: z3.And(within(q, n), s.e(m, q) == e), lambda q: s.e(m, q)), j) + \
            [('faces ok', FA(1, lambda q: z3.Implies(z3.And(q >= 1, q <= j), z3.Not(b.bad(q))), lambda q: [b.ix(q, 0)]))]
    return inv


def oothers(c):
    s, o = S_(c), O_(c)
    return blank(c)[1:]


def oface(L):
    b = OB(L.c.old); q = L.pos() + 1
    L.c.old.memo['face'] = q
    return z3.And(*[b.ix(q, x) == sel(b.X, 3 * L.pos() + x) for x in range(3)])


def okept(L):
    c = L.c; s, m = S_(c), mh(c); p = ST(c, snap=L._pre2); n = p.ne(m); e0 = O_(c).n(E_); b = OB(c.old)
    nw = lambda x: z3.And(s.ev(e0 + n, x) == s.v(m, b.ix(n + 1, x)), within(b.ix(n + 1, x), s.nv(m)))
    return [(f'corner {x} of the new element', nw(x)) for x in range(3)] + kept(s, p, m, e0)


def ofail(c):
    b = OB(c)
    return EX(1, lambda q: b.bad(q), wit=wit(c, 'face'), pats=lambda q: [b.ix(q, 0)])


def omany(c):
    b = OB(c)
    return EX(3, lambda k, p, q: three(b.ne, b.ix, k + 1, p + 1, q + 1), pats=lambda k, p, q: [z3.MultiPattern(*[b.ix(z + 1, 0) for z in (k, p, q)])])


def opost(xi, yi):
    def post(c):
        b = OB(c.old); m = mh(c)
        return overts(c, b.nv, xi, yi) + [x for x in oelems(c, b.ne) if not x[0].startswith(('no neighbour', 'lengths', 'other vert', 'only elements'))] + built(c, m)[-1:] + links(c, m) + oothers(c)
    return post


def olemma(c):
    s, m = S_(c), mh(c); e0 = O_(c).n(E_); b = OB(c.old)
    return [('corners of a face', FA(1, lambda q: z3.Implies(z3.And(q >= 1, q <= b.ne, s.e(m, q - 1) == e0 + q - 1), z3.And(*[s.ev(e0 + q - 1, x) == s.v(m, b.ix(q, x)) for x in range(3)])), lambda q: [b.ix(q, 0)])),
            ('no face has three elements', FA(3, lambda k, p, q: z3.Implies(z3.And(*[s.e(m, z - 1) == e0 + z - 1 for z in (k, p, q)]), z3.Not(three(b.ne, b.ix, k, p, q))), lambda k, p, q: [z3.MultiPattern(*[b.ix(z, 0) for z in (k, p, q)])]))]


for yi, xi in ((1, 0), (2, 0)):
    add(f'MeshObjLoader<double,{yi},{xi}>::load(vector<tinyobj::shape_t>&)', pre=opre, mod=lambda c: [H(c, x) for x in (PD, V_, E_, G_)], post=opost(xi, yi), lemma=olemma,
        throws=[(OE, ofail), ('TooManySharedFacesException', omany)],
        loops=[LoopSpec(o0, var=lambda L: OB(L.c.old).n - L.pos()), LoopSpec(o1(xi, yi), var=lambda L: OB(L.c.old).nv - L.pos()),
               LoopSpec(o2(xi, yi), body=oface, start=estart, end=okept, var=lambda L: OB(L.c.old).ne - L.pos()), None])
