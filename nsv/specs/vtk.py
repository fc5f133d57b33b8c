"""Contract of the VTK exporter: the text written is the document described here, piece by piece (texts: nsv/text.py)."""
import z3
from ..core import *
from ..interp import uncast
from ..contracts import Contract, LoopSpec
from .. import text as T
from .mesh import ST, S_, PD, V_, E_, within, mref, hptr
from .simplex import G as SG

DRV = 'vtk'
USES = ['vector', 'mesh', 'simplex']
C = {}
VEC = 'Vector<double,vector<double>>'
MAP = 'map<string,Vector<double,vector<double>>*>'
QUAD, DET, MAT, GRAD, BND, IMPL = 0x80, 1, 2, 4, 8, 0x10
STRONG, IMPLICIT = 1, 2
BAND = z3.Function('bitand', I, I, I)
F = lambda n, k=1: z3.Function(n, *[I] * (2 + k))
VERTS, CORNERS, CONN, OFFS, TYPES, VALS, BLAB, ILAB, DETS, MATS, GRADS = F('verts'), F('corners', 2), F('conn'), F('offs'), F('types'), F('vals', 2), F('blab'), F('ilab'), F('dets'), F('mats'), F('grads')
FIELDS = {2: F('pointfields'), 3: F('cellfields')}
GR = [z3.Function(f'gradient{k}', I, R) for k in range(2)]
NOSTR = T.NOSTR


def add(sig, **kw):
    C[sig] = Contract(sig, **kw)
    return C[sig]


def array(attrs): return f'<DataArray {attrs} format="ascii">\n'


POINTS = ('v0', 'c0', 'c1', 'o0', 't0', 'p0', 'p1', 'b0', 'b1', 'i0', 'i1', 'f0', 'f1', 'd0', 'd1', 'm0', 'm1', 'g0', 'g1', 'end')


class Doc:
    """the document, as texts up to given points; every point below follows white space"""
    def __init__(self, c):
        object.__setattr__(self, 'defs', [])
        self.c = c; self.run = c.run; s = self.s = S_(c); self.m = m = mref(c, c.a[1])
        self.nv, self.ne = s.nv(m), s.ne(m)
        self.opt = c.ov(4) if c.old else c.v(4)
        O = T.Out
        q = lambda t: O(t, True)
        self.v0 = O(T.EMPTY, False).lit('<?xml version="1.0"?>\n<VTKFile type="UnstructuredGrid" version="0.1" byte_order="LittleEndian">\n<UnstructuredGrid>\n<Piece NumberOfPoints="').int(self.nv) \
            .lit('" NumberOfCells="').int(self.ne).lit('">\n<Points>\n' + array('type="Float32" NumberOfComponents="3"')).t
        self.c0 = q(VERTS(self.v0, self.nv)).lit('</DataArray>\n</Points>\n<Cells>\n' + array('type="Int32" Name="connectivity"')).t
        self.c1 = q(CONN(self.c0, self.ne)).lit('</DataArray>').t
        self.o0 = q(self.c1).lit(array('type="Int32" Name="offsets"')).t
        self.t0 = q(OFFS(self.o0, self.ne)).lit('</DataArray>\n' + array('type="UInt8" Name="types"')).t
        nm = z3.If(self.n(2) == 0, NOSTR, self.name(2, z3.IntVal(0)))
        self.p0 = q(TYPES(self.t0, self.ne)).lit('</DataArray>\n</Cells>\n<PointData Scalars="').put('s', nm).lit('">').t
        self.p1 = FIELDS[2](self.p0, self.n(2))
        self.b0 = q(self.p1).lit(array('Name="BoundaryLabel" type="UInt8"')).t
        self.b1 = z3.If(self.flag(BND), q(BLAB(self.b0, self.nv)).lit('</DataArray>').t, self.p1)
        self.i0 = q(self.b1).lit(array('Name="ImplicitLabel" type="UInt8"')).t
        self.i1 = z3.If(self.flag(IMPL), q(ILAB(self.i0, self.nv)).lit('</DataArray>').t, self.b1)
        self.f0 = q(self.i1).lit('</PointData>\n<CellData>').t
        self.f1 = FIELDS[3](self.f0, self.n(3))
        self.d0 = q(self.f1).lit(array('Name="ElementDeterminant" type="Float32"')).t
        self.d1 = z3.If(self.flag(DET), q(DETS(self.d0, self.ne)).lit('</DataArray>').t, self.f1)
        self.m0 = q(self.d1).lit(array('Name="ElementMatrix" type="Float32" NumberOfComponents="4"')).t
        self.m1 = z3.If(self.flag(MAT), q(MATS(self.m0, self.ne)).lit('</DataArray>').t, self.d1)
        self.g0 = q(self.m1).lit(array('Name="ElementGradient" type="Float32" NumberOfComponents="2"')).t
        self.g1 = z3.If(self.flag(GRAD), q(GRADS(self.g0, self.ne)).lit('</DataArray>').t, self.m1)
        self.end = q(self.g1).lit('</CellData>\n</Piece>\n</UnstructuredGrid>\n</VTKFile>').t

    def __setattr__(self, k, v):
        """points of the document are named, their texts are definitions"""
        if k in POINTS:
            x = z3.Const('document.' + k, I); self.defs.append(x == v); v = x
        object.__setattr__(self, k, v)

    def flag(self, b): return BAND(self.opt, z3.IntVal(b)) != 0
    # fields
    def n(self, i): return uncast(self.c.a[i]).get('#len')
    def name(self, i, j):
        m = uncast(self.c.a[i])
        return T.strval(sel(m.get('[].first[]'), j), sel(m.get('[].first#len'), j))
    def vec(self, i, j): return sel(uncast(self.c.a[i]).get('[].second'), j)
    def vn(self, r): return sel(self.s.h.leaf(VEC, '.mData#len'), r)
    def val(self, r, k): return sel(sel(self.s.h.leaf(VEC, '.mData[]'), r), k)
    def vhead(self, i, t, j): return T.Out(t, True).lit('<DataArray Name="').put('s', self.name(i, j)).lit('" type="Float32" format="ascii">').t
    # mesh
    def v(self, i): return self.s.v(self.m, i)
    def e(self, i): return self.s.e(self.m, i)
    def sx(self, r):
        o = self.s.h.obj(E_, r)
        return SG(self.run, Field(o, 'Element', self.run.eng.fieldty(o.ty, 'Element')))
    # one more step of each part
    def verts(self, t, i): return T.Out(t, True).real(self.s.vx(self.v(i), 0)).lit(' ').real(self.s.vx(self.v(i), 1)).lit(' 0').t
    def corners(self, t, e, k): return T.Out(t, True).int(self.s.gi(self.s.ed(e, k))).t
    def conn(self, t, i): return CORNERS(t, self.e(i), self.s.edn(self.e(i)))
    def offs(self, t, i): return T.Out(t, True).int(z3.If(self.flag(QUAD), 6 * (i + 1), 3 * (i + 1))).t
    def types(self, t, i): return T.Out(t, True).int(z3.If(self.flag(QUAD), z3.IntVal(22), z3.IntVal(5))).t
    def vals(self, t, r, k): return T.Out(t, True).real(self.val(r, k)).t
    def fields(self, i, t, j): return T.Out(VALS(self.vhead(i, t, j), self.vec(i, j), self.vn(self.vec(i, j))), True).lit('</DataArray>').t
    def lab(self, t, i, b): return T.Out(t, True).int(z3.If(BAND(self.s.fl(self.v(i)), z3.IntVal(b)) != 0, z3.IntVal(1), z3.IntVal(0))).t
    def dets(self, t, i): return T.Out(t, True).real(self.sx(self.e(i)).det).t
    def mats(self, t, i):
        M = self.sx(self.e(i)).M; o = T.Out(t, True)
        for r in M:
            for x in r: o.real(x).lit(' ')
        return o.t
    def grads(self, t, i): return T.Out(t, True).real(GR[0](self.e(i))).lit(' ').real(GR[1](self.e(i))).t

    def graddef(self, e):
        """the gradient of the first shape function: falls from 1 to 0 towards the other two vertices (Cramer)"""
        g = self.sx(e)
        return z3.And(GR[0](e) * g.D == g.a[1] - g.b[1], GR[1](e) * g.D == g.b[0] - g.a[0])


def D(c):
    """the document for the state at entry (the function changes nothing it describes)"""
    d = c.run.__dict__.get('vtkdoc')
    if d is None: d = c.run.vtkdoc = Doc(c)
    return d


def stream(c, t):
    x = c.local('stream'); c.run.flush_text()
    return [('text written so far', uncast(x).get('.t') == t), ('separated', uncast(x).get('.ws')), ('file', uncast(x).get('.path') == T.strval(uncast(c.a[0]).get('[]'), c.run.seqlen(c.a[0])))]


def pre(c):
    d = c.run.vtkdoc = Doc(c); s, m = d.s, d.m
    nvec = s.n(VEC)
    out = [('the mesh holds a content', within(m, s.n(PD))), ('vertices: length', d.nv >= 0), ('elements: length', d.ne >= 0),
           ('vertices: objects', FA(1, lambda k: z3.Implies(within(k, d.nv), within(d.v(k), s.n(V_))), lambda k: [d.v(k)])),
           ('elements: objects', FA(1, lambda k: z3.Implies(within(k, d.ne), z3.And(within(d.e(k), s.n(E_)), s.edn(d.e(k)) >= 0)), lambda k: [d.e(k)])),
           ('corners of the elements: objects', FA(2, lambda r, k: z3.Implies(z3.And(within(r, s.n(E_)), within(k, s.edn(r))), within(s.ed(r, k), s.n(V_))), lambda r, k: [s.ed(r, k)])),
           ('elements are prepared where their geometry is exported', FA(1, lambda k: z3.Implies(z3.And(within(k, d.ne), z3.Or(d.flag(DET), d.flag(MAT), d.flag(GRAD))), z3.And(*[g for _, g in d.sx(d.e(k)).prepared()])), lambda k: [d.e(k)]))]
    for i in (2, 3):
        out += [('fields: length', d.n(i) >= 0), ('fields: objects', FA(1, lambda j, i=i: z3.Implies(within(j, d.n(i)), z3.And(within(d.vec(i, j), nvec), d.vn(d.vec(i, j)) >= 0)), lambda j, i=i: [d.vec(i, j)]))]
    return out + [DEF(d.defs)]


def setup(c): uncast(c.a[1]).leaves['.mData'] = hptr(c.run, PD, 'content')


def cuts(c, j):
    d = D(c)
    out = stream(c, [d.c1, d.b1, d.i1, d.d1, d.m1, d.g1][j])
    if j == 0: out += [('vertices per element', c.local('elemOff') == z3.If(d.flag(QUAD), 6, 3)), ('cell type', c.local('elemType') == z3.If(d.flag(QUAD), 22, 5))]
    return out


def plain(f, step, t0, n, pos=lambda L: L.pos(), extra=None, start=None, end=None):
    def inv(L):
        d = D(L.c); p = pos(L); t = getattr(d, t0)
        out = [DEF([f(t, z3.IntVal(0)) == t, z3.Implies(p >= 0, f(t, p + 1) == step(d, f(t, p), p))]), ('range', z3.And(p >= 0, p <= getattr(d, n)))]
        if extra: out += extra(L, d, p)
        return out + stream(L.c, f(t, p))[:2]
    return LoopSpec(inv, var=lambda L: getattr(D(L.c), n) - pos(L), start=start, end=end)


def fields(i, t0):
    f = FIELDS[i]
    def inv(L):
        d = D(L.c); p = L.pos(); t = getattr(d, t0)
        return [DEF([f(t, z3.IntVal(0)) == t, z3.Implies(p >= 0, f(t, p + 1) == d.fields(i, f(t, p), p))]), ('range', z3.And(p >= 0, p <= d.n(i)))] + stream(L.c, f(t, p))[:2]

    def inner(L):
        d = D(L.c); j = L.pos(1); p = L.pos(); t = d.vhead(i, f(getattr(d, t0), j), j); r = d.vec(i, j)
        return [DEF([VALS(t, r, z3.IntVal(0)) == t, z3.Implies(p >= 0, VALS(t, r, p + 1) == d.vals(VALS(t, r, p), r, p))]), ('range', z3.And(p >= 0, p <= d.vn(r)))] + stream(L.c, VALS(t, r, p))[:2]
    return [LoopSpec(inv, var=lambda L: D(L.c).n(i) - L.pos()), LoopSpec(inner, var=lambda L: D(L.c).vn(D(L.c).vec(i, L.pos(1))) - L.pos())]


def corners(L):
    d = D(L.c); p = L.pos(); e = d.e(L.pos(1)); t = CONN(d.c0, L.pos(1))
    return [DEF([CORNERS(t, e, z3.IntVal(0)) == t, z3.Implies(p >= 0, CORNERS(t, e, p + 1) == d.corners(CORNERS(t, e, p), e, p))]), ('range', z3.And(p >= 0, p <= d.s.edn(e)))] + stream(L.c, CORNERS(t, e, p))[:2]


def gradstart(L):
    d = D(L.c); L.elem = d.e(L.pos()); g = d.sx(L.elem)
    return [('prepared', g.D != 0), DEF([d.graddef(L.elem)])]


def gradend(L):
    """the two numbers just written are the components of the gradient"""
    t = uncast(L.c.local('stream')).get('.t')
    while not (t.decl().name() == 'then_real') and t.num_args(): t = t.arg(0)
    try: y, x = t.arg(2), t.arg(0).arg(2)
    except Exception: return []
    return [('first component', x == GR[0](L.elem)), ('second component', y == GR[1](L.elem))]


LOOPS = [plain(VERTS, lambda d, t, i: d.verts(t, i), 'v0', 'nv'),
         plain(CONN, lambda d, t, i: d.conn(t, i), 'c0', 'ne'),
         LoopSpec(corners, var=lambda L: D(L.c).s.edn(D(L.c).e(L.pos(1))) - L.pos()),
         plain(OFFS, lambda d, t, i: d.offs(t, i), 'o0', 'ne', pos=lambda L: L.pos() - 1,
               extra=lambda L, d, p: [DEF([imul(*order(L.pos(), z3.IntVal(k))) == k * L.pos() for k in (3, 6)])]),
         plain(TYPES, lambda d, t, i: d.types(t, i), 't0', 'ne'),
         *fields(2, 'p0'),
         plain(BLAB, lambda d, t, i: d.lab(t, i, STRONG), 'b0', 'nv'),
         plain(ILAB, lambda d, t, i: d.lab(t, i, IMPLICIT), 'i0', 'nv'),
         *fields(3, 'f0'),
         plain(DETS, lambda d, t, i: d.dets(t, i), 'd0', 'ne'),
         plain(MATS, lambda d, t, i: d.mats(t, i), 'm0', 'ne'), None,
         plain(GRADS, lambda d, t, i: d.grads(t, i), 'g0', 'ne', start=gradstart, end=gradend), None]

add(f'VTKExporter<double,2>::write(string&,Mesh<double,2>&,{MAP}&,{MAP}&,i32)', opts=dict(nla=True), setup=setup, pre=pre, cuts=cuts, ncuts=6, loops=LOOPS,
    post=lambda c: stream(c, D(c).end))
