"""Contracts of Simplex<double,2> and of the outward normal (nonlinear real arithmetic)."""
import z3
from ..core import *
from ..interp import Cast, uncast
from ..contracts import Contract, LoopSpec

DRV = 'simplex'
USES = []
C = {}
NLA = dict(nla=True)
S = 'Simplex<double,2>::'


def add(sig, **kw):
    kw.setdefault('opts', NLA)
    C[sig] = Contract(sig, **kw)
    return C[sig]


def comps(run, lv, n):
    d = Field(uncast(lv), 'mData', run.eng.fieldty(uncast(lv).ty, 'mData'))
    return [Elem(d, z3.IntVal(k), run.eng.elemty(d.ty)).get('') for k in range(n)]


class G:
    """the simplex spanned by the stored vertices"""
    def __init__(self, run, lv):
        self.run = run; lv = uncast(lv); self.lv = lv
        f = lambda b, n: Field(b, n, run.eng.fieldty(b.ty, n))
        mv = f(lv, 'mVertices')
        self.mv = mv
        self.v = [comps(run, Elem(mv, z3.IntVal(k), run.eng.elemty(mv.ty)), 2) for k in range(3)]
        def mat(n):
            cont = f(f(f(lv, n), 'mValues'), 'Container')
            return [[Elem(cont, z3.IntVal(2 * i + j), run.eng.elemty(cont.ty)).get('') for j in range(2)] for i in range(2)]
        self.M, self.N = mat('mMatrix'), mat('mInverseMatrix')
        self.det = lv.get('.mDeterminant'); self.prep = lv.get('.mPrepared')
        self.a = sub(self.v[1], self.v[0]); self.b = sub(self.v[2], self.v[0])
        self.D = self.a[0] * self.b[1] - self.a[1] * self.b[0]

    def nd(self): return [('not degenerate', self.D != 0)]

    def prepared(self):
        a, b, M, N, det = self.a, self.b, self.M, self.N, self.det
        return self.nd() + [('prepared', self.prep), ('matrix columns are the edges from the first vertex', z3.And(M[0][0] == a[0], M[1][0] == a[1], M[0][1] == b[0], M[1][1] == b[1])),
                            ('determinant', det == self.D),
                            ('inverse matrix', z3.And(N[0][0] * det == b[1], N[0][1] * det == -b[0], N[1][0] * det == -a[1], N[1][1] * det == a[0]))]


def sub(x, y): return [p - q for p, q in zip(x, y)]
def dot(x, y): return sum((p * q for p, q in zip(x[1:], y[1:])), x[0] * y[0])
def sq(x): return dot(x, x)
def T(c): return G(c.run, c.this)
def R_(c): return comps(c.run, c.ret, 2)
def pre(c): return T(c).prepared()
def ridx(c): return [('component in range', c.v(0) < 3)]


add(S + '(ctor)()', post=lambda c: [('all vertices at the origin, not prepared', z3.And(z3.Not(T(c).prep), T(c).det == 0, *[x == 0 for v in T(c).v for x in v]))])
for k in ('', ' const'):
    add(S + 'operator[](u64)' + k, pre=ridx, ret=lambda c: Elem(T(c).mv, c.v(0), c.run.eng.elemty(T(c).mv.ty)))
add(S + 'prepare()', pre=lambda c: T(c).nd(), mod=lambda c: [(c.this, ['.mPrepared', '.mDeterminant', '.mMatrix.mValues.Container[]', '.mInverseMatrix.mValues.Container[]'])], post=pre)
add(S + 'unitVolume()', post=lambda c: [('half', c.ret == z3.RealVal(1) / 2)])
add(S + 'volume() const', pre=pre, post=lambda c: [('half the absolute determinant of the edges', z3.And(c.ret > 0, z3.Or(2 * c.ret == T(c).D, 2 * c.ret == -T(c).D)))])
add(S + 'center() const', pre=pre, post=lambda c: [(f'as far from vertex {k} as from vertex 0', sq(sub(R_(c), T(c).v[k])) == sq(sub(R_(c), T(c).v[0]))) for k in (1, 2)])
add(S + 'outerRadius() const', pre=pre, inline=(S + 'center() const',), post=lambda c: [('not negative', c.ret >= 0), ('product of the edge lengths over four times the area', 4 * T(c).D * T(c).D * c.ret * c.ret == sq(T(c).a) * sq(T(c).b) * sq(sub(T(c).v[2], T(c).v[1])))])


def diam(c):
    g = T(c); e = [sq(g.a), sq(g.b), sq(sub(g.v[2], g.v[1]))]; d = c.ret * c.ret
    return [('not negative', c.ret >= 0)] + [('not shorter than any edge', d >= x) for x in e] + [('the length of an edge', z3.Or(*[d == x for x in e]))]


add(S + 'diameter() const', post=diam)


def at(g, x, y): return [g.v[0][k] + x * g.a[k] + y * g.b[k] for k in range(2)]


def tolocal(c):
    g = T(c); p = comps(c.run, c.a[0], 2); l = R_(c); q = at(g, *l)
    inv = FA(2, lambda x, y: z3.Implies(z3.And(at(g, x, y)[0] == p[0], at(g, x, y)[1] == p[1]), z3.And(l[0] == x, l[1] == y)), sorts=[R, R])
    return [('mapping back gives the global point (x)', q[0] == p[0]), ('mapping back gives the global point (y)', q[1] == p[1]), ('the only local coordinates of the point', inv if c.mode == 'verify' else True)] + [
        (f'vertex {k} is a reference corner', z3.Implies(z3.And(p[0] == g.v[k][0], p[1] == g.v[k][1]), z3.And(l[0] == (1 if k == 1 else 0), l[1] == (1 if k == 2 else 0)))) for k in range(3)]


def toglobal(c):
    g = T(c); l = comps(c.run, c.a[0], 2); q = at(g, *l)
    return [('affine image', z3.And(R_(c)[0] == q[0], R_(c)[1] == q[1]))] + [
        (f'corner {k} goes to vertex {k}', z3.Implies(z3.And(l[0] == (1 if k == 1 else 0), l[1] == (1 if k == 2 else 0)), z3.And(R_(c)[0] == g.v[k][0], R_(c)[1] == g.v[k][1]))) for k in range(3)]


add(S + 'toLocal(vertex_t&) const', pre=pre, post=tolocal)
add(S + 'toGlobal(vertex_t&) const', pre=pre, post=toglobal)


def gradpost(c):
    g = T(c); d = R_(c); out = []
    for i in range(3):
        j, k = [x for x in range(3) if x != i]
        out += [(f'gradient of shape function {i}: falls from 1 to 0 towards vertex {j}', z3.Implies(c.v(0) == i, dot(d, sub(g.v[j], g.v[i])) == -1)),
                (f'gradient of shape function {i}: falls from 1 to 0 towards vertex {k}', z3.Implies(c.v(0) == i, dot(d, sub(g.v[k], g.v[i])) == -1)),
                (f'gradient of shape function {i}: constant along the opposite face', z3.Implies(c.v(0) == i, dot(d, sub(g.v[k], g.v[j])) == 0))]
    out += [('gradient of shape function 0 times the determinant', z3.Implies(c.v(0) == 0, z3.And(d[0] * g.D == g.a[1] - g.b[1], d[1] * g.D == g.b[0] - g.a[0])))]
    return out


add(S + 'gradient(u64) const', pre=lambda c: pre(c) + ridx(c), post=gradpost)
others = lambda i: [x for x in range(3) if x != i]
add(S + 'faceCenter(u64) const', pre=ridx, post=lambda c: [(f'mean of the vertices of face {i}', z3.Implies(c.v(0) == i, z3.And(*[2 * R_(c)[t] == T(c).v[others(i)[0]][t] + T(c).v[others(i)[1]][t] for t in range(2)]))) for i in range(3)])


def fnpost(c):
    g = T(c); n = R_(c); out = [('unit length', sq(n) == 1)]
    for i in range(3):
        j, k = others(i)
        m = sub([(p + q) / 2 for p, q in zip(g.v[j], g.v[k])], g.v[i])
        out += [(f'orthogonal to face {i}', z3.Implies(c.v(0) == i, dot(n, sub(g.v[k], g.v[j])) == 0)), (f'not towards vertex {i}', z3.Implies(c.v(0) == i, dot(n, m) >= 0)), (f'points away from vertex {i}', z3.Implies(c.v(0) == i, dot(n, sub(g.v[j], g.v[i])) > 0))]
    return out


add(S + 'faceNormal(u64) const', pre=lambda c: T(c).nd() + ridx(c), post=fnpost)
for nm, k in (('matrix() const', 'mMatrix'), ('inverseMatrix() const', 'mInverseMatrix')):
    add(S + nm, pre=pre, ret=lambda c, k=k: Field(uncast(c.this), k, c.run.eng.fieldty(uncast(c.this).ty, k)))
add(S + 'determinant() const', pre=pre, post=lambda c: [('determinant of the edges', c.ret == T(c).D)])

EPS = z3.RealVal('1/4503599627370496')


def fm(c, i, n):
    f = lambda b, m: Field(b, m, c.run.eng.fieldty(b.ty, m))
    k = f(f(uncast(c.a[i]), 'mValues'), 'Container'); et = c.run.eng.elemty(k.ty)
    return [[Elem(k, z3.IntVal(n * x + y), et).get('') for y in range(n)] for x in range(n)]


def ab(x): return z3.If(x >= 0, x, -x)


def det2(c):
    m = fm(c, 0, 2); big = z3.Or(ab(m[0][0]) > EPS, ab(m[1][0]) > EPS)
    return [('determinant if a pivot exceeds the threshold', z3.Implies(big, c.ret == m[0][0] * m[1][1] - m[0][1] * m[1][0])), ('zero otherwise', z3.Implies(z3.Not(big), c.ret == 0))]


add('determinant(FixedMatrix<double,2,2>&)', post=det2)
add('determinant(FixedMatrix<double,1,1>&)', post=lambda c: [('the entry', c.ret == fm(c, 0, 1)[0][0])])



def vecs(c, n, m):
    a = uncast(c.a[0]); et = c.run.eng.elemty(a.ty)
    return [comps(c.run, Elem(a, z3.IntVal(k), et), n) for k in range(m)]


def n2post(c):
    (e,) = vecs(c, 2, 1); n = R_(c)
    return [('unit length', sq(n) == 1), ('orthogonal', dot(n, e) == 0)]


add('normal(array<Vector<double,array<double,2>>,2>&)', pre=lambda c: [('not degenerate', z3.Or(*[x != 0 for x in vecs(c, 2, 1)[0]]))], post=n2post)


def n3pre(c):
    a, b = vecs(c, 3, 2)
    ok = lambda x, y, m: z3.Or(ab(x) > EPS, ab(y) > EPS, m == 0)
    m = minors(a, b)
    return [('not degenerate', z3.Or(*[x != 0 for x in m])), ('no minor lost to the rounding threshold', z3.And(ok(a[1], b[1], m[0]), ok(a[0], b[0], m[1]), ok(a[0], b[0], m[2])))]


def minors(a, b): return [a[1] * b[2] - a[2] * b[1], a[0] * b[2] - a[2] * b[0], a[0] * b[1] - a[1] * b[0]]


def n3post(c):
    a, b = vecs(c, 3, 2); n = comps(c.run, c.ret, 3)
    return [('unit length', sq(n) == 1), ('orthogonal to the first vector', dot(n, a) == 0), ('orthogonal to the second vector', dot(n, b) == 0)]


def n3lemma(c):
    r = c.local('res'); a, b = vecs(c, 3, 2); m = minors(a, b)
    if r is None: return []
    x = comps(c.run, r, 3)
    return [('first minor', x[0] == m[0]), ('second minor', x[1] == -m[1]), ('third minor', x[2] == m[2]), ('not the zero vector', sq(x) > 0)]


add('normal(array<Vector<double,array<double,3>>,3>&)', pre=n3pre, post=n3post, lemma=n3lemma)


def det3(m): return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])


def rejected3(m):
    """the rounding threshold stops the elimination of a 3x3 matrix (same condition as the contract of determinant)"""
    tiny = lambda x: z3.And(x <= EPS, x >= -EPS)
    left = lambda p, i: m[i][1] - m[i][0] * (1 / m[p][0]) * m[p][1]
    return z3.Or(z3.And(*[tiny(m[i][0]) for i in range(3)]), *[z3.And(*[z3.And(ab(m[i][0]) <= ab(m[p][0]), tiny(left(p, i))) for i in range(3) if i != p]) for p in range(3)])


def sub4(c):
    v = vecs(c, 4, 3)
    return v, [[[r[k] for k in range(4) if k != i] for r in v] for i in range(4)]


def n4pre(c):
    v, ms = sub4(c)
    return [('not degenerate', z3.Or(*[det3(m) != 0 for m in ms])), ('no minor lost to the rounding threshold', z3.And(*[z3.Or(z3.Not(rejected3(m)), det3(m) == 0) for m in ms]))]


def n4post(c):
    v, ms = sub4(c); n = comps(c.run, c.ret, 4)
    return [('unit length', sq(n) == 1)] + [(f'orthogonal to vector {k}', dot(n, v[k]) == 0) for k in range(3)]


def n4lemma(c):
    r = c.local('res')
    if r is None: return []
    v, ms = sub4(c); x = comps(c.run, r, 4)
    return [(f'minor {i}', x[i] == (-det3(ms[i]) if i % 2 else det3(ms[i]))) for i in range(4)] + [('not the zero vector', sq(x) > 0)] + [(f'minors orthogonal to vector {k}', dot(x, v[k]) == 0) for k in range(3)]


add('normal(array<Vector<double,array<double,4>>,4>&)', pre=n4pre, post=n4post, lemma=n4lemma)


def det3post(c):
    m = fm(c, 0, 3); d = det3(m)
    if c.mode == 'verify' and isnum(c.ret): return [('zero only if all pivot candidates of a step vanish', z3.And(c.ret == 0, rejected3(m)))]
    if c.mode == 'verify': return [('determinant', c.ret == d)]
    return [('determinant, or zero if all pivot candidates of a step vanish', z3.Or(c.ret == d, z3.And(c.ret == 0, rejected3(m))))]


add('determinant(FixedMatrix<double,3,3>&)', post=det3post)
