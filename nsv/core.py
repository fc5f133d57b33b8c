"""Symbolic values, locations and path state of the VC generator."""
import z3
from .ast import Ty, VOID, BOOL, REAL, SIZE, INT

I = z3.IntSort(); R = z3.RealSort(); B = z3.BoolSort()


class Unsupported(Exception):
    """construct or shape outside the verified subset (never a violation)"""


class PathEnd(Exception):
    pass


class Infeasible(Exception):
    pass


class Restart(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, cls, val=None):
        self.cls = cls; self.val = val


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ------------------------------------------------------------ term helpers
def iv(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def isnum(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def num(t):
    if z3.is_int_value(t): return t.as_long()
    return t.as_fraction()


def same(a, b):
    return a is b or (z3.is_expr(a) and z3.is_expr(b) and a.eq(b))


def mkand(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = mkand(*x)
        if x is True: continue
        if x is False: return z3.BoolVal(False)
        if z3.is_true(x): continue
        if z3.is_false(x): return x
        out.append(x)
    if not out: return z3.BoolVal(True)
    if len(out) == 1: return out[0]
    return z3.And(*out)


def mkor(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = mkor(*x)
        if x is False: continue
        if x is True: return z3.BoolVal(True)
        if z3.is_false(x): continue
        if z3.is_true(x): return x
        out.append(x)
    if not out: return z3.BoolVal(False)
    if len(out) == 1: return out[0]
    return z3.Or(*out)


def mknot(x):
    if isinstance(x, bool): return z3.BoolVal(not x)
    if z3.is_true(x): return z3.BoolVal(False)
    if z3.is_false(x): return z3.BoolVal(True)
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def mkite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a, Cpx) or isinstance(b, Cpx):
        a, b = tocpx(a), tocpx(b)
        return Cpx(mkite(c, a.re, b.re), mkite(c, a.im, b.im))
    a, b = iv(a), iv(b)
    if same(a, b): return a
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    return z3.If(c, a, b)


class Cpx:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = toreal(re), toreal(im)


def tocpx(x):
    return x if isinstance(x, Cpx) else Cpx(toreal(x), z3.RealVal(0))


def toreal(x):
    if isinstance(x, (int, float)): return z3.RealVal(x)
    if z3.is_int(x):
        if z3.is_int_value(x): return z3.RealVal(x.as_long())
        return z3.ToReal(x)
    if z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return x


def mkeq(a, b):
    if isinstance(a, Cpx) or isinstance(b, Cpx):
        a, b = tocpx(a), tocpx(b)
        return mkand(mkeq(a.re, b.re), mkeq(a.im, b.im))
    a, b = iv(a), iv(b)
    if same(a, b): return z3.BoolVal(True)
    if isnum(a) and isnum(b): return z3.BoolVal(num(a) == num(b))
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    return a == b


def mkcmp(op, a, b):
    a, b = iv(a), iv(b)
    if isnum(a) and isnum(b):
        x, y = num(a), num(b)
        return z3.BoolVal({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    if same(a, b): return z3.BoolVal(op in ('<=', '>='))
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


def mkadd(a, b):
    if isinstance(a, Cpx) or isinstance(b, Cpx):
        a, b = tocpx(a), tocpx(b)
        return Cpx(mkadd(a.re, b.re), mkadd(a.im, b.im))
    a, b = iv(a), iv(b)
    if isnum(a) and isnum(b) and a.sort() == b.sort():
        return z3.IntVal(num(a) + num(b)) if z3.is_int(a) else z3.RealVal(num(a) + num(b))
    if a.sort() != b.sort(): a, b = toreal(a), toreal(b)
    if isnum(a) and num(a) == 0: return b
    if isnum(b) and num(b) == 0: return a
    # (x + c1) + c2
    if isnum(b) and z3.is_add(a) and a.num_args() == 2 and isnum(a.arg(1)):
        return mkadd(a.arg(0), mkadd(a.arg(1), b))
    if isnum(a): return mkadd(b, a) if not isnum(b) else a + b
    return a + b


def mkneg(a):
    if isinstance(a, Cpx): return Cpx(mkneg(a.re), mkneg(a.im))
    a = iv(a)
    if isnum(a): return z3.IntVal(-num(a)) if z3.is_int(a) else z3.RealVal(-num(a))
    return -a


def mksub(a, b):
    if isinstance(a, Cpx) or isinstance(b, Cpx):
        a, b = tocpx(a), tocpx(b)
        return Cpx(mksub(a.re, b.re), mksub(a.im, b.im))
    a, b = iv(a), iv(b)
    if isnum(b): return mkadd(a, mkneg(b))
    if a.sort() != b.sort(): a, b = toreal(a), toreal(b)
    if same(a, b): return z3.IntVal(0) if z3.is_int(a) else z3.RealVal(0)
    if isnum(a) and num(a) == 0: return mkneg(b)
    return a - b


# uninterpreted products / layout functions
rmul = z3.Function('rmul', R, R, R)
rinv = z3.Function('rinv', R, R)
imul = z3.Function('imul', I, I, I)
lin = z3.Function('lin', I, I, I, I)      # lin(u,v,j) = u*v+j (symmetric in u,v)
lfst = z3.Function('lfst', I, I, I)       # lfst(p,v) = p div v
lsnd = z3.Function('lsnd', I, I, I)       # lsnd(p,v) = p mod v
fsqrt = z3.Function('sqrt', R, R)
isnan = z3.Function('isnan', R, B)
isinf = z3.Function('isinf', R, B)
fpow = z3.Function('rpow', R, R, R)


def order(a, b):
    return (a, b) if a.sexpr() <= b.sexpr() else (b, a)


def mkimul(a, b):
    a, b = iv(a), iv(b)
    if isnum(a) or isnum(b):
        if isnum(a) and isnum(b): return z3.IntVal(num(a) * num(b))
        if isnum(a): a, b = b, a
        if num(b) == 0: return b
        if num(b) == 1: return a
        return a * b
    a, b = order(a, b)
    return imul(a, b)


def mkrmul(a, b, uf=True):
    if isinstance(a, Cpx) or isinstance(b, Cpx):
        a, b = tocpx(a), tocpx(b)
        return Cpx(mksub(mkrmul(a.re, b.re, uf), mkrmul(a.im, b.im, uf)),
                   mkadd(mkrmul(a.re, b.im, uf), mkrmul(a.im, b.re, uf)))
    a, b = toreal(iv(a)), toreal(iv(b))
    if isnum(a) and isnum(b): return z3.RealVal(num(a) * num(b))
    if isnum(a): a, b = b, a
    if isnum(b):
        if num(b) == 0: return z3.RealVal(0)
        if num(b) == 1: return a
        return a * b
    if not uf: return a * b
    # pull numeric coefficients out of uninterpreted products
    if z3.is_mul(a) and a.num_args() == 2 and (isnum(a.arg(0)) or isnum(a.arg(1))):
        k, x = (a.arg(0), a.arg(1)) if isnum(a.arg(0)) else (a.arg(1), a.arg(0))
        return mkrmul(mkrmul(x, b), k)
    if z3.is_mul(b) and b.num_args() == 2 and (isnum(b.arg(0)) or isnum(b.arg(1))):
        return mkrmul(b, a)
    if z3.is_app_of(a, z3.Z3_OP_UMINUS): return mkneg(mkrmul(a.arg(0), b))
    if z3.is_app_of(b, z3.Z3_OP_UMINUS): return mkneg(mkrmul(a, b.arg(0)))
    a, b = order(a, b)
    return rmul(a, b)


# ------------------------------------------------------------ quantified facts
class FA:
    """forall vars. body.  As a goal it is skolemised, as a fact it becomes a
    z3 quantifier with the given patterns."""

    def __init__(self, n, body, pats=None, sorts=None, hints=None, names='ijkpq'):
        self.n = n; self.body = body; self.pats = pats; self.hints = hints
        self.sorts = sorts or [I] * n
        self.names = names

    def vars(self, tag):
        return [z3.Const(f'{self.names[m]}!{tag}', s) for m, s in enumerate(self.sorts)]

    def fact(self, tag='q'):
        vs = self.vars(tag)
        b = self.body(*vs)
        b = tobool(b, tag)
        if z3.is_true(b): return b
        pats = []
        if self.pats is not None:
            ps = self.pats(*vs)
            for p in ps:
                if isinstance(p, (list, tuple)):
                    pats.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
                else:
                    pats.append(p)
        return z3.ForAll(vs, b, patterns=pats) if pats else z3.ForAll(vs, b)


class EX:
    """exists; as a fact skolemised, as a goal needs witnesses (list of tuples)"""

    def __init__(self, n, body, wit=None, pats=None):
        self.n, self.body, self.wit, self.pats = n, body, wit, pats


class IMP:
    def __init__(self, g, items):
        self.g = g; self.items = items if isinstance(items, list) else [items]


_q = [0]


def tobool(b, tag='q'):
    if isinstance(b, bool): return z3.BoolVal(b)
    if isinstance(b, FA):
        _q[0] += 1
        return b.fact(f'{tag}{_q[0] % 7}n')
    if isinstance(b, IMP):
        return z3.Implies(b.g, mkand(*[tobool(x, tag) for x in b.items]))
    if isinstance(b, (list, tuple)):
        return mkand(*[tobool(x, tag) for x in b])
    return b


def has_quant(t, _c={}):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        stack.extend(x.children())
    return False


# ------------------------------------------------------------ locations
class LV:
    ty = None

    def get(self, p=''):
        raise NotImplementedError

    def set(self, p, v):
        raise NotImplementedError


class Root(LV):
    """one variable (or heap region): a dict of leaf path -> term"""

    def __init__(self, run, name, ty):
        self.run = run; self.name = name; self.ty = ty; self.leaves = {}; self.initial = {}
        self.frozen = False
        self.alive = True
        self.quiet = False

    def get(self, p=''):
        v = self.leaves.get(p)
        if v is None:
            s = self.run.eng.leafsort(self.ty, p)
            if isinstance(s, str):
                raise Unsupported(f'read of uninitialised pointer {self.name}{p}')
            if s is None:
                raise Unsupported(f'no leaf {p!r} in {self.ty!r} ({self.name})')
            v = self.initial.get(p)
            if v is None:
                v = self.initial[p] = self.run.fresh(f'{self.name}{p}', s)
            self.leaves[p] = v
        return v

    def set(self, p, v):
        if self.frozen: raise Unsupported('write to snapshot')
        old = self.leaves.get(p)
        if old is not None and eqleaf(old, v): return
        self.leaves[p] = v
        if not self.quiet: self.run.log_write(self, p)

    def root(self):
        return self

    def __repr__(self):
        return self.name


def eqleaf(a, b):
    if a is b: return True
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if isinstance(a, PtrVal) and isinstance(b, PtrVal):
        return ptr_same(a, b)
    return False


def lv_same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, Field): return a.name == b.name and lv_same(a.base, b.base)
    if isinstance(a, Elem): return same(a.idx, b.idx) and lv_same(a.base, b.base)
    return False


def ptr_same(a, b):
    if not lv_same(a.lv, b.lv): return False
    if (a.idx is None) != (b.idx is None): return False
    return a.idx is None or same(a.idx, b.idx)


class Field(LV):
    def __init__(self, base, name, ty):
        self.base, self.name, self.ty = base, name, ty

    def get(self, p=''):
        return self.base.get('.' + self.name + p)

    def set(self, p, v):
        self.base.set('.' + self.name + p, v)

    def root(self):
        return self.base.root()

    def __repr__(self):
        return f'{self.base!r}.{self.name}'


_selmemo = {}


def sel(a, i):
    if not z3.is_expr(i): return sel_(a, i)
    k = (a.get_id(), i.get_id()); r = _selmemo.get(k)
    if r is None: r = _selmemo[k] = (sel_(a, i), a, i)
    return r[0]


def sel_(a, i):
    while True:
        k = a.decl().kind() if z3.is_app(a) else None
        if k == z3.Z3_OP_STORE:
            j = a.arg(1)
            if same(i, j): return a.arg(2)
            if isnum(i) and isnum(j):
                a = a.arg(0); continue
            # i, j syntactically x+c1 / x+c2
            if distinct_syn(i, j):
                a = a.arg(0); continue
        elif k == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        return z3.Select(a, i)


def _off(t):
    if z3.is_add(t) and t.num_args() == 2 and isnum(t.arg(1)): return t.arg(0), num(t.arg(1))
    return t, 0


def distinct_syn(i, j):
    a, c = _off(i); b, d = _off(j)
    return c != d and a.eq(b)


class Elem(LV):
    def __init__(self, base, idx, ty):
        self.base, self.idx, self.ty = base, iv(idx), ty

    def get(self, p=''):
        return sel(self.base.get('[]' + p), self.idx)

    def set(self, p, v):
        a = self.base.get('[]' + p)
        if isinstance(v, PtrVal): raise Unsupported('non-heap pointer stored in array')
        nv = z3.Store(a, self.idx, v)
        if z3.is_app_of(a, z3.Z3_OP_STORE) and same(a.arg(1), self.idx):
            nv = z3.Store(a.arg(0), self.idx, v)
        self.base.set('[]' + p, nv)

    def root(self):
        return self.base.root()

    def __repr__(self):
        return f'{self.base!r}[{self.idx}]'


class CondLV(LV):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b; self.ty = a.ty

    def get(self, p=''):
        return mkite(self.c, self.a.get(p), self.b.get(p))

    def set(self, p, v):
        self.a.set(p, mkite(self.c, v, self.a.get(p)))
        self.b.set(p, mkite(self.c, self.b.get(p), v))

    def root(self):
        return self.a.root()


class PtrVal:
    """pointer/iterator: to a single object (idx None) or into a sequence"""
    __slots__ = ('lv', 'idx', 'ety')

    def __init__(self, lv, idx=None, ety=None):
        self.lv, self.idx, self.ety = lv, (None if idx is None else iv(idx)), ety


class NullV:
    pass


NULL = NullV()


class Closure:
    def __init__(self, node, frame, this):
        self.node, self.frame, self.this = node, frame, this


class DEF:
    """definitional extension (ghost definitions): assumed, never proved"""

    def __init__(self, items):
        self.items = items
