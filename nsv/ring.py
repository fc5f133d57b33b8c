"""Back end for equations over the reals: rational-function normal form.

prove(facts, goal) is True only if the goal (an equation, or a conjunction of / implication to equations) follows
from the ground equations and disequalities among the facts by substitution of solved variables and ring
arithmetic: both sides are brought to num/den with exact rational coefficients and the difference of the cross
products must be the zero polynomial, with every denominator known not to vanish.  Anything else: False."""
import z3
from fractions import Fraction
LIMIT = 4000


class Give(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for v, e in b: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 400000: raise Give()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    if len(r) > LIMIT: raise Give()
    return r


def const(c): return {(): Fraction(c)} if c else {}
ONE = {(): Fraction(1)}


def isconst(p): return not p or (len(p) == 1 and () in p)


def key(m):
    """graded lexicographic order"""
    return (sum(e for _, e in m), m)


def pdivexact(a, b):
    """a / b if it divides exactly, else None"""
    if not b: return None
    q = {}; r = dict(a)
    # lex order on exponent vectors
    vs = sorted({v for p in (a, b) for m in p for v, _ in m})
    vec = lambda m: tuple(dict(m).get(v, 0) for v in vs)
    lb = max(b, key=vec); vb = vec(lb)
    n = 0
    while r:
        n += 1
        if n > 3000: return None
        la = max(r, key=vec); va = vec(la)
        if any(x < y for x, y in zip(va, vb)): return None
        m = tuple((v, x - y) for v, x, y in zip(vs, va, vb) if x > y)
        c = r[la] / b[lb]
        q[m] = q.get(m, 0) + c
        r = padd(r, pmul({m: c}, b), -1)
    return q


class Ctx:
    def __init__(self):
        self.atoms = {}; self.terms = []; self.rules = {}; self.pow2 = {}; self.nz = []; self.memo = {}; self.arr = {}; self.ge = []; self.lits = set()

    def copy(self):
        c = Ctx(); c.atoms = dict(self.atoms); c.terms = list(self.terms); c.rules = dict(self.rules); c.pow2 = dict(self.pow2); c.nz = list(self.nz); c.arr = dict(self.arr); c.ge = list(self.ge); c.lits = set(self.lits)
        return c

    def atom(self, t):
        i = t.get_id()
        if i not in self.atoms: self.atoms[i] = len(self.terms); self.terms.append(t)
        return self.atoms[i]

    def nonzero(self, p):
        """p is known not to vanish"""
        if not p: return False
        if isconst(p): return True
        for q in self.nz:
            if isconst(q): continue
            d = pdivexact(p, q)
            if d is not None and (isconst(d) or self.nonzero(d)): return True
        # a single monomial: every atom known nonzero
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) > 1 or m[0][1] > 1: return all(self.nonzero({((v, 1),): Fraction(1)}) for v, e in m)
        return False

    # (num, den) with den known nonzero
    def red(self, p):
        """apply square rules and reduce"""
        if not self.pow2: return p, ONE
        den = ONE
        for _ in range(30):
            hit = None
            for m in p:
                for v, e in m:
                    if v in self.pow2 and e >= 2: hit = v; break
                if hit is not None: break
            if hit is None: return p, den
            n, d = self.pow2[hit]
            # p = A + B*v^2 (all monomials with v^e, e>=2): multiply through by d
            A = {}; Bp = {}
            for m, c in p.items():
                dm = dict(m); e = dm.get(hit, 0)
                if e >= 2:
                    if e == 2: dm.pop(hit)
                    else: dm[hit] = e - 2
                    k = tuple(sorted(dm.items())); Bp[k] = Bp.get(k, 0) + c
                else: A[m] = c
            p = padd(pmul(A, d), pmul(Bp, n)); den = pmul(den, d)
        raise Give()

    def norm(self, r):
        n, d = r
        n, e = self.red(n); d2, e2 = self.red(d)
        return pmul(n, e2), pmul(d2, e)

    def add(self, a, b, k=1):
        if a[1] == b[1]: return self.norm((padd(a[0], b[0], k), a[1]))
        if isconst(a[1]) or isconst(b[1]): pass
        else:
            q = pdivexact(a[1], b[1])
            if q is not None: return self.norm((padd(a[0], pmul(b[0], q), k), a[1]))
            q = pdivexact(b[1], a[1])
            if q is not None: return self.norm((padd(pmul(a[0], q), b[0], k), b[1]))
        return self.norm((padd(pmul(a[0], b[1]), pmul(b[0], a[1]), k), pmul(a[1], b[1])))

    def mul(self, a, b): return self.norm((pmul(a[0], b[0]), pmul(a[1], b[1])))

    def div(self, a, b):
        if not self.nonzero(b[0]): raise Give()
        return self.norm((pmul(a[0], b[1]), pmul(a[1], b[0])))

    def ev(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None: r = self.memo[i] = (self._ev(t), t)
        return r[0]

    def _ev(self, t):
        if z3.is_rational_value(t): return const(t.as_fraction()), ONE
        if z3.is_int_value(t): return const(t.as_long()), ONE
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            r = self.ev(ch[0])
            for x in ch[1:]: r = self.add(r, self.ev(x), 1 if k == z3.Z3_OP_ADD else -1)
            return r
        if k == z3.Z3_OP_UMINUS: n, d = self.ev(ch[0]); return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            r = self.ev(ch[0])
            for x in ch[1:]: r = self.mul(r, self.ev(x))
            return r
        if k == z3.Z3_OP_DIV: return self.div(self.ev(ch[0]), self.ev(ch[1]))
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]): return const(ch[0].as_long()), ONE
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or (k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1])):
            e = ch[1].as_fraction() if z3.is_rational_value(ch[1]) else ch[1].as_long()
            if e == int(e) and 0 <= e < 8:
                r = (ONE, ONE)
                for _ in range(int(e)): r = self.mul(r, self.ev(ch[0]))
                return r
        t2 = self.look(t)
        if t2 is not None: return self.ev(t2)
        a = self.atom(t)
        if a in self.rules: return self.sub(a)
        return {((a, 1),): Fraction(1)}, ONE

    def look(self, t):
        """select over a named array"""
        if t.decl().kind() != z3.Z3_OP_SELECT: return None
        from .core import sel
        a, i = t.arg(0), t.arg(1); ch = False
        while True:
            d = self.arr.get(a.get_id())
            if d is None: break
            a = d[1]; ch = True
            u = sel(a, i)
            if not (z3.is_app(u) and u.decl().kind() == z3.Z3_OP_SELECT): return u
            a, i = u.arg(0), u.arg(1)
        return sel(a, i) if ch else None

    def sub(self, a):
        n, d = self.rules[a]
        return self.mul(self.poly(n), self.inv(self.poly(d)))

    def inv(self, r): return self.div((ONE, ONE), r)

    def poly(self, p):
        """re-evaluate a polynomial under the current rules"""
        if not any(v in self.rules for m in p for v, _ in m): return p, ONE
        r = ({}, ONE)
        for m, c in p.items():
            t = (const(c), ONE)
            for v, e in m:
                x = self.sub(v) if v in self.rules else ({((v, 1),): Fraction(1)}, ONE)
                for _ in range(e): t = self.mul(t, x)
            r = self.add(r, t)
        return r

    # ---- facts
    def fact(self, f):
        if z3.is_quantifier(f): return
        if z3.is_and(f):
            for x in f.children(): self.fact(x)
            return
        if z3.is_eq(f) and f.arg(0).sort() == z3.RealSort():
            try: self.equation(f.arg(0), f.arg(1))
            except Give: pass
            return
        if z3.is_eq(f) and f.arg(0).sort_kind() == z3.Z3_ARRAY_SORT:
            l, r = f.arg(0), f.arg(1)
            if l.decl().kind() == z3.Z3_OP_UNINTERPRETED and l.num_args() == 0: self.arr.setdefault(l.get_id(), (l, r))
            return
        if z3.is_implies(f):
            h = f.arg(0)
            if h.get_id() in self.lits or z3.is_true(z3.simplify(h)): self.fact(f.arg(1)); return
            if h.decl().kind() == z3.Z3_OP_GE and z3.is_rational_value(h.arg(1)) and h.arg(1).as_fraction() <= 0 and sumsq(h.arg(0)): self.fact(f.arg(1))
            # t > 0 for a sum of squares known not to vanish
            if h.decl().kind() == z3.Z3_OP_GT and z3.is_rational_value(h.arg(1)) and h.arg(1).as_fraction() == 0 and sumsq(h.arg(0)):
                try:
                    if self.nonzero(self.ev(h.arg(0))[0]): self.fact(f.arg(1))
                except Give: pass
            return
        self.sign(f)
        c = self.cmp(f)
        if c is not None and c[2] and c[0].decl().kind() == z3.Z3_OP_ITE:
            h, x, y = c[0].children()       # |x| > k >= 0
            try:
                k = self.ev(c[1]); z = self.add(self.ev(x), self.ev(y))
                if not z[0] and isconst(k[0]) and isconst(k[1]) and (not k[0] or k[0][()] / k[1][()] >= 0):
                    self.disequal(x, z3.RealVal(0)); return
            except Give: pass
        neg = False
        if z3.is_not(f): neg = True; f = f.arg(0)
        k = f.decl().kind()
        try:
            if (k == z3.Z3_OP_EQ and neg or k == z3.Z3_OP_DISTINCT and not neg and f.num_args() == 2) and f.arg(0).sort() == z3.RealSort(): self.disequal(f.arg(0), f.arg(1))
            elif (k in (z3.Z3_OP_LT, z3.Z3_OP_GT) and not neg or k in (z3.Z3_OP_LE, z3.Z3_OP_GE) and neg) and f.arg(0).sort() == z3.RealSort(): self.disequal(f.arg(0), f.arg(1))
        except Give: pass

    def cmp(self, f):
        """(term >= 0 or > 0, strict) for a comparison literal"""
        neg = False
        if z3.is_not(f): neg = True; f = f.arg(0)
        k = f.decl().kind()
        if k not in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE) or f.arg(0).sort() != z3.RealSort(): return None
        a, b = f.arg(0), f.arg(1)
        if neg: k = {z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE, z3.Z3_OP_LE: z3.Z3_OP_GT}[k]
        if k in (z3.Z3_OP_LT, z3.Z3_OP_LE): a, b = b, a
        return a, b, k in (z3.Z3_OP_LT, z3.Z3_OP_GT)

    def sign(self, f):
        c = self.cmp(f)
        if c is None: return
        self.ge.append(c)

    def diff(self, a, b):
        n, d = self.add(self.ev(a), self.ev(b), -1)
        if not isconst(d): raise Give()
        k = d[()]
        return {m: c / k for m, c in n.items()}

    def geq(self, a, b, strict):
        n = self.diff(a, b)
        if isconst(n):
            v = n.get((), 0)
            return v > 0 or (v == 0 and not strict)
        for x, y, s in self.ge:
            try: q = self.diff(x, y)
            except Give: continue
            if len(q) != len(n) or set(q) != set(n): continue
            m0 = next(iter(n)); k = n[m0] / q[m0]
            if k > 0 and all(n[m] == k * q[m] for m in n) and (s or not strict or self.nonzero(n)): return True
        return False

    def disequal(self, a, b):
        n, d = self.add(self.ev(a), self.ev(b), -1)
        if n and not isconst(n): self.nz.append(n); self.memo = {}

    def equation(self, a, b):
        n, d = self.add(self.ev(a), self.ev(b), -1)
        if not n: return
        # linear in some atom with a nonvanishing coefficient
        deg = {}
        for m in n:
            for v, e in m: deg[v] = max(deg.get(v, 0), e)
        best = None
        for v in sorted(deg, reverse=True):
            if deg[v] != 1: continue
            co = {}; rest = {}
            for m, c in n.items():
                dm = dict(m)
                if v in dm: dm.pop(v); co[tuple(sorted(dm.items()))] = c
                else: rest[m] = c
            if not self.nonzero(co): continue
            cost = (0 if isconst(co) else 1, len(rest))
            if best is None or cost < best[0]: best = (cost, v, co, rest)
        if best:
            _, v, co, rest = best
            self.rules[v] = ({m: -c for m, c in rest.items()}, co)
            self.memo = {}
            self.refresh()
            return
        # v^2 * c == rest
        for v in sorted(deg, reverse=True):
            if deg[v] != 2 or v in self.pow2: continue
            co = {}; rest = {}; ok = True
            for m, c in n.items():
                dm = dict(m); e = dm.pop(v, 0)
                if e == 2: co[tuple(sorted(dm.items()))] = c
                elif e == 0: rest[m] = c
                else: ok = False
            if ok and self.nonzero(co):
                self.pow2[v] = ({m: -c for m, c in rest.items()}, co); self.memo = {}
                return

    def refresh(self):
        nz = []
        for p in self.nz:
            try: nz.append(self.poly(p)[0])
            except Give: pass
        self.nz = nz
        q = {}
        for v, (n, d) in self.pow2.items():
            try: q[v] = self.mul(self.poly(n), self.inv(self.poly(d)))
            except Give: pass
        self.pow2 = q

    def goal(self, g):
        if z3.is_true(g): return True
        if z3.is_and(g): return all(self.goal(x) for x in g.children())
        if z3.is_implies(g):
            c = self.copy(); c.lits.add(g.arg(0).get_id()); c.fact(g.arg(0)); return c.goal(g.arg(1))
        if z3.is_eq(g) and g.arg(0).sort() == z3.RealSort():
            try:
                n, d = self.add(self.ev(g.arg(0)), self.ev(g.arg(1)), -1)
                return not n
            except Give: return False
        c = self.cmp(g)
        if c is not None:
            try: return self.geq(*c)
            except Give: return False
        return False


def sumsq(t):
    """syntactically a sum of squares"""
    if z3.is_rational_value(t): return t.as_fraction() >= 0
    if z3.is_add(t): return all(sumsq(x) for x in t.children())
    if z3.is_mul(t):
        ch = list(t.children())
        if len(ch) == 2 and ch[0].eq(ch[1]): return True
        return all(sumsq(x) for x in ch)
    return False


def eqgoal(g):
    if z3.is_and(g): return all(eqgoal(x) for x in g.children())
    if z3.is_implies(g): return eqgoal(g.arg(1))
    if z3.is_not(g): g = g.arg(0)
    elif z3.is_true(g) or (z3.is_eq(g) and g.arg(0).sort() == z3.RealSort()): return True
    return z3.is_app(g) and g.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE) and g.arg(0).sort() == z3.RealSort()


def intonly(t, memo={}):
    st = [t]; n = 0
    while st:
        x = st.pop(); n += 1
        if n > 200 or z3.is_quantifier(x) or not z3.is_app(x): return False
        if x.sort() not in (z3.IntSort(), z3.BoolSort()) or x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE): return False
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): return False
        st.extend(x.children())
    return True


def prove(facts, goal):
    if not eqgoal(goal): return False
    facts = [f for f in facts if not z3.is_quantifier(f)]
    ints = [f for f in facts if intonly(f)]
    if ints:
        s = z3.SimpleSolver(); s.set('timeout', 200); s.add(*ints)
        if s.check() == z3.unsat: return True
        eqs = []
        for f in ints:
            if z3.is_eq(f):
                for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if z3.is_int_value(b) and z3.is_const(a) and not z3.is_int_value(a): eqs.append((a, b)); break
        if eqs:
            facts = [z3.substitute(f, *eqs) for f in facts]; goal = z3.substitute(goal, *eqs)
    c = Ctx()
    try:
        todo = [f for f in facts]
        c.lits = {f.get_id() for f in facts}; c.keep = facts
        # disequalities first: they decide which equations can be solved
        for rnd in range(2):
            for f in todo:
                if rnd == 0 and z3.is_eq(f) and f.arg(0).sort() == z3.RealSort() and z3.is_mul(f.arg(0)): continue
                c.fact(f)
            todo = [f for f in todo if z3.is_eq(f) or z3.is_and(f) or z3.is_implies(f)]
        return c.goal(goal)
    except (Give, RecursionError): return False
