"""Contracts of the scalar helpers (Utils.h)."""
import z3
from ..core import *
from ..contracts import Contract, LoopSpec

DRV = 'utils'
USES = []
C = {}
FACT = z3.Function('FACT', I, I)
BIN = z3.Function('BIN', I, I, I)
RBIN = z3.Function('RBIN', R, I, R)


def add(sig, **kw):
    C[sig] = Contract(sig, **kw)
    return C[sig]


def fact_def(c):
    return [DEF([FACT(0) == 1, FA(1, lambda k: z3.Implies(k > 0, FACT(k) == mkimul(k, FACT(k - 1))), lambda k: [FACT(k)])])]


def bin_def(c):
    """Pascal's triangle, and the lemmas 'binomial' proved from it by induction"""
    return [DEF([FA(1, lambda n: BIN(n, 0) == 1, lambda n: [BIN(n, 0)]), FA(1, lambda n: BIN(n, 1) == z3.If(n >= 0, n, BIN(n, 1)), lambda n: [BIN(n, 1)]),
                 FA(2, lambda n, k: z3.Implies(z3.And(n >= 1, k >= 1), imul(k, BIN(n, k)) == imul(n, BIN(n - 1, k - 1))), lambda n, k: [BIN(n, k)]),
                 FA(2, lambda n, k: z3.Implies(z3.And(0 <= k, k <= n), z3.And(BIN(n, k) == BIN(n, n - k), BIN(n, k) > 0)), lambda n, k: [BIN(n, k)]),
                 FA(2, lambda n, k: z3.Implies(z3.And(0 <= n, k > n), BIN(n, k) == 0), lambda n, k: [BIN(n, k)])])]


for t in ('real', 'i32', 'u64'):
    add(f't_min({t},{t})', post=lambda c: [('lower bound', z3.And(c.ret <= c.v(0), c.ret <= c.v(1))), ('one of the two', z3.Or(c.ret == c.v(0), c.ret == c.v(1)))])
    add(f't_max({t},{t})', post=lambda c: [('upper bound', z3.And(c.ret >= c.v(0), c.ret >= c.v(1))), ('one of the two', z3.Or(c.ret == c.v(0), c.ret == c.v(1)))])
for t in ('i32&', 'u64&'):
    add(f'sign_pow({t})', post=lambda c: [('sign of (-1)^k', c.ret == z3.If(c.v(0) % 2 == 0, 1, -1))])
    add(f'factorial({t})', recursive=True, measure=lambda c: c.v(0), pre=lambda c: [('the argument is not negative', c.v(0) >= 0)] + fact_def(c), post=lambda c: [('k!', c.ret == FACT(c.v(0)))])


def binv(L):
    n, k = L.c.v(0), L.c.v(1); i = L.v('i'); v = L.v('v')
    return [('range', z3.And(i >= 2, i <= k + 1)), ('product so far', v == BIN(n - k + (i - 1), i - 1))]


for s in ('binom(i32&,u32)', 'binom(u64&,u64)', 'binom(i64&,u64)'):
    add(s, recursive=True, measure=lambda c: c.v(1), pre=lambda c: [('the upper argument is not negative', c.v(0) >= 0)] + bin_def(c),
        post=lambda c: [('binomial coefficient, zero above the upper argument', c.ret == BIN(c.v(0), c.v(1)))],
        loops=[LoopSpec(binv, var=lambda L: L.c.v(1) + 1 - L.v('i'))])


def rdef(c): return [DEF([FA(1, lambda x: RBIN(x, 0) == 1, lambda x: [RBIN(x, 0)], sorts=[R])])]


def rbinv(L):
    n, k, i = L.c.v(0), L.c.v(1), L.v('i')
    return [('range', z3.And(i >= 0, i <= k)), ('product so far', L.v('v') == RBIN(n, i))]


def rbody(L):
    n, i = L.c.v(0), L.v('i')
    # definition of the generalised binomial coefficient at i -> i+1
    return [RBIN(n, i + 1) == RBIN(n, i) * ((n - z3.ToReal(i)) / (z3.ToReal(i) + 1))]


add('binom(real&,u32)', opts=dict(nla=True), pre=rdef, post=lambda c: [('product of (n-i)/(i+1)', c.ret == RBIN(c.v(0), c.v(1)))],
    loops=[LoopSpec(rbinv, var=lambda L: L.c.v(1) - L.v('i'), body=rbody)])
