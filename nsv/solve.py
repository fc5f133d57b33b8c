"""Discharging obligations: SMT-LIB text to z3 / cvc5 in worker processes."""
import z3, time, os
from . import par
from .core import *

x, y, a, b, j, r, p = (None,) * 7


def background(decls):
    """axioms of the uninterpreted arithmetic functions, as needed by the names used"""
    out = []
    a, b, j, r, p = z3.Ints('a! b! j! r! p!')
    x, y = z3.Reals('x! y!')
    FAq = lambda vs, bd, *pats: z3.ForAll(vs, bd, patterns=[z3.MultiPattern(*q) if isinstance(q, tuple) else q for q in pats])
    if decls & {'lin', 'lfst', 'lsnd', 'imul'}:
        L = lin(a, b, j)
        out += [
            FAq([a, b, j], L == lin(b, a, j), L),
            FAq([a, b, j], z3.Implies(z3.And(j >= 0, j < b, a >= 0), z3.And(lfst(L, b) == a, lsnd(L, b) == j, L >= 0)), L),
            FAq([a, b, j], z3.Implies(z3.And(j >= 0, j < a, b >= 0), z3.And(lfst(L, a) == b, lsnd(L, a) == j, L >= 0)), L),
            FAq([a, b, j, r], z3.Implies(z3.And(j >= 0, j < b, a >= 0, a < r), L < imul(r, b)), (L, imul(r, b))),
            FAq([a, b, j, r], z3.Implies(z3.And(j >= 0, j < b, a >= 0, a < r), L < imul(b, r)), (L, imul(b, r))),
            FAq([a, b], imul(a, b) == imul(b, a), imul(a, b)),
            FAq([a, b], z3.Implies(z3.And(a >= 0, b >= 0), imul(a, b) >= 0), imul(a, b)),
            FAq([a, b], z3.Implies(z3.And(a > 0, b >= 0), z3.And(lfst(imul(a, b), a) == b, lfst(imul(b, a), a) == b)), lfst(imul(a, b), a), lfst(imul(b, a), a)),
            FAq([a, b], z3.Implies(z3.And(a > 0, b > 0), z3.And(imul(a, b) > 0, imul(a, b) >= a, imul(a, b) >= b)), imul(a, b)),
            FAq([a, b], z3.Implies(z3.Or(a == 0, b == 0), imul(a, b) == 0), imul(a, b)),
            FAq([a, b], z3.Implies(a == 1, imul(a, b) == b), imul(a, b)),
            FAq([a, b], z3.Implies(b == 1, imul(a, b) == a), imul(a, b)),
            FAq([p, b], z3.Implies(z3.And(p >= 0, b > 0), z3.And(lfst(p, b) >= 0, lsnd(p, b) >= 0, lsnd(p, b) < b, lin(lfst(p, b), b, lsnd(p, b)) == p)), lfst(p, b)),
            FAq([p, b, r], z3.Implies(z3.And(p >= 0, b > 0, p < imul(r, b)), lfst(p, b) < r), (lfst(p, b), imul(r, b))),
            FAq([p, b, r], z3.Implies(z3.And(p >= 0, b > 0, p < imul(b, r)), lfst(p, b) < r), (lfst(p, b), imul(b, r))),
        ]
    if decls & {'rmul'}:
        M = rmul(x, y)
        out += [
            FAq([x, y], M == rmul(y, x), M),
            FAq([x, y], z3.Implies(x == 0, M == 0), M),
            FAq([x, y], z3.Implies(x == 1, M == y), M),
            FAq([x, y], z3.Implies(x == -1, M == -y), M),
            FAq([x, y], z3.Implies(M == 0, z3.Or(x == 0, y == 0)), M),
        ]
    return out


BG_NAMES = {'lin', 'lfst', 'lsnd', 'imul', 'rmul'}


_un = {}


def used_names(fs):
    out = set()
    for f in fs:
        k = f.get_id(); r = _un.get(k)
        if r is None: r = _un[k] = (_used_names([f]), f)
        out |= r[0]
    return out


def _used_names(fs):
    seen = set(); names = set(); stack = list(fs)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(t): stack.append(t.body()); continue
        if z3.is_app(t):
            nm = t.decl().name()
            if nm in BG_NAMES: names.add(nm)
            stack.extend(t.children())
    return names


def fpname(d):
    return (d.name(), d.arity())


def syms_of(t, cache):
    i = t.get_id()
    r = cache.get(i)
    if r is not None: return r[0]
    out = set(); seen = set(); st = [t]
    while st:
        y = st.pop()
        k = y.get_id()
        if k in seen: continue
        seen.add(k)
        if z3.is_quantifier(y): st.append(y.body()); continue
        if z3.is_app(y):
            if y.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(y.decl().name())
            st.extend(y.children())
    cache[i] = (out, t)
    return out


def to_text(facts, goal, extra_bg=True):
    s = z3.Solver()
    fs = list(facts) + [z3.Not(goal)]
    bg = background(used_names(fs)) if extra_bg else []
    for f in bg: s.add(f)
    for f in fs: s.add(f)
    return s.to_smt2()


def run_z3(text, rlimit, mbqi, seed=0, timeout=60000, depth=None):
    c = z3.Context()
    s = z3.SimpleSolver(ctx=c) if not mbqi and depth is None else z3.Solver(ctx=c)
    s.set('rlimit', rlimit); s.set('timeout', timeout); s.set('random_seed', seed)
    if not mbqi:
        s.set('auto_config', False); s.set('mbqi', False)
        if depth is not None: s.set('qi.eager_threshold', float(depth)); s.set('qi.lazy_threshold', float(depth + 2))
    s.from_string(text)
    r = s.check()
    m = None
    if r == z3.sat:
        try: m = str(s.model())[:4000]
        except Exception: m = None
    return str(r), m


def run_cvc5(text, tlimit):
    import subprocess, tempfile
    try:
        q = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={tlimit}', '--full-saturate-quant', '-'], input='(set-logic ALL)\n' + text, text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=tlimit / 1000 + 10)
        o = q.stdout.strip().split('\n')[0] if q.stdout.strip() else 'unknown'
        return o if o in ('sat', 'unsat') else 'unknown', None
    except Exception:
        return 'unknown', None


# (label, function)
def strategies(tier):
    big = 1 if tier == 'quick' else 3
    return [
        ('z3/ematch', lambda t: run_z3(t, 6_000_000 * big, False, 0, 20000 * big)),
        ('z3/ematch-shallow', lambda t: run_z3(t, 6_000_000 * big, False, 0, 20000 * big, 3)),
        ('z3', lambda t: run_z3(t, 6_000_000 * big, True, 0, 20000 * big)),
        ('cvc5', lambda t: run_cvc5(t, 15000 * big)),
        ('z3/ematch-seed7', lambda t: run_z3(t, 20_000_000 * big, False, 7, 40000 * big)),
        ('cvc5-long', lambda t: run_cvc5(t, 50000 * big)),
    ]


def solve_one(job):
    k, text, tier, stage = job
    t0 = time.time(); m = None
    label, f = strategies(tier)[stage]
    try:
        r, m = f(text)
        log = f'{label}: {r}'
    except Exception as e:
        r = 'unknown'; log = f'{label}: {type(e).__name__} {str(e)[:200]}'
    return k, r, label, time.time() - t0, m, log


def pool():
    pass


T0 = time.time()


def solve_all(texts, tier='quick', cap=40):
    """texts -> list of (result, backend, time, model, log).  Strategies run in stages over what is left;
    once more than `cap` obligations survive the first stage only `cap` of them go on (one survivor already means: not proved)."""
    uniq = {}
    for t in texts: uniq.setdefault(t, ['unknown', '-', 0.0, None, []])
    for t, u in uniq.items():
        if t.startswith('RING '): u[0], u[1] = 'unsat', 'ring normal form'
    left = sorted((t for t in uniq if uniq[t][0] != 'unsat'), key=lambda t: -len(t))
    for stage in range(len(strategies(tier))):
        if not left or (tier == 'quick' and stage > 1 and time.time() - T0 > 420): break
        nxt = []
        for k, x in enumerate(par.pmap(solve_one, [(i, t, tier, stage) for i, t in enumerate(left)], limit=180 if tier == 'quick' else 600)):
            r, lab, tm, m, log = x[1:] if x else ('unknown', '-', 0.0, None, 'worker lost (time limit or memory)')
            u = uniq[left[k]]
            u[2] += tm; u[4].append(log)
            if r == 'unsat': u[0], u[1] = 'unsat', lab
            elif r == 'sat' and stage > 0: u[0], u[1], u[3] = 'sat', lab, m
            else: nxt.append(left[k])
        left = sorted(nxt, key=len)[:cap]
        if stage == 0: left = left[:cap]
        if stage == len(strategies(tier)) - 2: left = left[:16]
    return [tuple(uniq[t]) for t in texts]


def _cover(t):
    try: return run_z3(t, 1_500_000, False, 0, 5000)[0]
    except Exception: return 'unknown'


def solve_covers(texts):
    return [x or 'unknown' for x in par.pmap(_cover, texts, limit=60)]
