"""Contracts (trusted) of the standard-library operations used by the code."""
import z3
from .core import *
from .interp import *
from .interp import VOIDV, kids, strip
from .ast import norm
from . import text

TRUSTED = {
    'vector': 'std::vector/array/initializer_list: sequence semantics (size, element access, push_back, insert, erase, resize, clear, copy, move, swap)',
    'complex': 'std::complex: exact field arithmetic',
    'cmath': 'std::abs/sqrt/pow/isnan/isinf: exact real functions; sqrt(x)>=0 and sqrt(x)^2=x for x>=0',
    'containers': 'std::queue/multimap: sequence semantics (push, front, pop, insert somewhere, erase at an iterator, begin, end, clear, size, some sub-range for equal_range); the order of a multimap is not used',
    'text': 'std::string and streams: reading a number is a function of the text from the read position to its end, getline splits the text into lines, writing appends (formatting of numbers is not modelled)',
    'algorithm': 'std::swap/fill/transform/max_element: standard specification',
}


def isvec(t):
    return t.k == 'rec' and t.n in ('vector', 'initializer_list')


def args_rv(run, ns):
    return [run.rv(a) for a in ns if a['kind'] != 'CXXDefaultArgExpr']


def member(run, n, name, b, argn, bn, m):
    t = b.ty if isinstance(b, LV) else run.T(bn)
    if t.k in ('ptr', 'ref'): t = t.a
    if t.k == 'rec' and t.n == 'complex':
        run.ver.trusted.add('complex')
        v = run.load(b, t) if isinstance(b, LV) else b
        a = args_rv(run, argn)
        if name == 'real':
            if not a: return tocpx(v).re
            run.store(b, Cpx(a[0], tocpx(v).im), t); return VOIDV
        if name == 'imag':
            if not a: return tocpx(v).im
            run.store(b, Cpx(tocpx(v).re, a[0]), t); return VOIDV
    if t.k == 'rec' and t.n in ('vector', 'initializer_list', 'array'):
        run.ver.trusted.add('vector')
        return seq_member(run, n, name, b, argn, t)
    if t.k == 'rec' and t.n in ('queue', 'multimap', 'map'):
        run.ver.trusted.add('containers')
        return cont_member(run, n, name, b, argn, t)
    if t.k == 'rec' and t.n in ('istream', 'ostream'):
        return text.member(run, n, name, b, argn, t)
    if t.k == 'rec' and t.n == 'basic_string':
        run.ver.trusted.add('text')
        return seq_member(run, n, name, b, argn, t)
    if t.k == 'int' and name.startswith('operator'): return run.load(b, t) if isinstance(b, LV) else b
    if t.k == 'rec' and t.n in ITERS and name == 'base':
        return run.load(b, t)
    if name.startswith('operator') and t.k == 'rec' and t.n in ('complex',):
        return run.load(b, t)
    raise Unsupported(f'std member {t!r}::{name}')


def seq_member(run, n, name, b, argn, t):
    eng = run.eng
    et = eng.elemty(t)
    if name == 'size': return run.seqlen(b)
    if name == 'empty': return mkeq(run.seqlen(b), 0)
    if name in ('begin', 'cbegin', 'data') or name == 'c_str' and t.n == 'basic_string': return PtrVal(b, z3.IntVal(0))
    if name in ('end', 'cend'): return PtrVal(b, run.seqlen(b))
    if name == 'front': return run.elem(b, z3.IntVal(0), 'front() of a non-empty sequence')
    if name == 'back':
        l = run.seqlen(b)
        return run.elem(b, mksub(l, 1), 'back() of a non-empty sequence')
    if name == 'at':
        i = run.rv(argn[0])
        c = mkand(iv(i) >= 0, iv(i) < run.seqlen(b))
        if run.branch(z3.simplify(c)): return Elem(b, i, et)
        raise CppThrow('out_of_range')
    if name == 'operator[]':
        return run.elem(b, run.rv(argn[0]))
    if name == 'reserve' or name == 'shrink_to_fit':
        args_rv(run, argn); return VOIDV
    if name == 'capacity':
        v = run.fresh('cap', I); run.assume(v >= run.seqlen(b)); return v
    if name == 'clear':
        b.set('#len', z3.IntVal(0)); return VOIDV
    if name in ('push_back', 'emplace_back'):
        l = run.seqlen(b)
        if name == 'emplace_back' and len(argn) != 1: raise Unsupported('emplace_back')
        v = run.frozen_elem(run.rv(argn[0]), et)
        b.set('#len', mkadd(l, 1))
        for p, s in eng.shape(et): Elem(b, l, et).set(p, v[p])
        return VOIDV
    if name == 'pop_back':
        l = run.seqlen(b)
        run.check('pop_back() of a non-empty sequence', l > 0, 'memory')
        b.set('#len', mksub(l, 1)); return VOIDV
    if name == 'insert':
        pos = run.rv(argn[0]); 
        if len(argn) != 2: raise Unsupported('vector::insert overload')
        v = run.frozen_elem(run.rv(argn[1]), et)
        idx = pos.idx; l = run.seqlen(b)
        run.check('vector insert position in range', mkand(idx >= 0, idx <= l), 'memory')
        return seq_insert(run, b, et, idx, v)
    if name == 'erase':
        if len(argn) != 1: raise Unsupported('vector::erase range')
        pos = run.rv(argn[0]); idx = pos.idx; l = run.seqlen(b)
        run.check('vector erase position in range', mkand(idx >= 0, idx < l), 'memory')
        return seq_erase(run, b, et, idx)
    if name == 'resize':
        cnt = run.coerce(run.rv(argn[0]), SIZE)
        l = run.seqlen(b)
        if len(argn) > 1 and argn[1]['kind'] != 'CXXDefaultArgExpr': v = run.frozen_elem(run.rv(argn[1]), et)
        else: v = run.zero_elem(et)
        for p, s in eng.shape(et):
            if isnum(l) and num(l) == 0:
                b.set('[]' + p, z3.K(I, v[p])); continue
            if run.quick(cnt <= l): continue
            old = b.get('[]' + p)
            new = run.fresh('rsz' + p, old.sort())
            run.assume(FA(1, lambda k, old=old, new=new, vv=v[p]: sel(new, k) == z3.If(k < l, z3.Select(old, k), vv), lambda k, new=new: [z3.Select(new, k)]))
            b.set('[]' + p, new)
        b.set('#len', cnt)
        return VOIDV
    if name == 'assign' and len(argn) == 2:
        a0 = run.rv(argn[0])
        if isinstance(a0, PtrVal): raise Unsupported('assign range')
        v = run.frozen_elem(run.rv(argn[1]), et)
        b.set('#len', a0)
        for p, s in eng.shape(et): b.set('[]' + p, z3.K(I, v[p]))
        return VOIDV
    if name == 'fill':
        v = run.frozen_elem(run.rv(argn[0]), et)
        for p, s in eng.shape(et): b.set('[]' + p, z3.K(I, v[p]))
        return VOIDV
    if name == 'swap':
        return swap(run, b, run.ev(argn[0]), t)
    if name == 'operator=':
        return seq_assign(run, b, argn[0], t)
    raise Unsupported(f'sequence member {name}')


def seq_insert(run, b, et, idx, v):
    l = run.seqlen(b)
    for p, s in run.eng.shape(et):
        old = b.get('[]' + p)
        new = run.fresh('ins' + p, old.sort())
        vv = v[p]
        run.assume(FA(1, lambda k, old=old, new=new, vv=vv: sel(new, k) == z3.If(k < idx, z3.Select(old, k), z3.If(k == idx, vv, z3.Select(old, k - 1))),
                      lambda k, new=new: [z3.Select(new, k)]))
        run.assume(FA(1, lambda k, old=old, new=new: mkand(z3.Implies(k < idx, z3.Select(new, k) == z3.Select(old, k)), z3.Implies(k >= idx, z3.Select(new, k + 1) == z3.Select(old, k))),
                      lambda k, old=old: [z3.Select(old, k)]))
        run.assume(z3.Select(new, idx) == vv)
        b.set('[]' + p, new)
    b.set('#len', mkadd(l, 1))
    return PtrVal(b, idx)


def seq_erase(run, b, et, idx):
    l = run.seqlen(b)
    for p, s in run.eng.shape(et):
        old = b.get('[]' + p)
        new = run.fresh('era' + p, old.sort())
        run.assume(FA(1, lambda k, old=old, new=new: sel(new, k) == z3.If(k < idx, z3.Select(old, k), z3.Select(old, k + 1)),
                      lambda k, new=new: [z3.Select(new, k)]))
        run.assume(FA(1, lambda k, old=old, new=new: mkand(z3.Implies(k < idx, z3.Select(new, k) == z3.Select(old, k)), z3.Implies(k > idx, z3.Select(new, k - 1) == z3.Select(old, k))),
                      lambda k, old=old: [z3.Select(old, k)]))
        b.set('[]' + p, new)
    b.set('#len', mksub(l, 1))
    return PtrVal(b, idx)


def cont_member(run, n, name, b, argn, t):
    et = run.eng.elemty(t); l = run.seqlen(b)
    if name == 'size': return l
    if name == 'empty': return mkeq(l, 0)
    if t.n == 'queue':
        if name in ('push', 'emplace'):
            v = run.frozen_elem(run.rv(argn[0]), et)
            b.set('#len', mkadd(l, 1))
            for p, s in run.eng.shape(et): Elem(b, l, et).set(p, v[p])
            return VOIDV
        if name in ('front', 'back'): return run.elem(b, z3.IntVal(0) if name == 'front' else mksub(l, 1), f'{name}() of a non-empty queue')
        if name == 'pop':
            run.check('pop() of a non-empty queue', l > 0, 'memory')
            seq_erase(run, b, et, z3.IntVal(0)); return VOIDV
    if t.n in ('multimap', 'map'):
        if name in ('begin', 'cbegin'): return PtrVal(b, z3.IntVal(0))
        if name in ('end', 'cend'): return PtrVal(b, l)
        if name == 'clear': b.set('#len', z3.IntVal(0)); return VOIDV
        if t.n == 'map': raise Unsupported(f'map member {name}')
        if name in ('insert', 'emplace'):
            if name == 'insert' and len(argn) == 1: x = run.rv(argn[0]); v = {p: x.get(p) for p, s in run.eng.shape(et)}
            elif name == 'emplace' and len(argn) == 2: v = {'.first': run.rv(argn[0]), '.second': run.rv(argn[1])}
            else: raise Unsupported('multimap::insert overload')
            p = run.fresh('mpos', I); run.assume(z3.And(p >= 0, p <= l))
            return seq_insert(run, b, et, p, v)
        if name == 'erase':
            pos = run.rv(argn[0])
            if len(argn) != 1 or not isinstance(pos, PtrVal): raise Unsupported('multimap::erase overload')
            run.check('erased position lies in this container', z3.BoolVal(lv_same(pos.lv, b)), 'memory')
            run.check('erased position in range', mkand(pos.idx >= 0, pos.idx < l), 'memory')
            return seq_erase(run, b, et, pos.idx)
        if name in ('equal_range', 'lower_bound', 'upper_bound', 'find'):
            run.rv(argn[0])
            lo = run.fresh('mlo', I); hi = run.fresh('mhi', I); run.assume(z3.And(0 <= lo, lo <= hi, hi <= l))
            if name != 'equal_range': return PtrVal(b, lo)
            r = run.tmp(run.T(n))
            for nm, x in (('first', lo), ('second', hi)):
                ft = run.eng.fieldty(r.ty, nm); run.store(Field(r, nm, ft), PtrVal(b, x), ft)
            return r
    raise Unsupported(f'{t.n} member {name}')


def seq_assign(run, b, an, t):
    v = run.ev(an)
    if not isinstance(v, LV): raise Unsupported('sequence assignment')
    run.copy(b, v, t)
    k = strip_mat(an)
    if isvec(t) and an.get('valueCategory') == 'xvalue' and not lv_same(uncast(v), uncast(b)):
        v.set('#len', z3.IntVal(0))
    return b


def strip_mat(n): return n


def swap(run, a, b, t):
    va = [(p, a.get(p)) for p, s in run.eng.shape(t)]
    vb = [(p, b.get(p)) for p, s in run.eng.shape(t)]
    for p, v in vb: a.set(p, v)
    for p, v in va: b.set(p, v)
    return VOIDV


def operator(run, n, name, argn):
    t0 = run.T(argn[0]); t0 = t0.a if t0.k == 'ref' else t0
    t1 = None
    if len(argn) > 1:
        t1 = run.T(argn[1]); t1 = t1.a if t1.k == 'ref' else t1
    if t0.k == 'rec' and t0.n == 'complex' or (t1 is not None and t1.k == 'rec' and t1.n == 'complex'):
        run.ver.trusted.add('complex')
        return cpx_operator(run, n, name, argn, t0, t1)
    x = run.ev(argn[0])
    if t0.k == 'rec' and t0.n in ('istream', 'ostream') and len(argn) == 2:
        run.ver.trusted.add('text')
        if name == 'operator>>' and t0.n == 'istream': return text.extract(run, x, argn[1])
        if name == 'operator<<' and t0.n == 'ostream': return text.insert(run, x, argn[1])
        raise Unsupported(f'stream {name}')
    if isinstance(x, (Closure,)) and name == 'operator()':
        raise Unsupported('closure call')
    if isinstance(x, Root) and isinstance(x.leaves.get(''), Closure) and name == 'operator()':
        c = x.leaves['']
        return run.call_closure(c, [run.ev(a) for a in argn[1:]])
    if t0.k == 'rec' and t0.n in ('vector', 'array', 'initializer_list', 'basic_string'):
        run.ver.trusted.add('vector')
        if name == 'operator[]': return run.elem(x, run.rv(argn[1]))
        if name == 'operator=':
            return seq_assign(run, x, argn[1], t0)
        raise Unsupported(f'sequence {name}')
    # iterators
    isit = t0.k == 'ptr' or (t0.k == 'rec' and t0.n in ITERS)
    if isit:
        run.ver.trusted.add('vector')
        lv = x if isinstance(x, LV) else None
        v = run.load(x, t0) if lv is not None else x
        if name == 'operator*': return run.deref(v)
        if name == 'operator->': return PtrVal(v.lv, v.idx)
        if name in ('operator++', 'operator--'):
            nv = run.ptr_arith(name[-1], v, z3.IntVal(1))
            run.store(lv, nv, t0)
            return lv if len(argn) == 1 else v
        if name == 'operator=':
            run.store(lv, run.rv(argn[1]), t0); return lv
        y = run.rv(argn[1])
        if name in ('operator+=', 'operator-='):
            run.store(lv, run.ptr_arith(name[-2], v, y), t0); return lv
        if name == 'operator[]': return run.deref(PtrVal(v.lv, mkadd(v.idx, y)))
        op = name[len('operator'):]
        return run.ptr_arith(op, v, y)
    raise Unsupported(f'std operator {name} on {t0!r}')


def cpx_operator(run, n, name, argn, t0, t1):
    op = name[len('operator'):]
    nla = run.opts.get('nla')
    if op in ('=', '+=', '-=', '*=', '/='):
        y = run.rv(argn[1])
        lv = run.ev(argn[0])
        if op == '=': v = y
        else: v = run.arith(op[0], run.load(lv, t0), y, t0, t1, t0)
        run.store(lv, v, t0)
        return lv
    x = run.rv(argn[0])
    if len(argn) == 1:
        if op == '-': return mkneg(tocpx(x))
        if op == '+': return tocpx(x)
    y = run.rv(argn[1])
    if op in ('==', '!=', '+', '-', '*', '/'):
        return run.arith(op, tocpx(x), tocpx(y), t0, t1, Ty('rec', ['double'], 'complex', 'complex<double>'))
    raise Unsupported(f'complex {name}')


def mksqrt(run, x):
    x = toreal(iv(x))
    if isnum(x):
        from fractions import Fraction
        f = num(x); import math
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator: return z3.RealVal(Fraction(a, b))
    r = fsqrt(x)
    sq = r * r if run.opts.get('nla') else mkrmul(r, r)
    run.assume(z3.Implies(x >= 0, z3.And(r >= 0, sq == x)))
    run.assume(z3.Implies(x > 0, r > 0))
    return r


def mkabs(run, v):
    if isinstance(v, Cpx):
        nla = run.opts.get('nla')
        if isnum(v.im) and num(v.im) == 0: return mkabs(run, v.re)
        s = mkadd(mkrmul(v.re, v.re, not nla), mkrmul(v.im, v.im, not nla))
        if not nla:
            run.assume([mkrmul(v.re, v.re) >= 0, mkrmul(v.im, v.im) >= 0,
                        z3.Implies(v.re != 0, mkrmul(v.re, v.re) > 0), z3.Implies(v.im != 0, mkrmul(v.im, v.im) > 0)])
        return mksqrt(run, s)
    v = iv(v)
    if isnum(v): return z3.IntVal(abs(num(v))) if z3.is_int(v) else z3.RealVal(abs(num(v)))
    return z3.If(v >= 0, v, -v)


NUMLIM = {'min': '2.2250738585072014e-308', 'max': '1.7976931348623157e+308', 'lowest': '-1.7976931348623157e+308', 'epsilon': '2.220446049250313080847263336181640625e-16'}


def frac(s):
    from fractions import Fraction
    return z3.RealVal(Fraction(s))


def call(run, n, name, argn, c):
    run.ver.trusted.add('algorithm' if name in ('swap', 'fill', 'transform', 'max_element', 'move', 'forward') else 'cmath')
    if name in ('move', 'forward'):
        return run.ev(argn[0])
    if name == 'getline' and len(argn) == 2:
        run.ver.trusted.add('text')
        return text.getline(run, run.ev(argn[0]), argn[1])
    if name == 'isspace' and len(argn) == 1:
        run.ver.trusted.add('text')
        return z3.If(text.ISSP(iv(run.rv(argn[0]))), z3.IntVal(1), z3.IntVal(0))
    if name == 'abort':
        run.check('abort() (failed NS_ASSERT) is unreachable', False, 'abort')
        raise Infeasible()
    if name == 'swap':
        a, b = run.ev(argn[0]), run.ev(argn[1])
        t = a.ty
        if run.eng.isscalar(t):
            va, vb = run.load(a, t), run.load(b, t)
            run.store(a, vb, t); run.store(b, va, t); return VOIDV
        return swap(run, a, b, t)
    if name in ('min', 'max', 'lowest', 'epsilon', 'quiet_NaN', 'infinity') and not argn:
        t = run.T(n)
        if t.k == 'int':
            if name == 'max': return z3.IntVal(2 ** (t.a - (1 if t.n else 0)) - 1)
            if name in ('min', 'lowest'): return z3.IntVal(-2 ** (t.a - 1) if t.n else 0)
        if name in NUMLIM: return frac(NUMLIM[name])
        raise Unsupported(f'numeric_limits::{name}')
    if name in ('max', 'min') and len(argn) == 2:
        a, b = run.rv(argn[0]), run.rv(argn[1])
        return mkite(mkcmp('<', a, b), b, a) if name == 'max' else mkite(mkcmp('<', b, a), b, a)
    if name in ('abs', 'fabs'):
        return mkabs(run, run.rv(argn[0]))
    if name == 'sqrt':
        v = run.rv(argn[0])
        if isinstance(v, Cpx): raise Unsupported('complex sqrt')
        return mksqrt(run, v)
    if name in ('real', 'imag') and len(argn) == 1:
        v = tocpx(run.rv(argn[0])); return v.re if name == 'real' else v.im
    if name == 'conj':
        v = tocpx(run.rv(argn[0])); return Cpx(v.re, mkneg(v.im))
    if name == 'norm':
        v = tocpx(run.rv(argn[0])); nla = run.opts.get('nla')
        return mkadd(mkrmul(v.re, v.re, not nla), mkrmul(v.im, v.im, not nla))
    if name in ('isnan', 'isinf', 'isfinite'):
        v = run.rv(argn[0])
        if isinstance(v, Cpx): raise Unsupported('isnan of complex')
        v = toreal(iv(v))
        if run.opts.get('real_only'): return z3.BoolVal(name == 'isfinite')
        if name == 'isfinite': return mkand(mknot(isnan(v)), mknot(isinf(v)))
        return isnan(v) if name == 'isnan' else isinf(v)
    if name == 'pow':
        x, y = toreal(iv(run.rv(argn[0]))), toreal(iv(run.rv(argn[1])))
        if isnum(y) and num(y).denominator == 1 and 0 <= num(y) <= 4:
            r = z3.RealVal(1)
            for _ in range(int(num(y))): r = mkrmul(r, x, not run.opts.get('nla'))
            return r
        return fpow(x, y)
    if name in ('ceil', 'floor'):
        x = toreal(iv(run.rv(argn[0])))
        if isnum(x):
            import math
            return z3.RealVal((math.ceil if name == 'ceil' else math.floor)(num(x)))
        return toreal(z3.ToInt(x)) if name == 'floor' else mkneg(toreal(z3.ToInt(-x)))
    if name == 'fill' and len(argn) == 3:
        a, b = run.rv(argn[0]), run.rv(argn[1])
        et = run.eng.elemty(a.lv.ty)
        v = run.frozen_elem(run.rv(argn[2]), et)
        run.check('fill range valid', mkand(a.idx >= 0, a.idx <= b.idx, b.idx <= run.seqlen(a.lv)), 'memory')
        for p, s in run.eng.shape(et):
            if isnum(a.idx) and num(a.idx) == 0 and same(b.idx, run.seqlen(a.lv)):
                a.lv.set('[]' + p, z3.K(I, v[p])); continue
            old = a.lv.get('[]' + p); new = run.fresh('fill', old.sort())
            run.assume(FA(1, lambda k: sel(new, k) == z3.If(z3.And(k >= a.idx, k < b.idx), v[p], sel(old, k)), lambda k: [z3.Select(new, k)]))
            a.lv.set('[]' + p, new)
        return VOIDV
    if name == 'transform' and len(argn) == 4:
        a, b, o = run.rv(argn[0]), run.rv(argn[1]), run.rv(argn[2])
        f = run.rv(argn[3])
        if isinstance(f, Root): f = f.leaves['']
        et = run.eng.elemty(o.lv.ty); ea = run.eng.elemty(a.lv.ty)
        run.check('transform range valid', mkand(a.idx >= 0, a.idx <= b.idx, b.idx <= run.seqlen(a.lv), o.idx >= 0, mkadd(o.idx, mksub(b.idx, a.idx)) <= run.seqlen(o.lv)), 'memory')
        if not (lv_same(a.lv, o.lv) and same(a.idx, o.idx)) and uncast(a.lv).root() is uncast(o.lv).root():
            raise Unsupported('overlapping transform')
        k = run.fresh('tk', I)
        n0 = len(run.facts); tr = run.trace
        r = Root(run, 'tv', ea); r.quiet = True; r.serial = 10 ** 9
        for p, s in run.eng.shape(ea): r.leaves[p] = sel(a.lv.get('[]' + p), mkadd(k, a.idx))
        v = run.call_closure(f, [r])
        if run.trace != tr: raise Unsupported('branching functor')
        if isinstance(v, LV) and run.eng.isscalar(et): v = run.load(v, et)
        fv = run.frozen_elem(v, et)
        cnt = mksub(b.idx, a.idx)
        for p, s in run.eng.shape(et):
            old = o.lv.get('[]' + p); new = run.fresh('tr', old.sort())
            run.assume(FA(1, lambda q: sel(new, q) == z3.If(z3.And(q >= o.idx, q < o.idx + cnt), z3.substitute(fv[p], (k, q - o.idx)), sel(old, q)), lambda q: [z3.Select(new, q)]))
            o.lv.set('[]' + p, new)
        return PtrVal(o.lv, mkadd(o.idx, cnt))
    if name == 'max_element' and len(argn) in (2, 3):
        a, b = run.rv(argn[0]), run.rv(argn[1])
        f = run.rv(argn[2]) if len(argn) == 3 else None
        if isinstance(f, Root): f = f.leaves['']
        et = run.eng.elemty(a.lv.ty)
        r = run.fresh('maxel', I)
        nonempty = a.idx < b.idx
        run.assume(z3.If(nonempty, z3.And(r >= a.idx, r < b.idx), r == b.idx))
        k = run.fresh('mk', I); tr = run.trace
        if f is not None:
            lt = run.call_closure(f, [Elem(a.lv, r, et), Elem(a.lv, k, et)])
            if run.trace != tr: raise Unsupported('branching functor')
        else: lt = mkcmp('<', run.load(Elem(a.lv, r, et)), run.load(Elem(a.lv, k, et)))
        run.assume(FA(1, lambda q: z3.Implies(z3.And(q >= a.idx, q < b.idx), z3.Not(z3.substitute(lt, (k, q)))), None))
        return PtrVal(a.lv, r)
    if name == 'operator()' : pass
    raise Unsupported(f'call of external function {name}')
