"""std::string, input streams over a text, and output streams as an append-only log.

Input: reading a number from a text is an uninterpreted function of the characters between the read position and the end
of the text (OK: a number starts there, VAL: its value, END: the position after it); getline is an uninterpreted split of
the text into lines.  Output: see below."""
import re
import z3
from .core import *
from .ast import Ty, INT
from .interp import Elem, Field, uncast, lv_same, VOIDV

AI = z3.ArraySort(I, I)
OKF, VALF, ENDF = {}, {}, {}
ISSP = z3.Function('isspace', I, B)
NLINES = z3.Function('lines', AI, I, I)
LINE = z3.Function('line', AI, I, I, AI)
LLEN = z3.Function('linelen', AI, I, I, I)
STRID = z3.Function('strval', AI, I, I)
LITS = {}
NOSTR = STRID(z3.K(I, z3.IntVal(0)), z3.IntVal(0))


def strval(a, n):
    """the value of the string a[0, n)"""
    return z3.If(n == 0, NOSTR, STRID(a, n)) if not (isnum(n) and num(n) == 0) else NOSTR


def numkind(t):
    return 'r' if t.k == 'real' else f'{"i" if t.n else "u"}{t.a}'


def numf(k):
    if k not in OKF:
        OKF[k] = z3.Function(f'num_ok_{k}', AI, I, I, B)
        VALF[k] = z3.Function(f'num_val_{k}', AI, I, I, R if k == 'r' else I)
        ENDF[k] = z3.Function(f'num_end_{k}', AI, I, I, I)
    return OKF[k], VALF[k], ENDF[k]


def lit(s):
    return z3.IntVal(LITS.setdefault(s, len(LITS) + 1))


def view(run, arr):
    """the string this character array is a window of, and the offset"""
    return run.__dict__.setdefault('views', {}).get(arr.get_id(), (arr, z3.IntVal(0)))


def substring(run, lv, src, a, b):
    """string value src[a, b)"""
    arr = src.get('[]')
    run.check('iterator range valid', mkand(a >= 0, a <= b, b <= run.seqlen(src)), 'memory')
    if isnum(a) and num(a) == 0: new = arr
    else:
        new = run.fresh('substr', AI)
        run.assume(FA(1, lambda k: sel(new, k) == sel(arr, k + a), lambda k: [z3.Select(new, k)]))
        A, s = view(run, arr)
        run.views[new.get_id()] = (A, mkadd(s, a)); run.keep.append(new)
    lv.set('#len', mksub(b, a)); lv.set('[]', new)


def literal_string(run, lv, s):
    arr = z3.K(I, z3.IntVal(0))
    for i, ch in enumerate(s): arr = z3.Store(arr, i, ord(ch) if ord(ch) < 128 else ord(ch) - 256)
    lv.set('#len', z3.IntVal(len(s))); lv.set('[]', arr)


def unquote(s):
    import ast
    try: return ast.literal_eval(s)
    except Exception: raise Unsupported('string literal')


def construct(run, lv, ty, args):
    run.ver.trusted.add('text')
    args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    if ty.n == 'basic_string':
        if not args: lv.set('#len', z3.IntVal(0)); return
        t0 = run.T(args[0]); t0 = t0.a if t0.k == 'ref' else t0
        v = run.rv(args[0])
        if isinstance(v, tuple) and v[0] == 'str' and len(args) == 1: return literal_string(run, lv, unquote(v[1]))
        if t0.k == 'rec' and t0.n == 'basic_string' and len(args) == 1: return run.copy(lv, v, ty)
        if len(args) == 2 and isinstance(v, PtrVal):
            b = run.rv(args[1])
            if not (isinstance(b, PtrVal) and lv_same(v.lv, b.lv)): raise Unsupported('string from a range of two objects')
            return substring(run, lv, v.lv, v.idx, b.idx)
        raise Unsupported('string constructor')
    if ty.n == 'istream':
        lv.set('.pos', z3.IntVal(0)); lv.set('.fail', z3.BoolVal(False)); lv.set('.eof', z3.BoolVal(False))
        if not args: lv.set('#len', z3.IntVal(0)); return
        t0 = run.T(args[0]); t0 = t0.a if t0.k == 'ref' else t0
        if t0.n != 'basic_string': raise Unsupported('stream constructor')
        v = run.rv(args[0])
        lv.set('#len', run.seqlen(v)); lv.set('[]', v.get('[]')); return
    if ty.n == 'ostream':
        if len(args) > 1: raise Unsupported('stream constructor')
        pth = z3.IntVal(-1)
        for a in args:
            v = run.rv(a)
            if isinstance(v, PtrVal): v = v.lv
            if isinstance(v, LV) and v.ty.n == 'basic_string': pth = strval(v.get('[]'), run.seqlen(v))
        lv.set('.t', EMPTY); lv.set('.ws', z3.BoolVal(False)); lv.set('.path', pth); return
    raise Unsupported(f'construction of {ty!r}')


def member(run, n, name, b, argn, t):
    run.ver.trusted.add('text')
    if t.n == 'istream':
        f = b.get('.fail')
        if name == 'fail' or name == 'bad' or name == 'operator!': return f
        if name == 'operator bool': return mknot(f)
        if name == 'eof': return b.get('.eof')
        if name == 'good': return mkand(mknot(f), mknot(b.get('.eof')))
        if name == 'tellg': return z3.If(f, z3.IntVal(-1), z3.If(b.get('.eof'), z3.IntVal(-1), b.get('.pos')))
        if name in ('operator>>',): return extract(run, b, argn[0])
        if name == 'close': return VOIDV
    if t.n == 'ostream':
        if name in ('close', 'flush'): return VOIDV
        if name == 'operator bool' or name == 'is_open' or name == 'good': return run.fresh('streamok', B)
        if name == 'fail' or name == 'operator!': return run.fresh('streambad', B)
        if name == 'operator<<': return insert(run, b, argn[0])
    raise Unsupported(f'{t.n} member {name}')


def extract(run, b, target):
    """stream >> number"""
    lv = run.ev(target); tt = lv.ty
    if tt.k not in ('int', 'real') or tt.k == 'int' and tt.a == 8: raise Unsupported(f'reading {tt!r} from a stream')
    k = numkind(tt); ok_, val_, end_ = numf(k)
    A, s = view(run, b.get('[]'))
    p, e = mkadd(s, b.get('.pos')), mkadd(s, run.seqlen(b))
    ok = mkand(mknot(b.get('.fail')), ok_(A, p, e)); end = end_(A, p, e); val = val_(A, p, e)
    run.assume(z3.Implies(ok_(A, p, e), z3.And(end > p, end <= e)))
    if tt.k == 'int': run.assume(z3.Implies(ok_(A, p, e), z3.And(val >= -(1 << tt.a - 1), val < 1 << tt.a - 1) if tt.n else z3.And(val >= 0, val < 1 << tt.a)))
    run.store(lv, z3.If(ok, val, run.fresh('unread', val.sort())), tt)
    b.set('.eof', z3.If(ok, end == e, run.fresh('eof', B)))
    b.set('.pos', z3.If(ok, mksub(end, s), run.fresh('badpos', I)))
    b.set('.fail', mknot(ok))
    return b


def getline(run, b, target):
    lv = run.ev(target)
    A, n = b.get('[]'), run.seqlen(b); k = b.get('.pos')
    ok = mkand(mknot(b.get('.fail')), k < NLINES(A, n))
    l, m = LINE(A, n, k), LLEN(A, n, k)
    run.assume(m >= 0)
    run.assume(NLINES(A, n) >= 0)
    if run.branch(ok):
        lv.set('[]', l); lv.set('#len', m); b.set('.pos', k + 1)
        b.set('.eof', run.fresh('eof', B))
    else:
        lv.set('#len', z3.IntVal(0)); b.set('.fail', z3.BoolVal(True)); b.set('.eof', z3.BoolVal(True))
    return b


# ---- output
# The text written so far is a term: the empty text, or a shorter text with one more piece (word, integer, real or string value) after it; ws says
# whether white space separates the piece from what precedes it. Words are split at white space and at digits, so the term does not depend
# on how the program splits its literals.
EMPTY = z3.IntVal(0)
PIECE = {'w': z3.Function('then_word', I, B, I, I), 'n': z3.Function('then_int', I, B, I, I),
         'r': z3.Function('then_real', I, B, R, I), 's': z3.Function('then_string', I, B, I, I)}


class Out:
    """the text t followed by what is put into this"""
    def __init__(self, t, ws): self.t, self.ws = t, tobool(ws)

    def put(self, k, v):
        self.t = PIECE[k](self.t, self.ws, v); self.ws = z3.BoolVal(False); return self

    def lit(self, s):
        for m in re.finditer(r'\s+|[1-9][0-9]*(?![0-9])|0(?![0-9])|(?:[^\s0-9]|0(?=[0-9]))+', s):
            x = m.group()
            if x.isspace(): self.ws = z3.BoolVal(True)
            elif x.isdigit(): self.put('n', z3.IntVal(int(x)))
            else: self.put('w', lit(x))
        return self

    def int(self, v):
        return self.put('n', iv(v))

    def real(self, v):
        v = toreal(iv(v)); w = z3.simplify(v)
        if z3.is_rational_value(w) and w.denominator_as_long() == 1 and 0 <= w.numerator_as_long() < 100000: return self.put('n', z3.IntVal(w.numerator_as_long()))
        return self.put('r', v)

    def str(self, lv, run):
        return self.put('s', strval(lv.get('[]'), run.seqlen(lv)))


def pend(run):
    return run.__dict__.setdefault('outpend', {})


def flush(run):
    d = pend(run)
    for k in list(d):
        b, s = d.pop(k)
        if s: write(run, b, lambda o: o.lit(s))


def write(run, b, f):
    o = Out(b.get('.t'), b.get('.ws')); f(o)
    b.set('.t', o.t); b.set('.ws', o.ws)


def text(run, b, s):
    d = pend(run); u = uncast(b); k = u.name if hasattr(u, 'name') else id(u)
    if k in d: d[k] = (d[k][0], d[k][1] + s)
    else: d[k] = (b, s)


def insert(run, b, arg):
    """stream << value"""
    a = arg
    while a['kind'] in ('ImplicitCastExpr', 'ParenExpr') and a.get('inner'): a = [x for x in a['inner'] if isinstance(x, dict)][-1]
    if a['kind'] == 'DeclRefExpr' and a.get('referencedDecl', {}).get('name') in ('endl', 'flush', 'ends'):
        if a['referencedDecl']['name'] == 'endl': text(run, b, '\n')
        elif a['referencedDecl']['name'] == 'ends': raise Unsupported('std::ends')
        return b
    if a['kind'] == 'StringLiteral': text(run, b, unquote(a['value'])); return b
    t = run.T(arg); t = t.a if t.k == 'ref' else t
    v = run.rv(arg)
    if isinstance(v, tuple) and v[0] == 'str': text(run, b, unquote(v[1])); return b
    if t.k == 'rec' and t.n == 'basic_string':
        flush(run); write(run, b, lambda o: o.str(v, run)); return b
    if isinstance(v, LV): v = run.load(v, t)
    if t.k == 'int':
        v = iv(v)
        if z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if t.a == 8:
            if isnum(v): text(run, b, chr(int(num(v)))); return b
            raise Unsupported('writing a character')
        if isnum(v) and num(v) < 0: text(run, b, str(int(num(v)))); return b
        flush(run); write(run, b, lambda o: o.int(v)); return b
    if t.k == 'bool':
        flush(run); write(run, b, lambda o: o.int(z3.If(v, z3.IntVal(1), z3.IntVal(0)))); return b
    if t.k == 'real':
        flush(run); write(run, b, lambda o: o.real(v)); return b
    raise Unsupported(f'writing {t!r} to a stream')
