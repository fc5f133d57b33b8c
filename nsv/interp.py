"""Symbolic interpreter over the clang AST: generates verification conditions."""
import z3, re
from .core import *
from .ast import Unit, Cls, Ty, body, has_body, FUNCS, norm, VOID, BOOL, REAL, SIZE, INT

STD = {'vector', 'array', 'initializer_list', 'complex', '__normal_iterator', 'numeric_limits', 'list', 'set', 'map', 'pair',
       'basic_string', 'multimap', 'queue', 'deque', 'unordered_map', 'string', '_Rb_tree_iterator', '_Rb_tree_const_iterator'}
ITERS = ('__normal_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator')
SEQS = ('vector', 'initializer_list', 'heap', 'queue', 'multimap', 'map', 'basic_string', 'istream')
EXTERN = {'tinyobj::shape_t': [('mesh', 'tinyobj::mesh_t')], 'tinyobj::mesh_t': [('positions', 'std::vector<float>'), ('indices', 'std::vector<unsigned int>')]}   # external library
TWO64 = 2 ** 64
SKIP = ('FullComment',)


def kids(n):
    return [c for c in n.get('inner', ()) if c.get('kind') and not c['kind'].endswith('Comment') and c['kind'] not in SKIP]


def isheap(lv):
    return isinstance(lv, Elem) and isinstance(lv.base, Root) and lv.base.name.startswith('heap:')


class Frame:
    def __init__(self, key, decl, this):
        self.key = key; self.decl = decl; self.this = this
        self.vars = {}; self.names = {}; self.order = []

    def bind(self, node, lv):
        self.vars[node['id']] = lv
        nm = node.get('name')
        if nm:
            self.names[nm] = lv


class Eng:
    """static program information shared by all runs: unit, contracts, shapes"""

    def __init__(self, unit, contracts):
        self.unit = unit; self.contracts = contracts
        self._shape = {}
        self._leaf = {}
        self.heap_classes = set()
        self.fbysig = {}
        for f in unit.funcs:
            self.fbysig.setdefault(unit.sig(f), f)
        for c in unit.classes.values():
            for m in c.methods:
                self.fbysig.setdefault(unit.sig(m), m)

    # -- types
    def cls(self, ty):
        c = self.unit.classes.get(ty.name)
        if c is None and ty.name in EXTERN:
            c = self.unit.classes[ty.name] = Cls(ty.name)
            c.fields = [(a, self.unit.types.parse(b)) for a, b in EXTERN[ty.name]]
        return c

    def all_fields(self, c):
        out = []
        for b in c.bases:
            bc = self.cls(b)
            if bc is not None: out += self.all_fields(bc)
        return out + c.fields

    def shape(self, ty):
        k = repr(ty)
        r = self._shape.get(k)
        if r is None:
            r = self._shape[k] = self._mkshape(ty)
        return r

    def _mkshape(self, ty):
        if ty.k == 'int': return [('', I)]
        if ty.k == 'real': return [('', R)]
        if ty.k == 'bool': return [('', B)]
        if ty.k in ('ptr', 'null', 'ref'): return [('', 'ptr')]
        if ty.k == 'arr':
            return [('[]' + p, self._arrs(s)) for p, s in self.shape(ty.a)]
        if ty.k == 'rec':
            base = ty.a and ty.n
            if ty.n == 'complex': return [('.re', R), ('.im', R)]
            if ty.n == 'istream': return [('#len', I), ('[]', z3.ArraySort(I, I)), ('.pos', I), ('.fail', B), ('.eof', B)]
            if ty.n == 'ostream': return [('.t', I), ('.ws', B), ('.path', I)]
            if ty.n in SEQS:
                e = self.elemty(ty)
                return [('#len', I)] + [('[]' + p, self._arrs(s)) for p, s in self.shape(e)]
            if ty.n == 'array':
                e = self.elemty(ty)
                return [('[]' + p, self._arrs(s)) for p, s in self.shape(e)]
            if ty.n == 'pair':
                a, b = [self.unit.types.parse(x) for x in ty.a]
                return [('.first' + p, s) for p, s in self.shape(a)] + [('.second' + p, s) for p, s in self.shape(b)]
            if ty.n in ITERS: return [('', 'ptr')]
            c = self.cls(ty)
            if c is not None:
                out = []
                for fn, ft in self.all_fields(c):
                    try:
                        out += [('.' + fn + p, s) for p, s in self.shape(ft)]
                    except Unsupported:
                        pass
                return out
        raise Unsupported(f'type {ty!r}')

    def _arrs(self, s):
        return z3.ArraySort(I, I if isinstance(s, str) else s)

    def elemty(self, ty):
        if ty.k in ('arr', 'ptr'): return ty.a
        if ty.k == 'rec' and ty.n == 'queue': return self.unit.types.parse(ty.a[0])
        if ty.k == 'rec' and ty.n in ('multimap', 'map'): return self.unit.types.parse(f'std::pair<const {ty.a[0]}, {ty.a[1]}>')
        if ty.k == 'rec' and ty.n in ('vector', 'initializer_list', 'array', 'heap', 'list', 'set', 'basic_string'):
            return self.unit.types.parse(ty.a[0])
        raise Unsupported(f'element type of {ty!r}')

    def fixedlen(self, ty):
        if ty.k == 'arr': return ty.n
        if ty.k == 'rec' and ty.n == 'array': return int(ty.a[1])
        return None

    def leafsort(self, ty, p):
        k = (repr(ty), p)
        if k not in self._leaf:
            self._leaf[k] = dict(self.shape(ty)).get(p)
        return self._leaf[k]

    def fieldty(self, ty, name):
        if ty.k == 'rec' and ty.n == 'complex': return REAL
        if ty.k == 'rec' and ty.n == 'pair': return self.unit.types.parse(ty.a[0 if name == 'first' else 1])
        c = self.cls(ty)
        if c is None: raise Unsupported(f'class {ty!r}')
        for fn, ft in self.all_fields(c):
            if fn == name: return ft
        raise Unsupported(f'field {ty!r}.{name}')

    def isscalar(self, ty):
        return ty.k in ('int', 'real', 'bool', 'ptr', 'null') or (ty.k == 'rec' and ty.n in ('complex',) + ITERS)

    # -- static loop enumeration (inlined helpers expanded)
    def static_loops(self, decl):
        out = []
        self._sl(decl, (), out, 0)
        return out

    def static_loops_named(self, decl):
        """as static_loops, with the signature of the inlined function that holds the loop"""
        out = []
        own = {}
        self._sl(decl, (), out, 0, own)
        return [(p, own.get(p, ''), n) for p, i, n in out]

    def _sl(self, decl, path, out, depth, own=None):
        d = self.unit.definition(decl)
        if d is None or depth > 12: return

        def walk(n):
            k = n.get('kind')
            if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                if not (k == 'DoStmt' and is_zero(kids(n)[-1])):
                    out.append((path, n['id'], n))
            if k == 'LambdaExpr': return
            for c in n.get('inner', ()):
                walk(c)
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                cd = self.callee(n)
                if cd is not None:
                    dd = self.unit.definition(cd)
                    if dd is not None and (self.unit.sig(dd) not in self.contracts or self.contracts[self.unit.sig(dd)].inl) and not self.trivial(dd):
                        if own is not None: own[path + (n['id'],)] = self.unit.sig(dd)
                        self._sl(dd, path + (n['id'],), out, depth + 1, own)

        for c in d.get('inner', ()):
            if c.get('kind') in ('CompoundStmt', 'CXXCtorInitializer'):
                walk(c)

    def trivial(self, d):
        return bool(d.get('isImplicit') or d.get('explicitlyDefaulted'))

    def callee(self, n):
        """declaration called by a call expression, if it is one of ours"""
        k = n['kind']
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.ctor_of(n)
        ks = kids(n)
        if not ks: return None
        c = strip(ks[0])
        if c['kind'] == 'MemberExpr':
            return self.unit.byid.get(c.get('referencedMemberDecl'))
        if c['kind'] == 'DeclRefExpr':
            d = self.unit.byid.get(c['referencedDecl'].get('id'))
            if d is not None and d.get('kind') in FUNCS: return d
        return None

    def ctor_of(self, n):
        ty = self.unit.types.of(n)
        c = self.cls(ty)
        if c is None: return None
        ct = norm((n.get('ctorType') or {}).get('qualType', ''))
        cands = [m for m in c.methods if m.get('kind') == 'CXXConstructorDecl']
        for m in cands:
            if norm(m['type']['qualType']) == ct: return m
        na = len([x for x in kids(n)])

        def key(s):
            i = s.find('(')
            return repr([repr(self.unit.types.parse(x)) for x in split_top(s[i + 1:s.rfind(')')])])
        try:
            kk = key(ct)
            for m in cands:
                if key(norm(m['type']['qualType'])) == kk: return m
        except Exception:
            pass
        c2 = [m for m in cands if len(self.unit.params(m)) == na]
        if len(c2) == 1: return c2[0]
        return None


def split_top(s):
    from .ast import split_args
    return split_args(s)


def strip(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ConstantExpr',
                        'SubstNonTypeTemplateParmExpr'):
        ks = kids(n)
        if not ks: return n
        n = ks[-1]
    return n


def is_zero(n):
    n = strip(n)
    return (n['kind'] == 'IntegerLiteral' and n.get('value') == '0') or (n['kind'] == 'CXXBoolLiteralExpr' and not n.get('value'))


class Obl:
    __slots__ = ('func', 'name', 'line', 'facts', 'goal', 'kind', 'seq')

    def __init__(self, func, name, line, facts, goal, kind):
        self.func, self.name, self.line, self.facts, self.goal, self.kind = func, name, line, facts, goal, kind


class Run:
    """one symbolic path through one function"""

    def __init__(self, ver, prefix):
        self.ver = ver; self.eng = ver.eng; self.unit = ver.eng.unit
        self.prefix = list(prefix); self.pos = 0
        self.trace = ()
        self.facts = []
        self.seq = 0
        self.nfresh = 0
        self.frames = []
        self.logs = []
        self.roots = {}
        self.heaps = {}
        self.loopstk = []
        self.serial = 0
        self.cur = None
        self.ghosts = {}
        self.exw = []
        self.seen = set()
        self.globals = {}
        self.opts = ver.opts
        self.qs = z3.SolverFor('QF_AUFLIRA') if False else z3.Solver()
        self.qs.set('rlimit', 60000)
        self.qs.set('random_seed', 0)
        self.pending = []
        self.catch_depth = 0
        self.keep = []
        self.depth = 0
        self.entry = None

    # -------------------------------------------------------- path machinery
    def fresh(self, name, sort):
        self.nfresh += 1
        return z3.Const(f'{name}~{self.nfresh}', sort)

    def nm(self, t):
        """a constant equal to the (array) term t, usable inside quantifier patterns"""
        if z3.is_const(t): return t
        k = ('nm', t.get_id())
        c = self.ghosts.get(k)
        if c is None:
            c = self.ghosts[k] = self.fresh('nm', t.sort())
            self.keep.append(t)
            self.assume(c == t)
        return c

    def fresh_fn(self, name, *sorts):
        self.nfresh += 1
        return z3.Function(f'{name}~{self.nfresh}', *sorts)

    def assume(self, f):
        if isinstance(f, (list, tuple)):
            for x in f: self.assume(x)
            return
        if f is None: return
        if isinstance(f, DEF): return self.assume(f.items)
        if isinstance(f, EX):
            return self.assume(f.body(*self.exwit(f.n)))
        if isinstance(f, FA):
            self.nfresh += 1
            f = f.fact(f'{self.nfresh}')
        elif isinstance(f, IMP):
            if z3.is_expr(f.g) and z3.is_true(f.g): return self.assume(f.items)
            if any(isinstance(x, EX) for x in f.items):
                out = []
                for x in f.items:
                    if isinstance(x, EX):
                        x = x.body(*self.exwit(x.n))
                    out.append(x)
                f = IMP(f.g, out)
            self.nfresh += 1
            f = tobool(f, f'{self.nfresh}')
        if isinstance(f, bool): f = z3.BoolVal(f)
        if z3.is_true(f): return
        i = f.get_id()
        if i in self.seen: return
        self.seen.add(i)
        self.facts.append(f)
        if not has_quant(f):
            self.pending.append(f)

    def exwit(self, n):
        w = tuple(self.fresh('w', I) for _ in range(n))
        self.exw.append(w)
        return w

    def _flush(self):
        for f in self.pending: self.qs.add(f)
        self.pending = []

    def quick(self, f):
        """cheaply known to hold on this path?"""
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        key = (self.trace, self.seq, len(self.facts), f.get_id())
        c = self.ver.qcache
        r = c.get(key)
        if r is None:
            self._flush()
            r = self.qs.check(z3.Not(f)) == z3.unsat
            c[key] = r
            self.ver.keep.append(f)
        return r

    def branch(self, c):
        if isinstance(c, bool): return c
        c = tobool(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            self._flush()
            t = self.qs.check(c) != z3.unsat
            e = self.qs.check(z3.Not(c)) != z3.unsat
            if not t and not e:
                raise Infeasible()
            if t and e:
                self.ver.push(self.prefix + [False])
                d = True
            else:
                d = t
            self.prefix.append(d)
        self.pos += 1
        self.trace = self.trace + (d,)
        self.assume(c if d else mknot(c))
        return d

    def check(self, name, goal, kind='assert', line=None):
        """emit obligation(s); then assume"""
        if isinstance(goal, (list, tuple)):
            for g in goal: self.check(name, g, kind, line)
            return
        if goal is None: return
        if isinstance(goal, DEF): return self.assume(goal.items)
        if isinstance(goal, tuple) and len(goal) == 2 and isinstance(goal[0], str):
            name, goal = goal
        self._emit(name, goal, kind, line, [])
        self.assume(goal)

    def _emit(self, name, goal, kind, line, extra):
        if isinstance(goal, (list, tuple)):
            for g in goal: self._emit(name, g, kind, line, extra)
            return
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if isinstance(goal, IMP):
            return self._emit(name, goal.items, kind, line, extra + [goal.g])
        if isinstance(goal, FA):
            vs = [self.fresh(f'sk_{goal.names[m]}', s) for m, s in enumerate(goal.sorts)]
            ex = list(extra)
            saved = len(self.facts)
            b = goal.body(*vs)
            if goal.hints:
                ex += self.facts[saved:]
                h = goal.hints(*vs)
                for t in h:
                    if z3.is_expr(t) and not z3.is_bool(t):
                        ex.append(self.fresh('hint', t.sort()) == t)
                    else:
                        ex.append(tobool(t))
            return self._emit(name, b, kind, line, ex)
        if isinstance(goal, EX):
            wit = [tuple(iv(x) for x in w) for w in (goal.wit or [])] + [w for w in self.exw if len(w) == goal.n][-4:]
            if not wit: raise Unsupported('existential goal without witness')
            goal = mkor(*[tobool(goal.body(*w)) for w in wit])
        # split conjunctions / implications
        if z3.is_and(goal):
            return self._emit(name, list(goal.children()), kind, line, extra)
        if z3.is_implies(goal):
            return self._emit(name, goal.arg(1), kind, line, extra + [goal.arg(0)])
        if z3.is_true(goal): 
            self.ver.trivial += 1
            return
        self.seq += 1
        key = (self.trace, self.seq)
        if key in self.ver.done: return
        self.ver.done.add(key)
        facts = list(self.facts) + [tobool(x) for x in extra]
        if z3.is_quantifier(goal) and goal.is_exists(): facts += [self.fresh('named', t.sort()) == t for t in ground_reads(goal.body())]
        self.ver.obls.append(Obl(self.ver.name, name, line or (self.cur or {}).get('_line'), facts, goal, kind))

    def log_write(self, root, p):
        for s in self.logs:
            if root.serial < s[0]:
                s[1].add((root.name, p))

    def new_root(self, name, ty, quiet=False):
        r = Root(self, name, ty)
        self.serial += 1
        r.serial = self.serial
        r.quiet = quiet
        self.roots[name] = r
        return r

    def tmp(self, ty, tag='tmp'):
        self.nfresh += 1
        return self.new_root(f'{tag}{self.nfresh}', ty)

    def heap(self, clsty):
        """heap region of a class: a growing sequence of objects"""
        k = clsty.name or repr(clsty)
        h = self.heaps.get(k)
        if h is None:
            h = self.new_root('heap:' + k, Ty('rec', [k], 'heap', f'heap<{k}>'))
            h.serial = 0
            self.heaps[k] = h
            self.assume(h.get('#len') >= 0)
        return h

    def snapshot(self):
        return Snap(self)

    def assumption(self, s):
        self.ver.assumptions.add(s)

    # -------------------------------------------------------- loads / stores
    def load(self, lv, ty=None):
        ty = ty or lv.ty
        if ty.k in ('int', 'real', 'bool'):
            v = lv.get('')
            if ty.k == 'int' and not ty.n and not isnum(v):
                i = v.get_id()
                if ('nn', i) not in self.seen:
                    self.seen.add(('nn', i)); self.keep.append(v)
                    self.assume(v >= 0)
            return v
        if ty.k == 'rec' and ty.n == 'complex':
            return Cpx(lv.get('.re'), lv.get('.im'))
        if ty.k in ('ptr', 'null') or (ty.k == 'rec' and ty.n in ITERS):
            v = lv.get('')
            if z3.is_expr(v):     # heap reference stored as an integer
                return self.ref2ptr(v, ty)
            return v
        return lv

    def ref2ptr(self, v, ty):
        p = PtrVal(Elem(self.heap(ty.a), v, ty.a), None)
        return p

    def ptr2ref(self, p):
        if p is NULL: return z3.IntVal(-1)
        if isinstance(p, PtrVal) and isheap(p.lv): return p.lv.idx
        raise Unsupported('pointer stored in memory that is not a heap object')

    def store(self, lv, v, ty=None):
        ty = ty or lv.ty
        if ty.k in ('int', 'real', 'bool'):
            v = self.coerce(v, ty)
            lv.set('', v)
        elif ty.k == 'rec' and ty.n == 'complex':
            v = tocpx(v)
            lv.set('.re', v.re); lv.set('.im', v.im)
        elif ty.k in ('ptr', 'null', 'fn') or (ty.k == 'rec' and (ty.n in ITERS or '(lambda' in ty.name)):
            if isinstance(lv, Root) and not self.heapish(lv): lv.set('', v)
            elif isinstance(lv, Field) and self.rootfield(lv): lv.set('', v)
            else: lv.set('', self.ptr2ref(v))
        elif isinstance(v, LV):
            self.copy(lv, v, ty)
        else:
            raise Unsupported(f'store of {v!r} into {ty!r}')

    def heapish(self, lv):
        return lv.name.startswith('heap:')

    def rootfield(self, lv):
        while isinstance(lv, (Field, Cast)): lv = lv.base if isinstance(lv, Field) else uncast(lv)
        return isinstance(lv, Root)

    def copy(self, dst, src, ty=None):
        ty = ty or dst.ty
        vals = []
        for p, s in self.eng.shape(ty):
            try:
                vals.append((p, src.get(p)))
            except Unsupported:
                continue
        for p, v in vals: 
            if isinstance(v, (PtrVal, NullV)) and isinstance(dst, Elem): v = self.ptr2ref(v)
            dst.set(p, v)

    def coerce(self, v, ty):
        if isinstance(v, LV): v = self.load(v)
        if ty.k == 'real':
            return toreal(iv(v))
        if ty.k == 'int':
            v = iv(v)
            if z3.is_bool(v): return mkite(v, z3.IntVal(1), z3.IntVal(0))
            if z3.is_real(v): raise Unsupported('real to int store')
            return v
        if ty.k == 'bool':
            v = iv(v)
            if z3.is_int(v): return mknot(mkeq(v, z3.IntVal(0)))
            return v
        return v

    def seqlen(self, lv):
        n = self.eng.fixedlen(lv.ty)
        if n is not None: return z3.IntVal(n)
        if lv.ty.k == 'rec' and lv.ty.n in SEQS:
            v = lv.get('#len')
            if not isnum(v) and ('nn', v.get_id()) not in self.seen:
                self.seen.add(('nn', v.get_id())); self.keep.append(v)
                self.assume(v >= 0)
            return v
        raise Unsupported(f'length of {lv.ty!r}')

    def elem(self, seq, idx, chk='vector index in range'):
        if chk:
            self.check(chk, mkand(iv(idx) >= 0, iv(idx) < self.seqlen(seq)) if not (isnum(iv(idx)) and isnum(self.seqlen(seq))) else
                       z3.BoolVal(0 <= num(iv(idx)) < num(self.seqlen(seq))), 'memory')
        return Elem(seq, idx, self.eng.elemty(seq.ty))

    def deref(self, p):
        if p is NULL:
            self.check('null dereference', False, 'memory'); raise Infeasible()
        if isinstance(p, LV): return p
        if not isinstance(p, PtrVal): raise Unsupported(f'dereference of {p!r}')
        if p.idx is not None:
            return self.elem(p.lv, p.idx, 'iterator dereference in range')
        if isheap(p.lv):
            h = p.lv.base; r = p.lv.idx
            self.check('pointer is non-null and allocated', mkand(r >= 0, r < h.get('#len')), 'memory')
            if self.opts.get('alive'):
                self.check('pointed-to object is alive', z3.Select(self.alive(h), r), 'memory')
        return p.lv

    def alive(self, h):
        r = self.roots.get('alive:' + h.name)
        if r is None:
            r = self.new_root('alive:' + h.name, Ty('arr', BOOL, None)); r.serial = 0
        return r.get('[]')

    # -------------------------------------------------------- calls
    def call(self, decl, this, args, node, argnodes=None):
        """args: list of values / LVs already evaluated per parameter kind"""
        d = self.unit.definition(decl)
        if d is None: d = decl
        sig = self.unit.sig(d)
        con = self.eng.contracts.get(sig)
        if con is not None and con is self.ver.contract and not con.recursive and self.depth == 0:
            con = con
        if con is not None and not (con is self.ver.contract and self.opts.get('inline_self')):
            if sig not in self.ver.inline and not con.inl:
                return con.apply(self, d, this, args, node)
        if self.eng.trivial(d) or not has_body(d):
            r = self.trivial_call(d, this, args)
            if r is not None: return r
            if not has_body(d):
                raise Unsupported(f'no body or contract for {sig}')
        return self.inline(d, this, args, node)

    def trivial_call(self, d, this, args):
        k = d['kind']
        if k == 'CXXConstructorDecl':
            ps = self.unit.params(d)
            if len(ps) == 1 and self.unit.types.of(ps[0]).k == 'ref':
                self.copy(this, args[0], this.ty)
                if '&&' in d['type']['qualType']: self.moved(args[0], this.ty)
                return this
            if len(ps) == 0 and not has_body(d):
                self.default_init(this, this.ty)
                return this
            if len(ps) == 0:
                return None
        if k == 'CXXDestructorDecl': return VOIDV
        if d.get('name') == 'operator=':
            self.copy(this, args[0], this.ty)
            if '&&' in d['type']['qualType'] and args[0] is not this: self.moved(args[0], this.ty)
            return this
        return None

    def moved(self, lv, ty):
        """effect of a member-wise move on the source: vectors become empty"""
        if ty.k == 'rec' and ty.n == 'vector':
            lv.set('#len', z3.IntVal(0)); return
        c = self.eng.cls(ty) if ty.k == 'rec' else None
        if c is not None:
            for fn, ft in self.eng.all_fields(c):
                self.moved(Field(lv, fn, ft), ft)

    def inline(self, d, this, args, node):
        if self.depth > 14: raise Unsupported('inlining too deep (recursion without contract)')
        sig = self.unit.sig(d)
        self.ver.inlined.add(sig)
        nid = node.get('id', '0') if node else 'top'
        key = (self.frames[-1].key if self.frames else ()) + ((nid,) if self.frames else ())
        fr = Frame(key, d, this)
        self.bind_params(fr, d, args)
        self.frames.append(fr); self.depth += 1
        cur = self.cur
        try:
            return self.run_body(d, fr)
        finally:
            self.frames.pop(); self.depth -= 1
            self.cur = cur

    def fkey(self, fr, node):
        return self.ver.short(fr.key + (node.get('id'),), node.get('name', ''))

    def bind_params(self, fr, d, args):
        ps = self.unit.params(d)
        for i, p in enumerate(ps):
            t = self.unit.types.of(p)
            if i >= len(args):
                raise Unsupported(f'missing argument {p.get("name")} of {self.unit.sig(d)}')
            a = args[i]
            if t.k == 'ref':
                if not isinstance(a, LV):
                    r = self.tmp(t.a, 'arg')
                    self.store(r, a, t.a); a = r
                fr.bind(p, a)
            else:
                r = self.new_root(self.fkey(fr, p), t)
                if isinstance(a, LV) and self.eng.isscalar(t): a = self.load(a, t)
                self.store(r, a, t)
                fr.bind(p, r)

    def run_body(self, d, fr):
        if d['kind'] == 'CXXConstructorDecl':
            self.ctor_inits(d, fr)
        b = body(d)
        try:
            if b is not None: self.stmt(b)
        except Ret as r:
            return r.v
        return fr.this if d['kind'] == 'CXXConstructorDecl' else VOIDV

    def ctor_inits(self, d, fr):
        done = set()
        this = fr.this
        c = self.eng.cls(this.ty)
        for x in d.get('inner', ()):
            if x.get('kind') != 'CXXCtorInitializer': continue
            e = kids(x)
            e = e[-1] if e else None
            self.cur = x if '_line' in x else self.cur
            if 'anyInit' in x:
                nm = x['anyInit']['name']
                done.add(nm)
                ft = self.eng.fieldty(this.ty, nm)
                self.init_into(Field(this, nm, ft), ft, e)
            elif 'baseInit' in x:
                bt = self.unit.types.parse(x['baseInit'].get('desugaredQualType') or x['baseInit']['qualType'])
                if e is not None: self.init_into(Cast(this, bt), bt, e)
            else:   # delegating
                done.add('*')
                self.init_into(this, this.ty, e)
        if '*' in done: return
        for fn, ft in c.fields:
            if fn in done: continue
            if fn in c.fieldinit:
                self.init_into(Field(this, fn, ft), ft, c.fieldinit[fn])
            elif not self.eng.isscalar(ft):
                self.default_init(Field(this, fn, ft), ft)

    def default_init(self, lv, ty):
        if ty.k == 'rec':
            if ty.n in ('vector', 'initializer_list'):
                lv.set('#len', z3.IntVal(0)); return
            if ty.n == 'complex':
                lv.set('.re', z3.RealVal(0)); lv.set('.im', z3.RealVal(0)); return
            if ty.n == 'array': 
                et = self.eng.elemty(ty)
                c = self.eng.cls(et) if et.k == 'rec' else None
                if et.k == 'rec' and (c is not None or et.n in ('vector', 'complex')):
                    # class elements are default constructed
                    n = self.eng.fixedlen(ty)
                    if n is not None and n <= 16:
                        for i in range(n): self.default_init(Elem(lv, i, et), et)
                return
            c = self.eng.cls(ty)
            if c is not None:
                for m in c.methods:
                    if m.get('kind') == 'CXXConstructorDecl' and not self.unit.params(m):
                        dd = self.unit.definition(m)
                        if dd is not None and not self.eng.trivial(dd):
                            self.call(m, lv, [], m); return
                for b in c.bases:
                    self.default_init(Cast(lv, b), b)
                for fn, ft in c.fields:
                    if fn in c.fieldinit: self.init_into(Field(lv, fn, ft), ft, c.fieldinit[fn])
                    elif not self.eng.isscalar(ft) or (ft.k == 'rec' and ft.n == 'complex'): self.default_init(Field(lv, fn, ft), ft)
                return
        if ty.k == 'arr':
            et = ty.a
            if et.k == 'rec' and ty.n is not None and ty.n <= 16:
                for i in range(ty.n): self.default_init(Elem(lv, i, et), et)

    def value_init(self, lv, ty):
        """T() : zero for scalars and aggregates without user constructor"""
        if ty.k == 'int': lv.set('', z3.IntVal(0))
        elif ty.k == 'real': lv.set('', z3.RealVal(0))
        elif ty.k == 'bool': lv.set('', z3.BoolVal(False))
        elif ty.k == 'ptr': self.store(lv, NULL, ty)
        elif ty.k == 'arr' or (ty.k == 'rec' and ty.n == 'array'):
            for p, s in self.eng.shape(ty): lv.set(p, zero_of(s))
        else: self.default_init(lv, ty)

    def zero_elem(self, ty):
        """dict leaf -> term of a value-initialised element"""
        r = Root(self, 'zero', ty); r.quiet = True; r.serial = 10 ** 9
        self.value_init(r, ty)
        out = {}
        for p, s in self.eng.shape(ty):
            v = r.leaves.get(p)
            if v is None: v = self.fresh('uninit', I if isinstance(s, str) else s)
            if isinstance(v, (NullV, PtrVal)): v = self.ptr2ref(v)
            out[p] = v
        return out

    def init_into(self, lv, ty, e):
        """initialise location from initialiser expression"""
        if e is None:
            return self.default_init(lv, ty)
        n = e
        while n['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ConstantExpr', 'CXXDefaultInitExpr') and kids(n):
            n = kids(n)[-1]
        k = n['kind']
        if k == 'CXXDefaultInitExpr':
            c = None
            if isinstance(lv, Field):
                b = lv.base
                c = self.eng.cls(b.ty)
                while c is not None and lv.name not in c.fieldinit and c.bases: c = self.eng.cls(c.bases[0])
            if c is None or lv.name not in c.fieldinit: raise Unsupported('default member initialiser')
            return self.init_into(lv, ty, c.fieldinit[lv.name])
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and not self.eng.isscalar(ty):
            return self.construct(lv, ty, n)
        if k == 'CXXFunctionalCastExpr' and not self.eng.isscalar(ty):
            return self.init_into(lv, ty, kids(n)[-1])
        if k == 'InitListExpr' and not self.eng.isscalar(ty):
            return self.init_list(lv, ty, n)
        if k == 'ImplicitValueInitExpr':
            return self.value_init(lv, ty)
        if k == 'CXXStdInitializerListExpr':
            return self.std_init_list(lv, ty, n)
        if k == 'ArrayInitLoopExpr':
            ks = kids(n)
            src = self.ev(ks[0]) if ks[0]['kind'] != 'OpaqueValueExpr' else self.ev(kids(ks[0])[0])
            return self.copy(lv, src, ty)
        if ty.k == 'ref':
            x = self.ev(n)
            if not isinstance(x, LV): raise Unsupported('reference member bound to a value')
            lv.set('', PtrVal(x, None))
            return
        v = self.rv(n)
        self.store(lv, v, ty)

    def init_list(self, lv, ty, n):
        ks = kids(n)
        if ty.k == 'arr' or (ty.k == 'rec' and ty.n == 'array'):
            if ty.k == 'rec' and len(ks) == 1 and self.unit.types.of(ks[0]).k == 'arr':
                t2 = self.unit.types.of(ks[0])
                if strip(ks[0])['kind'] == 'InitListExpr': return self.init_list(lv, ty, strip(ks[0]))
            et = self.eng.elemty(ty)
            N = self.eng.fixedlen(ty)
            filler = None
            if N is None: N = len(ks)
            if len(ks) < N: self.value_init(lv, ty)
            for i, x in enumerate(ks):
                self.init_into(Elem(lv, i, et), et, x)
            return
        if ty.k == 'rec' and ty.n == 'vector':
            return self.vec_from_nodes(lv, ty, ks)
        c = self.eng.cls(ty)
        if c is not None:
            fs = self.eng.all_fields(c)
            for i, (fn, ft) in enumerate(fs):
                if i < len(ks): self.init_into(Field(lv, fn, ft), ft, ks[i])
                else: self.value_init(Field(lv, fn, ft), ft)
            return
        if len(ks) == 1: return self.store(lv, self.rv(ks[0]), ty)
        raise Unsupported(f'init list for {ty!r}')

    def vec_from_nodes(self, lv, ty, ks):
        et = self.eng.elemty(ty)
        lv.set('#len', z3.IntVal(len(ks)))
        for i, x in enumerate(ks):
            self.init_into(Elem(lv, i, et), et, x)

    def std_init_list(self, lv, ty, n):
        x = kids(n)[0]
        while x['kind'] in ('MaterializeTemporaryExpr', 'ImplicitCastExpr', 'ExprWithCleanups'): x = kids(x)[-1]
        if x['kind'] != 'InitListExpr': raise Unsupported('initializer_list')
        et = self.eng.elemty(ty)
        ks = kids(x)
        lv.set('#len', z3.IntVal(len(ks)))
        for i, y in enumerate(ks): self.init_into(Elem(lv, i, et), et, y)

    def construct(self, lv, ty, n):
        """run constructor expression n on location lv"""
        args = kids(n)
        if ty.k == 'rec' and ty.n in ('basic_string', 'istream', 'ostream'):
            from . import text
            return text.construct(self, lv, ty, args)
        if ty.name in EXTERN and len(args) == 1: return self.copy(lv, self.rv(args[0]), ty)
        if ty.k == 'rec' and ty.n in ('vector', 'array', 'initializer_list', 'pair', 'queue', 'multimap', 'map'):
            return self.std_construct(lv, ty, n, args)
        if ty.k == 'arr':
            return self.default_init(lv, ty)
        c = self.eng.cls(ty)
        if c is None: 
            if ty.k == 'rec' and ty.name in ('allocator',) : return
            raise Unsupported(f'construction of {ty!r}')
        d = self.eng.ctor_of(n)
        if d is None: raise Unsupported(f'constructor of {ty!r}: {n.get("ctorType")}')
        a = self.eval_args(d, args, n)
        if not args and not has_body(self.unit.definition(d) or d) and n.get('zeroing'):
            return self.value_init(lv, ty)
        if not args and n.get('zeroing') and d.get('isImplicit'):
            for p, s in self.eng.shape(ty): lv.set(p, zero_of(s) if not isinstance(s, str) else NULL)
            return self.default_init(lv, ty)
        self.call(d, lv, a, n)

    def std_construct(self, lv, ty, n, args):
        ct = norm((n.get('ctorType') or {}).get('qualType', ''))
        if ty.n == 'initializer_list':
            if not args: lv.set('#len', z3.IntVal(0)); return
            return self.copy(lv, self.rv(args[0]), ty)
        if ty.n == 'array':
            if not args: return self.default_init(lv, ty)
            return self.copy(lv, self.rv(args[0]), ty)
        if ty.n == 'pair':
            if len(args) == 2:
                for nm, a in zip(('first', 'second'), args):
                    ft = self.eng.fieldty(ty, nm); self.store(Field(lv, nm, ft), self.rv(a), ft)
                return
            return self.copy(lv, self.rv(args[0]), ty)
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if not args:
            lv.set('#len', z3.IntVal(0)); return
        t0 = self.unit.types.of(args[0])
        if t0.k == 'rec' and t0.n == 'vector':
            src = self.rv(args[0])
            self.copy(lv, src, ty)
            if '&&' in ct: src.set('#len', z3.IntVal(0))
            return
        if t0.k == 'rec' and t0.n == 'initializer_list':
            a0 = strip(args[0])
            src = self.rv(args[0])
            return self.copy(lv, src, ty)
        if t0.k in ('int',):
            cnt = self.coerce(self.rv(args[0]), SIZE)
            et = self.eng.elemty(ty)
            if len(args) > 1:
                v = self.frozen_elem(self.rv(args[1]), et)
            else:
                v = self.zero_elem(et)
            lv.set('#len', cnt)
            for p, s in self.eng.shape(et):
                lv.set('[]' + p, z3.K(I, v[p]))
            return
        if len(args) == 2 and (t0.k == 'ptr' or (t0.k == 'rec' and t0.n in ITERS)):
            a, b = self.rv(args[0]), self.rv(args[1])
            if isinstance(a, PtrVal) and isinstance(b, PtrVal) and lv_same(a.lv, b.lv) and isnum(a.idx) and num(a.idx) == 0:
                self.check('iterator range valid', mkand(b.idx >= 0, b.idx <= self.seqlen(a.lv)), 'memory')
                et = self.eng.elemty(ty)
                vals = [(p, a.lv.get('[]' + p)) for p, s in self.eng.shape(et)]
                lv.set('#len', b.idx)
                for p, v in vals: lv.set('[]' + p, v)
                return
        raise Unsupported(f'vector constructor {ct}')

    def frozen_elem(self, v, et):
        r = Root(self, 'val', et); r.quiet = True; r.serial = 10 ** 9
        self.store(r, v, et)
        out = {}
        for p, s in self.eng.shape(et):
            x = r.get(p)
            if isinstance(x, (PtrVal, NullV)): x = self.ptr2ref(x)
            out[p] = x
        return out

    def eval_args(self, d, argnodes, callnode):
        """evaluate call arguments against parameter kinds of our function d"""
        dd = self.unit.definition(d) or d
        ps = self.unit.params(dd); ps0 = self.unit.params(d)
        out = []
        for i, p in enumerate(ps):
            t = self.unit.types.of(p)
            if i < len(argnodes) and argnodes[i]['kind'] != 'CXXDefaultArgExpr':
                x = argnodes[i]
            else:
                x = None
                if i < len(argnodes): x = (kids(argnodes[i]) or [None])[0]
                if x is None:
                    for q in (ps0[i] if i < len(ps0) else p, p):
                        kk = kids(q)
                        if kk: x = kk[-1]; break
                if x is None:
                    x = self.default_arg(d, i)
            if t.k == 'ref':
                v = self.ev(x)
                if not isinstance(v, LV):
                    r = self.tmp(t.a, 'ref')
                    self.store(r, v, t.a); v = r
            else:
                v = self.rv(x)
                if isinstance(v, LV):
                    if self.eng.isscalar(t): v = self.load(v, t)
                    else:
                        r = self.tmp(t, 'byval'); self.copy(r, v, t); v = r
            out.append(v)
        return out

    def default_arg(self, d, i):
        # look through redeclarations with the same mangled name / pattern
        m = d.get('mangledName')
        cands = [x for x in self.unit.byid.values() if x.get('kind') in FUNCS and x.get('mangledName') == m]
        if d.get('name'):
            cands += [x for x in self.unit.byid.values() if x.get('kind') in FUNCS and x.get('name') == d.get('name')
                      and len(self.unit.params(x)) == len(self.unit.params(d))]
        for x in cands:
            ps = self.unit.params(x)
            if i < len(ps):
                kk = kids(ps[i])
                if kk and kk[-1]['kind'].endswith(('Literal', 'LiteralExpr', 'Expr')): return kk[-1]
        raise Unsupported(f'default argument {i} of {self.unit.sig(d)}')

    # -------------------------------------------------------- expressions
    def rv(self, n):
        v = self.ev(n)
        if isinstance(v, LV):
            t = self.unit.types.of(n)
            if t.k == 'ref': t = t.a
            if self.eng.isscalar(t):
                return self.load(v, t)
        return v

    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported(f'expression {k} (line {n.get("_line")})')
        if n.get('_line'): self.cur = n
        return m(n)

    def T(self, n):
        return self.unit.types.of(n)

    def x_ParenExpr(self, n): return self.ev(kids(n)[0])
    def x_ExprWithCleanups(self, n): return self.ev(kids(n)[0])
    def x_CXXBindTemporaryExpr(self, n): return self.ev(kids(n)[0])
    def x_ConstantExpr(self, n): return self.ev(kids(n)[0])
    def x_SubstNonTypeTemplateParmExpr(self, n): return self.ev(kids(n)[-1])

    def x_MaterializeTemporaryExpr(self, n):
        v = self.ev(kids(n)[0])
        if isinstance(v, LV): return v
        t = self.T(n)
        r = self.tmp(t)
        self.store(r, v, t)
        return r

    def x_IntegerLiteral(self, n): return z3.IntVal(int(n['value']))
    def x_CharacterLiteral(self, n): return z3.IntVal(int(n['value']))
    def x_FloatingLiteral(self, n):
        s = n['value']
        from fractions import Fraction
        f = Fraction(float(s))
        return z3.RealVal(f)
    def x_CXXBoolLiteralExpr(self, n): return z3.BoolVal(bool(n['value']))
    def x_CXXNullPtrLiteralExpr(self, n): return NULL
    def x_GNUNullExpr(self, n): return NULL
    def x_StringLiteral(self, n): return ('str', n.get('value'))

    def x_CXXThisExpr(self, n):
        return PtrVal(self.frames[-1].this)

    def x_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        i = rd['id']
        for fr in reversed(self.frames[-1:]):
            if i in fr.vars: return fr.vars[i]
        if rd['kind'] in FUNCS: return ('fn', i, rd)
        cl = getattr(self.frames[-1], 'closure', None)
        while cl is not None:
            if i in cl.vars: return cl.vars[i]
            cl = getattr(cl, 'closure', None)
        return self.global_var(i, rd)

    def global_var(self, i, rd):
        g = self.globals.get(i)
        if g is not None: return g
        d = self.unit.byid.get(i)
        if rd.get('kind') == 'EnumConstantDecl' or (d or {}).get('kind') == 'EnumConstantDecl':
            return self.enum_value(i, rd)
        if rd.get('kind') == 'VarDecl':
            ini = None
            for c in ([d] if d else []):
                kk = kids(c)
                if kk: ini = kk[-1]
            t = self.T(rd if 'type' in rd else d)
            if ini is None:
                raise Unsupported(f'global variable {rd.get("name")}')
            r = self.new_root('global:' + rd.get('name', '?'), t); r.serial = 0
            self.globals[i] = r
            self.frames.append(Frame(('global',), d, None))
            try:
                self.init_into(r, t, ini)
            finally:
                self.frames.pop()
            return r
        raise Unsupported(f'reference to {rd.get("kind")} {rd.get("name")}')

    def enum_value(self, i, rd):
        # sequential search of the enum declaration
        for e in self.unit.byid.values():
            if e.get('kind') == 'EnumDecl':
                v = -1
                for c in e.get('inner', ()):
                    if c.get('kind') != 'EnumConstantDecl': continue
                    kk = kids(c)
                    if kk:
                        x = kk[-1]
                        v = int(x['value']) if 'value' in x else int(num(self.rv(x)))
                    else: v += 1
                    if c.get('id') == i: return z3.IntVal(v)
        raise Unsupported(f'enum constant {rd.get("name")}')

    def x_MemberExpr(self, n):
        b = self.ev(kids(n)[0])
        nm = n['name']
        md = self.unit.byid.get(n.get('referencedMemberDecl'))
        if n.get('isArrow'):
            if isinstance(b, LV): b = self.load(b, self.T(kids(n)[0]))
            b = self.deref(b)
        if md is not None and md.get('kind') == 'VarDecl':
            return self.global_var(md['id'], md)
        if isinstance(b, PtrVal): b = self.deref(b)
        if not isinstance(b, LV): raise Unsupported(f'member {nm} of value')
        t = self.eng.fieldty(b.ty, nm)
        if t.k == 'ref':
            pv = Field(b, nm, t).get('')
            if not isinstance(pv, PtrVal): raise Unsupported('reference member')
            return self.deref(pv)
        return Field(b, nm, t)

    def x_ArraySubscriptExpr(self, n):
        a, i = kids(n)
        ta = self.T(a)
        if ta.k == 'int': a, i = i, a
        p = self.rv(a); i = self.rv(i)
        if isinstance(p, LV): return self.elem(p, i)
        return self.deref(PtrVal(p.lv, mkadd(p.idx, i)))

    def x_ImplicitCastExpr(self, n): return self.cast(n)
    def x_CStyleCastExpr(self, n): return self.cast(n)
    def x_CXXStaticCastExpr(self, n): return self.cast(n)
    def x_CXXConstCastExpr(self, n): return self.cast(n)
    def x_CXXFunctionalCastExpr(self, n): return self.cast(n)
    def x_CXXReinterpretCastExpr(self, n): raise Unsupported('reinterpret_cast')

    def cast(self, n):
        ck = n.get('castKind'); x = kids(n)[-1]
        t = self.T(n)
        if ck == 'LValueToRValue':
            v = self.ev(x)
            if isinstance(v, LV):
                tt = self.T(x)
                if tt.k == 'ref': tt = tt.a
                return self.load(v, tt)
            return v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr'):
            return self.ev(x)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            v = self.ev(x)
            if isinstance(v, PtrVal):
                return PtrVal(Cast(v.lv, t.a), v.idx)
            return Cast(v, t)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(x)
            if isinstance(v, LV): return PtrVal(v, z3.IntVal(0))
            return v
        if ck == 'NullToPointer': return NULL
        if ck == 'ToVoid':
            self.ev(x); return VOIDV
        v = self.rv(x)
        st = self.T(x)
        if ck == 'IntegralCast':
            return self.icast(v, st, t)
        if ck == 'IntegralToFloating': return toreal(v)
        if ck == 'FloatingCast': return v
        if ck == 'FloatingToIntegral':
            if isnum(v):
                f = num(v); import math
                return z3.IntVal(math.trunc(f))
            self.assumption('float-to-integer conversion is modelled as exact truncation')
            fl = z3.ToInt(v)
            return z3.If(v >= 0, fl, -z3.ToInt(-v))
        if ck in ('IntegralToBoolean',):
            return mknot(mkeq(v, z3.IntVal(0))) if not z3.is_bool(v) else v
        if ck == 'FloatingToBoolean':
            return mknot(mkeq(v, z3.RealVal(0)))
        if ck == 'PointerToBoolean':
            return mknot(self.ptr_eq(v, NULL))
        if ck == 'BitCast': return v
        raise Unsupported(f'cast {ck}')

    def icast(self, v, st, t):
        v = iv(v)
        if z3.is_bool(v): v = mkite(v, z3.IntVal(1), z3.IntVal(0))
        if t.k == 'int' and not t.n:
            if isnum(v): return z3.IntVal(num(v) % (2 ** t.a))
            if st.k == 'int' and st.n:
                if self.quick(v >= 0): return v
                return z3.If(v >= 0, v, v + 2 ** t.a)
        elif t.k == 'int' and t.n and st.k == 'int' and not (st.n and st.a <= t.a) and not isnum(v):
            if not (st.a < t.a): self.assumption('conversions from size_t to a signed or narrower integer stay in range')
        return v

    def boolv(self, v):
        v = iv(v)
        if z3.is_bool(v): return v
        if z3.is_int(v): return mknot(mkeq(v, z3.IntVal(0)))
        if z3.is_real(v): return mknot(mkeq(v, z3.RealVal(0)))
        raise Unsupported('boolean value')

    def cond(self, n):
        """evaluate condition with short circuit, return z3 Bool; may branch"""
        x = n
        while x['kind'] in ('ParenExpr', 'ExprWithCleanups') or (x['kind'] == 'ImplicitCastExpr' and x.get('castKind') == 'NoOp'):
            x = kids(x)[0]
        if x['kind'] == 'BinaryOperator' and x['opcode'] in ('&&', '||'):
            return self.x_BinaryOperator(x)
        if x['kind'] == 'UnaryOperator' and x['opcode'] == '!':
            return mknot(self.cond(kids(x)[0]))
        return self.boolv(self.rv(n))

    def pure(self, n):
        """expression without calls that could write/branch/fail"""
        k = n['kind']
        if k in ('CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CompoundAssignOperator', 'ArraySubscriptExpr', 'CXXThrowExpr', 'ConditionalOperator'):
            return False
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--', '*'): return False
        if k == 'BinaryOperator' and n['opcode'] in ('=', '/', '%'): return False
        return all(self.pure(c) for c in kids(n))

    def x_BinaryOperator(self, n):
        op = n['opcode']; a, b = kids(n)
        if op in ('&&', '||'):
            ca = self.cond(a)
            if z3.is_false(ca) and op == '&&': return ca
            if z3.is_true(ca) and op == '||': return ca
            if z3.is_true(ca) or z3.is_false(ca): return self.cond(b)
            if self.pure(b):
                cb = self.cond(b)
                return mkand(ca, cb) if op == '&&' else mkor(ca, cb)
            # the right operand is evaluated only on one side
            if op == '&&':
                if self.branch(ca): return self.cond(b)
                return z3.BoolVal(False)
            if self.branch(ca): return z3.BoolVal(True)
            return self.cond(b)
        if op == ',':
            self.ev(a); return self.ev(b)
        if op == '=':
            v = self.rv(b)
            lv = self.ev(a)
            if isinstance(v, LV) and self.eng.isscalar(self.T(a)): v = self.load(v)
            self.store(lv, v, self.T(a))
            return lv
        x = self.rv(a); y = self.rv(b)
        return self.arith(op, x, y, self.T(a), self.T(b), self.T(n))

    def arith(self, op, x, y, ta, tb, tr):
        if isinstance(x, (PtrVal, NullV)) or isinstance(y, (PtrVal, NullV)):
            return self.ptr_arith(op, x, y)
        x, y = (x if isinstance(x, Cpx) else iv(x)), (y if isinstance(y, Cpx) else iv(y))
        if op == '==': return mkeq(x, y)
        if op == '!=': return mknot(mkeq(x, y))
        if not isinstance(x, Cpx) and z3.is_bool(x): x = mkite(x, z3.IntVal(1), z3.IntVal(0))
        if not isinstance(y, Cpx) and z3.is_bool(y): y = mkite(y, z3.IntVal(1), z3.IntVal(0))
        if op in ('<', '<=', '>', '>='): return mkcmp(op, x, y)
        unsigned = tr.k == 'int' and not tr.n
        if op == '+':
            r = self.addint(x, y) if tr.k == 'int' else mkadd(x, y)
            if unsigned: self.assumption('size_t addition and multiplication do not wrap (sizes below 2^63)')
            elif tr.k == 'int': self.assumption('signed int arithmetic does not overflow')
            return r
        if op == '-':
            if unsigned:
                if isnum(x) and isnum(y): return z3.IntVal((num(x) - num(y)) % TWO64)
                if isnum(y) and num(y) == 0: return x
                d = mksub(x, y)
                if isnum(d) and num(d) >= 0: return d
                if self.quick(x >= y): return d
                return z3.If(x >= y, d, d + TWO64)
            return mksub(x, y)
        if op == '*':
            if tr.k == 'int':
                r = mkimul(x, y)
                if z3.is_app(r) and r.decl().eq(imul): self.lin_facts_mul(r)
                return r
            return mkrmul(x, y, not self.opts.get('nla'))
        if op == '/':
            if tr.k == 'int':
                self.check('integer division by zero', mknot(mkeq(y, z3.IntVal(0))), 'arith')
                return self.idiv(x, y, tr)
            return self.fdiv(x, y)
        if op == '%':
            self.check('integer modulo by zero', mknot(mkeq(y, z3.IntVal(0))), 'arith')
            if isnum(x) and isnum(y):
                a, b = num(x), num(y)
                r = abs(a) % abs(b)
                return z3.IntVal(r if a >= 0 else -r)
            if isnum(y) and num(y) > 0:
                if tr.k == 'int' and not tr.n: return x % y
                return z3.If(x >= 0, x % y, -((-x) % y))
            r = lsnd(x, y); self.div_facts(x, y)
            return r
        if op in ('<<', '>>') and isnum(y):
            return mkimul(x, z3.IntVal(2 ** num(y))) if op == '<<' else self.idiv(x, z3.IntVal(2 ** num(y)), tr)
        if op in ('|', '&', '^') and isnum(x) and isnum(y):
            a, b = num(x), num(y)
            return z3.IntVal({'|': a | b, '&': a & b, '^': a ^ b}[op])
        if op in ('|', '&'):
            return self.bitop(op, x, y)
        raise Unsupported(f'operator {op}')

    def bitop(self, op, x, y):
        f = z3.Function('bit' + ('or' if op == '|' else 'and'), I, I, I)
        if isnum(y):
            if ('bitop', op, num(y)) not in self.seen:
                self.seen.add(('bitop', op, num(y)))
                self.assume(FA(1, lambda k: f(f(k, y), y) == f(k, y), lambda k: [f(f(k, y), y)]))
            if op == '|' and num(y) > 0: self.assume(f(z3.IntVal(0), y) == y)
        return f(x, y)

    def idiv(self, x, y, tr):
        if isnum(x) and isnum(y):
            a, b = num(x), num(y)
            q = abs(a) // abs(b)
            return z3.IntVal(q if (a < 0) == (b < 0) else -q)
        if isnum(y) and num(y) > 0:
            if tr.k == 'int' and (not tr.n or self.quick(x >= 0)): return x / y
            return z3.If(x >= 0, x / y, -((-x) / y))
        if tr.n: raise Unsupported('signed division by a variable')
        self.div_facts(x, y)
        return lfst(x, y)

    def div_facts(self, x, y):
        q, r = lfst(x, y), lsnd(x, y)
        a, b = order(q, y)
        self.assume([q >= 0, r >= 0, r < y, lin(a, b, r) == x])
        self.lin_facts(q, y, r)

    def addint(self, x, y):
        # i*c + j   ->  lin(i,c,j)
        for u, w in ((x, y), (y, x)):
            if z3.is_app(u) and u.decl().eq(imul):
                t = lin(u.arg(0), u.arg(1), w)
                self.lin_facts(u.arg(0), u.arg(1), w)
                return t
            if z3.is_app(u) and u.decl().eq(lin):
                return self.addint2(u, w)
        return mkadd(x, y)

    def addint2(self, u, w):
        j = mkadd(u.arg(2), w)
        self.lin_facts(u.arg(0), u.arg(1), j)
        return lin(u.arg(0), u.arg(1), j)

    def lin_facts_mul(self, m):
        pass

    def lin_facts(self, a, b, j):
        """theorems of integer arithmetic about a*b+j (checked once, see lemmas)"""
        t = lin(*order(a, b), j)
        key = ('lin', t.get_id())
        if key in self.seen: return
        self.seen.add(key); self.keep.append(t)
        self.ver.need_lin = True

    def fdiv(self, x, y):
        if isinstance(x, Cpx) or isinstance(y, Cpx):
            x, y = tocpx(x), tocpx(y)
            if isnum(y.im) and num(y.im) == 0:
                return Cpx(self.fdiv(x.re, y.re), self.fdiv(x.im, y.re))
            d = mkadd(mkrmul(y.re, y.re, not self.opts.get('nla')), mkrmul(y.im, y.im, not self.opts.get('nla')))
            nn = mkrmul(x, Cpx(y.re, mkneg(y.im)), not self.opts.get('nla'))
            return Cpx(self.fdiv(nn.re, d), self.fdiv(nn.im, d))
        x, y = toreal(iv(x)), toreal(iv(y))
        if isnum(y):
            if num(y) == 0:
                self.check('floating division by zero', False, 'arith') if self.opts.get('fdiv0', True) else None
                return self.fresh('div0', R)
            if isnum(x): return z3.RealVal(num(x) / num(y))
            return mkrmul(x, z3.RealVal(1 / num(y)))
        if self.opts.get('ondiv'):
            for f in self.opts['ondiv'](self): self.assume(f)
        if self.opts.get('fdiv_check'):
            self.check('floating division by zero', mknot(mkeq(y, z3.RealVal(0))), 'arith')
        if self.opts.get('nla'): return x / y
        # x / y = x * (1/y)
        i = rinv(y)
        self.assume(z3.Implies(y != 0, mkand(rmul(*order(y, i)) == 1, i != 0)))
        self.ver.need_rmul = True
        q = mkrmul(x, i)
        if self.opts.get('cancel'): self.assume(z3.Implies(y != 0, mkrmul(y, q) == x))      # definition of the quotient
        return q

    def ptr_eq(self, a, b):
        if isinstance(a, LV): a = self.load(a)
        if isinstance(b, LV): b = self.load(b)
        if a is NULL and b is NULL: return z3.BoolVal(True)
        if a is NULL or b is NULL:
            p = b if a is NULL else a
            if isheap(p.lv): return mkeq(p.lv.idx, z3.IntVal(-1))
            return z3.BoolVal(False)
        if isheap(a.lv) and isheap(b.lv):
            return mkand(z3.BoolVal(a.lv.base is b.lv.base), mkeq(a.lv.idx, b.lv.idx))
        sa, sb = uncast(a.lv), uncast(b.lv)
        if a.idx is not None and b.idx is not None and lv_same(sa, sb):
            return mkeq(a.idx, b.idx)
        if a.idx is None and b.idx is None:
            if lv_same(sa, sb): return z3.BoolVal(True)
            if isinstance(sa, Elem) and isinstance(sb, Elem) and lv_same(sa.base, sb.base):
                return mkeq(sa.idx, sb.idx)
            return z3.BoolVal(False)
        if a.idx is not None and b.idx is not None:
            raise Unsupported('comparison of iterators into different sequences')
        raise Unsupported('pointer comparison')

    def ptr_arith(self, op, x, y):
        if op == '==': return self.ptr_eq(x, y)
        if op == '!=': return mknot(self.ptr_eq(x, y))
        if op in ('+', '-') and isinstance(x, PtrVal) and not isinstance(y, (PtrVal, NullV)):
            if x.idx is None: raise Unsupported('arithmetic on object pointer')
            return PtrVal(x.lv, (mkadd if op == '+' else mksub)(x.idx, y))
        if op == '+' and isinstance(y, PtrVal): return self.ptr_arith(op, y, x)
        if op == '-' and isinstance(x, PtrVal) and isinstance(y, PtrVal) and lv_same(x.lv, y.lv):
            return mksub(x.idx, y.idx)
        if op in ('<', '<=', '>', '>=') and lv_same(x.lv, y.lv): return mkcmp(op, x.idx, y.idx)
        raise Unsupported(f'pointer operator {op}')

    def x_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]; a, b = kids(n)
        y = self.rv(b)
        lv = self.ev(a)
        ta = self.T(a)
        x = self.load(lv, ta)
        cr = n.get('computeResultType', {})
        ct = self.unit.types.parse(cr.get('desugaredQualType') or cr.get('qualType')) if cr else ta
        if ct.k == 'real' and ta.k == 'int': x = toreal(x)
        v = self.arith(op, x, y, ta, self.T(b), ct if ct.k != 'ptr' else ta)
        if ta.k == 'int' and not ta.n and ct.k == 'int' and ct.n: v = self.icast(v, ct, ta)
        if ta.k == 'int' and ct.k == 'real':
            raise Unsupported('compound assignment narrowing')
        self.store(lv, v, ta)
        return lv

    def x_UnaryOperator(self, n):
        op = n['opcode']; x = kids(n)[0]
        if op == '&':
            v = self.ev(x)
            if isinstance(v, Elem) and not isheap(v): return PtrVal(v.base, v.idx)
            if isinstance(v, LV): return PtrVal(v)
            raise Unsupported('address of value')
        if op == '*':
            return self.deref(self.rv(x))
        if op in ('++', '--'):
            lv = self.ev(x); t = self.T(x)
            o = self.load(lv, t)
            if isinstance(o, PtrVal): nv = self.ptr_arith(op[0], o, z3.IntVal(1))
            elif t.k == 'real': nv = self.arith(op[0], o, z3.RealVal(1), t, t, t)
            else: nv = self.arith(op[0], o, z3.IntVal(1), t, t, t)
            self.store(lv, nv, t)
            return o if n.get('isPostfix') else lv
        if op == '!': return mknot(self.cond(x))
        v = self.rv(x)
        if op == '-':
            t = self.T(n)
            if t.k == 'int' and not t.n: return self.arith('-', z3.IntVal(0), v, t, t, t)
            return mkneg(v)
        if op == '+': return v
        if op == '~' and isnum(v): return z3.IntVal(~num(v) % (2 ** self.T(n).a) if not self.T(n).n else ~num(v))
        raise Unsupported(f'unary {op}')

    def x_ConditionalOperator(self, n):
        c, a, b = kids(n)
        cv = self.cond(c)
        if z3.is_true(cv): return self.ev(a)
        if z3.is_false(cv): return self.ev(b)
        if self.pure(a) and self.pure(b):
            va, vb = self.ev(a), self.ev(b)
            if isinstance(va, LV) and isinstance(vb, LV):
                if lv_same(va, vb): return va
                return CondLV(cv, va, vb)
            if not isinstance(va, (LV, PtrVal, NullV)) and not isinstance(vb, (LV, PtrVal, NullV)):
                return mkite(cv, va, vb)
        if self.branch(cv): return self.ev(a)
        return self.ev(b)

    def x_CXXConstructExpr(self, n):
        t = self.T(n)
        args = kids(n)
        if self.eng.isscalar(t) and not (t.k == 'rec' and t.n == 'complex'):
            if args: return self.rv(args[0])
            if t.k == 'rec' and t.n in ITERS: return NULL
        if t.k == 'rec' and t.n == 'complex':
            return self.cpx_construct(n, args)
        if '(lambda' in repr(t) and args: return self.rv(args[0])
        r = self.tmp(t)
        # elidable copies
        if n.get('elidable') and len(args) == 1:
            v = self.ev(args[0])
            if isinstance(v, LV):
                self.copy(r, v, t); return r
        self.construct(r, t, n)
        return r

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def cpx_construct(self, n, args):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if not args: return Cpx(z3.RealVal(0), z3.RealVal(0))
        v = [self.rv(a) for a in args]
        if len(v) == 1: return tocpx(v[0])
        return Cpx(toreal(iv(v[0])), toreal(iv(v[1])))

    def x_CXXScalarValueInitExpr(self, n):
        t = self.T(n)
        r = self.tmp(t); self.value_init(r, t)
        return self.load(r, t)

    def x_ImplicitValueInitExpr(self, n):
        return self.x_CXXScalarValueInitExpr(n)

    def x_InitListExpr(self, n):
        t = self.T(n)
        ks = kids(n)
        if self.eng.isscalar(t):
            if t.k == 'rec' and t.n == 'complex': return self.cpx_construct(n, ks)
            return self.rv(ks[0]) if ks else self.x_CXXScalarValueInitExpr(n)
        r = self.tmp(t); self.init_list(r, t, n)
        return r

    def x_CXXStdInitializerListExpr(self, n):
        t = self.T(n)
        r = self.tmp(t); self.std_init_list(r, t, n)
        return r

    def x_CXXDefaultArgExpr(self, n):
        kk = kids(n)
        if kk: return self.ev(kk[0])
        raise Unsupported('default argument')

    def x_UnaryExprOrTypeTraitExpr(self, n): raise Unsupported('sizeof')

    def x_CXXThrowExpr(self, n):
        kk = kids(n)
        if not kk: raise Unsupported('rethrow')
        t = self.T(kk[0])
        raise CppThrow(t.name)

    def x_LambdaExpr(self, n):
        return Closure(n, self.frames[-1], self.frames[-1].this)

    def call_closure(self, c, args, site=()):
        meth = None
        stack = [c.node]
        for x in c.node.get('inner', ()):
            if x.get('kind') == 'CXXRecordDecl':
                for y in x.get('inner', ()):
                    if y.get('kind') == 'CXXMethodDecl' and y.get('name') == 'operator()': meth = y
        if meth is None: raise Unsupported('generic lambda')
        fr = Frame(self.frames[-1].key + site + (c.node['id'],), meth, c.this)
        fr.closure = c.frame
        self.bind_params(fr, meth, args)
        self.frames.append(fr); self.depth += 1
        try:
            b = body(meth) or [x for x in c.node['inner'] if x.get('kind') == 'CompoundStmt'][-1]
            self.stmt(b)
        except Ret as r:
            return r.v
        finally:
            self.frames.pop(); self.depth -= 1
        return VOIDV

    def direct_closure(self, n, ks):
        """call of a closure held by a local variable: its body in place, captures by reference only"""
        f = self.ev(ks[1])
        while isinstance(f, LV): f = f.get('')
        if not isinstance(f, Closure): raise Unsupported('call of an unknown closure')
        rec = [x for x in f.node.get('inner', ()) if x.get('kind') == 'CXXRecordDecl'][0]
        for x in rec.get('inner', ()):
            if x.get('kind') == 'FieldDecl' and not x['type']['qualType'].rstrip().endswith('&'): raise Unsupported('closure with a captured copy')
        meth = [x for x in rec.get('inner', ()) if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()']
        if len(meth) != 1: raise Unsupported('generic lambda')
        return self.call_closure(f, self.eval_args(meth[0], ks[2:], n), (n['id'],))

    def x_CXXNewExpr(self, n):
        t = self.T(n)          # pointer type
        et = t.a
        ks = kids(n)
        if n.get('isArray'):
            cnt = self.coerce(self.rv(ks[0]), SIZE)
            r = self.tmp(Ty('rec', [self.unit.types.canon(repr_c(et))], 'vector', f'vector<{repr_c(et)}>'), 'newarr')
            r.leaves['#len'] = cnt
            for x in ks[1:]:
                if x['kind'] in ('ImplicitValueInitExpr', 'InitListExpr'):
                    z = self.zero_elem(et)
                    for p, s in self.eng.shape(et): r.leaves['[]' + p] = z3.K(I, z[p])
            r.is_new = True
            self.ver.news.append(r.name)
            return PtrVal(r, z3.IntVal(0))
        h = self.heap(et)
        ref = h.get('#len')
        self.assume(ref >= 0)
        h.set('#len', mkadd(ref, z3.IntVal(1)))
        lv = Elem(h, ref, et)
        if self.opts.get('alive'):
            a = self.alive(h)
            self.roots['alive:' + h.name].set('[]', z3.Store(a, ref, z3.BoolVal(True)))
        tmp = self.tmp(et, 'new')
        if ks:
            self.init_into(tmp, et, ks[-1])
        else:
            self.default_init(tmp, et)
        for p, s in self.eng.shape(et):
            v = tmp.leaves.get(p)
            if v is None:
                v = self.fresh('uninit', I if isinstance(s, str) else s)
            if isinstance(v, (PtrVal, NullV)): v = self.ptr2ref(v)
            lv.set(p, v)
        return PtrVal(lv)

    def x_CXXDeleteExpr(self, n):
        p = self.rv(kids(n)[0])
        if p is NULL: return VOIDV
        if isinstance(p, PtrVal) and p.idx is not None:
            r = p.lv
            if not getattr(r, 'is_new', False): raise Unsupported('delete[] of non-allocated storage')
            if not n.get('isArray') and not n.get('isArrayAsWritten'):
                self.check('array storage released with delete[]', False, 'memory')
            self.check('no double free', z3.BoolVal(r.alive), 'memory')
            r.alive = False
            return VOIDV
        if isinstance(p, PtrVal) and isheap(p.lv):
            h = p.lv.base; ref = p.lv.idx
            if self.opts.get('alive'):
                if self.branch(mkeq(ref, z3.IntVal(-1))): return VOIDV
                a = self.alive(h)
                self.check('deleted object is alive (no double free)', mkand(ref >= 0, ref < h.get('#len'), z3.Select(a, ref)), 'memory')
                self.roots['alive:' + h.name].set('[]', z3.Store(a, ref, z3.BoolVal(False)))
            return VOIDV
        raise Unsupported('delete')

    # ---- calls
    def x_CallExpr(self, n):
        ks = kids(n)
        c = strip(ks[0])
        d = self.eng.callee(n)
        if d is not None and d.get('kind') in FUNCS:
            args = self.eval_args(d, ks[1:], n)
            return self.call(d, None, args, n)
        if c['kind'] == 'DeclRefExpr':
            from . import stdlib
            return stdlib.call(self, n, c['referencedDecl'].get('name'), ks[1:], c)
        if c['kind'] == 'MemberExpr':
            return self.x_CXXMemberCallExpr(n)
        raise Unsupported(f'call of {c["kind"]}')

    def x_CXXMemberCallExpr(self, n):
        ks = kids(n)
        m = strip(ks[0])
        if m['kind'] != 'MemberExpr': raise Unsupported('member call')
        bn = kids(m)[0]
        d = self.unit.byid.get(m.get('referencedMemberDecl'))
        b = self.ev(bn)
        if m.get('isArrow'):
            if isinstance(b, LV): b = self.load(b, self.T(bn))
            b = self.deref(b)
        if isinstance(b, PtrVal) and d is not None: b = self.deref(b)
        if d is not None and d.get('kind') in FUNCS:
            if not isinstance(b, LV): raise Unsupported('member call on value')
            args = self.eval_args(d, ks[1:], n)
            return self.call(d, self.as_class(b, d), args, n)
        from . import stdlib
        return stdlib.member(self, n, m['name'], b, ks[1:], bn, m)

    def as_class(self, b, d):
        c = self.unit.cls_of(d) or self.unit.cls_of(self.unit.definition(d) or d)
        if c is not None and b.ty.name != c.name:
            return Cast(b, Ty('rec', [], c.name.split('<')[0], c.name))
        return b

    def x_CXXOperatorCallExpr(self, n):
        ks = kids(n)
        d = self.eng.callee(n)
        if d is not None and d.get('kind') in FUNCS:
            dd = self.unit.definition(d) or d
            if d.get('kind') == 'CXXMethodDecl':
                b = self.ev(ks[1])
                if isinstance(b, PtrVal): b = self.deref(b)
                if not isinstance(b, LV): raise Unsupported('operator on value')
                rest = ks[2:]
                if d.get('name') in ('operator++', 'operator--') and len(rest) > len(self.unit.params(d)): rest = []
                args = self.eval_args(d, rest, n)
                return self.call(d, self.as_class(b, d), args, n)
            args = self.eval_args(d, ks[1:], n)
            return self.call(d, None, args, n)
        c = strip(ks[0])
        if c['referencedDecl'].get('name') == 'operator()' and '(lambda' in repr(self.T(ks[1])): return self.direct_closure(n, ks)
        from . import stdlib
        return stdlib.operator(self, n, c['referencedDecl'].get('name'), ks[1:])

    # -------------------------------------------------------- statements
    def stmt(self, n):
        k = n['kind']
        if n.get('_line'): self.cur = n
        m = getattr(self, 's_' + k, None)
        if m is not None: return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        cuts = getattr(self.ver.contract, 'cuts', None) if len(self.frames) == 1 and self.entry is not None and n is body(self.frames[0].decl) else None
        j = 0
        for c in kids(n):
            self.stmt(c)
            if cuts and c['kind'] == 'IfStmt':
                self.join(j, cuts); j += 1

    def join(self, j, cuts):
        """join point after the j-th top-level if: every path establishes the stated facts; one path goes on, from those facts and the facts at
        function entry alone, with everything written since entry unknown"""
        self.flush_text()
        c = self.ver.ctx
        for nm, g in named(cuts(c, j)): self.check(f'join {j}: {nm}', g, 'inv')
        if self.ver.joins.setdefault(j, self.trace) != self.trace: raise PathEnd()
        facts, seen, ghosts, exw, serial = self.entry
        self.facts = list(facts); self.seen = set(seen); self.ghosts = dict(ghosts); self.exw = list(exw)
        self.qs = z3.Solver(); self.qs.set('rlimit', 60000); self.qs.set('random_seed', 0)
        self.pending = [f for f in facts if not has_quant(f)]
        for h in self.heaps.values(): self.assume(h.get('#len') >= 0)
        top = {d['id'] for x in kids(body(self.frames[0].decl)) if x['kind'] == 'DeclStmt' for d in kids(x) if d['kind'] == 'VarDecl'}
        named_ = {id(v) for k, v in self.frames[0].vars.items() if k in top}
        for rn, p in sorted(self.logs[0][1]): self.havoc(rn, p)
        for rn, r in list(self.roots.items()):
            if r.serial <= serial or rn.startswith('heap:'): continue
            for p in list(r.leaves):
                v = r.leaves[p]
                if isinstance(v, (PtrVal, NullV)) or not z3.is_expr(v):
                    if id(r) in named_: raise Unsupported(f'pointer {rn}{p} alive at a join')
                    continue
                self.havoc(rn, p)
        for nm, g in named(cuts(c, j)): self.assume(g)

    def flush_text(self):
        if self.__dict__.get('outpend'):
            from . import text
            text.flush(self)

    def s_NullStmt(self, n): pass
    def s_StaticAssertDecl(self, n): pass

    def s_DeclStmt(self, n):
        for v in kids(n):
            if v['kind'] == 'VarDecl': self.var_decl(v)
            elif v['kind'] in ('TypedefDecl', 'TypeAliasDecl'): self.unit.types.local_alias(v['name'], v['type'].get('desugaredQualType') or v['type']['qualType'])
            elif v['kind'] in ('StaticAssertDecl', 'TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'CXXRecordDecl', 'EnumDecl', 'UsingDirectiveDecl', 'EmptyDecl'): pass
            else: raise Unsupported(f'declaration {v["kind"]}')

    def var_decl(self, v):
        t = self.T(v)
        fr = self.frames[-1]
        ini = kids(v)
        ini = ini[-1] if ini else None
        if v.get('storageClass') == 'static':
            g = self.globals.get(v['id'])
            if g is None:
                g = self.new_root('static:' + v.get('name', ''), t); g.serial = 0
                self.globals[v['id']] = g
                self.init_into(g, t, ini)
                self.assumption('function-local statics hold their initial constants') if 'const' in v['type']['qualType'] else None
            fr.bind(v, g)
            return
        if t.k == 'ref':
            if ini is None: raise Unsupported('reference without initialiser')
            x = self.ev(ini)
            if not isinstance(x, LV):
                r = self.new_root(self.fkey(fr, v), t.a)
                self.store(r, x, t.a); x = r
            fr.bind(v, x)
            return
        if t.k == 'rec' and ('(lambda' in t.name):
            x = self.ev(ini)
            r = self.new_root(self.fkey(fr, v), t); r.leaves[''] = x
            fr.bind(v, r); return
        r = self.new_root(self.fkey(fr, v), t)
        fr.bind(v, r)
        if ini is not None:
            self.init_into(r, t, ini)
        else:
            if t.k == 'arr' and t.n is None: raise Unsupported('variable length array')
            self.default_init(r, t)

    def s_ReturnStmt(self, n):
        ks = kids(n)
        if not ks: raise Ret(VOIDV)
        fr = self.frames[-1]
        rt = self.ret_type(fr.decl)
        if rt.k == 'ref':
            v = self.ev(ks[0])
            if not isinstance(v, LV):
                r = self.tmp(rt.a); self.store(r, v, rt.a); v = r
            raise Ret(v)
        v = self.rv(ks[0])
        if isinstance(v, LV):
            if self.eng.isscalar(rt): v = self.load(v, rt)
            else:
                r = self.tmp(rt, 'ret'); self.copy(r, v, rt); v = r
        elif rt.k == 'real': v = toreal(iv(v))
        elif rt.k == 'rec' and rt.n == 'complex': v = tocpx(v)
        raise Ret(v)

    def ret_type(self, d):
        q = d['type'].get('desugaredQualType') or d['type']['qualType']
        # return type is the prefix before the parameter list
        depth = 0
        for i, ch in enumerate(q):
            if ch == '<': depth += 1
            elif ch == '>': depth -= 1
            elif ch == '(' and depth == 0:
                s = q[:i]; break
        else:
            return VOID
        if s.strip() == 'auto' and '->' in q: s = q.rsplit('->', 1)[1]
        t = self.unit.types.parse(s)
        return self.resolve(t, d)

    def resolve(self, t, d):
        """member typedef names appearing in return types"""
        if t.k == 'rec' and t.name.startswith(('enable_if<', 'std::enable_if<')) and t.name.endswith('::type'): return VOID
        if t.k == 'rec' and t.name not in self.unit.classes and t.n not in STD:
            al = self.typedef(t.name, self.unit.cls_of(d))
            if al is not None: return al
        if t.k in ('ref', 'ptr'):
            return Ty(t.k, self.resolve(t.a, d))
        if t.k == 'arr': return Ty('arr', self.resolve(t.a, d), t.n)
        return t

    def typedef(self, name, c):
        name = name.split('::')[-1]
        seen = 0
        while c is not None and seen < 5:
            for x in c.node.get('inner', ()) if c.node else ():
                if x.get('kind') in ('TypedefDecl', 'TypeAliasDecl') and x.get('name') == name:
                    return self.unit.types.of(x)
            c = self.eng.cls(c.bases[0]) if c.bases else None
            seen += 1
        return None

    def s_IfStmt(self, n):
        ks = [c for c in n.get('inner', ()) if c.get('kind')]
        if n.get('hasInit'): raise Unsupported('if with initialiser')
        if n.get('hasVar'):
            self.stmt(ks[0]); ks = ks[1:]
        c = self.cond(ks[0])
        if self.branch(c): self.stmt(ks[1])
        elif len(ks) > 2: self.stmt(ks[2])

    def s_BreakStmt(self, n): raise Brk()
    def s_ContinueStmt(self, n): raise Cont()

    def s_SwitchStmt(self, n):
        ks = kids(n)
        v = self.rv(ks[0]); b = ks[-1]
        items = []          # flatten: (labels, stmt)
        def flat(x, labels):
            if x['kind'] == 'CaseStmt':
                kk = kids(x)
                return flat(kk[-1], labels + [self.rv(kk[0])])
            if x['kind'] == 'DefaultStmt':
                return flat(kids(x)[-1], labels + ['default'])
            items.append((labels, x))
        for x in kids(b): flat(x, [])
        start = None; deflt = None
        for i, (ls, _) in enumerate(items):
            for l in ls:
                if isinstance(l, str): deflt = i
                elif start is None and self.branch(mkeq(v, l)): start = i; break
            if start is not None: break
        if start is None:
            for i, (ls, _) in enumerate(items):
                if 'default' in [l for l in ls if isinstance(l, str)]: deflt = i
            start = deflt
        if start is None: return
        try:
            for ls, st in items[start:]: self.stmt(st)
        except Brk:
            return

    def s_ForStmt(self, n):
        inner = n['inner']
        init, cv, cond, inc, bod = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init.get('kind'): self.stmt(init)
        self.loop(n, cond if cond.get('kind') else None, inc if inc.get('kind') else None, bod, False)

    def s_WhileStmt(self, n):
        ks = [c for c in n['inner'] if c.get('kind')]
        self.loop(n, ks[-2], None, ks[-1], False)

    def s_DoStmt(self, n):
        ks = kids(n)
        self.loop(n, ks[1], None, ks[0], True)

    def s_CXXForRangeStmt(self, n):
        ks = [c for c in n['inner'] if c.get('kind')]
        bod = ks[-1]; var = ks[-2]; inc = ks[-3]; cond = ks[-4]
        for d in ks[:-4]: self.stmt(d)
        self.loop(n, cond, inc, bod, False, var)

    def s_CXXTryStmt(self, n):
        ks = kids(n)
        try:
            self.stmt(ks[0])
        except CppThrow as e:
            for c in ks[1:]:
                cc = [x for x in c.get('inner', ()) if x.get('kind')]
                if cc and cc[0]['kind'] == 'VarDecl':
                    t = self.T(cc[0]); t = t.a if t.k == 'ref' else t
                    if self.exc_matches(e.cls, t.name):
                        self.stmt(cc[-1]); return
                elif cc:
                    self.stmt(cc[-1]); return
            raise

    def exc_matches(self, cls, want):
        seen = [cls]
        while seen:
            c = seen.pop()
            if c == want: return True
            k = self.unit.classes.get(c)
            if k: seen += [b.name for b in k.bases]
        return want == 'exception'

    # -------------------------------------------------------- loops
    def loop(self, *a, **k):
        d = len(self.loopstk)
        try: return self._loop(*a, **k)
        finally: del self.loopstk[d:]

    def _loop(self, n, cond, inc, bod, dowhile, rangevar=None):
        key = (self.frames[-1].key, n['id'])
        spec = self.ver.loopspec(key)
        if spec is None:
            self.loopstk.append(LoopCtx(self, None, n, False))
            return self.unroll(n, cond, inc, bod, dowhile, rangevar)
        self.flush_text()
        L = LoopCtx(self, spec, n)
        self.loopstk.append(L)
        tag = f'loop {self.ver.loopno(key)}'
        line = n.get('_line')
        for nm, g in named(spec.inv(L)):
            self.check(f'{tag} invariant holds on entry: {nm}', g, 'inv-init', line)
        W = self.ver.W.setdefault(key, set())
        # havoc
        entry_serial = self.serial
        for (rn, p) in sorted(W):
            self.havoc(rn, p)
        L.havoced = True
        for nm, g in named(spec.inv(L)):
            self.assume(g)
        log = (entry_serial + 1, set())
        var0 = spec.var(L) if spec.var else None
        if var0 is not None:
            var0 = var0 if isinstance(var0, tuple) else (var0,)
        self.logs.append(log)
        try:
            brk = False
            if not dowhile and cond is not None:
                if not self.branch(self.cond(cond)):
                    return
            if spec.body: self.assume(spec.body(L))
            if spec.start:
                for nm, g in named(spec.start(L)): self.check(f'{tag} step start lemma: {nm}', g, 'lemma', line)
            try:
                if rangevar is not None: self.stmt(rangevar)
                self.stmt(bod)
            except Cont:
                pass
            except Brk:
                return
            if inc is not None: self.ev(inc)
            if dowhile and not self.branch(self.cond(cond)):
                return
            self.cur = n
            self.flush_text()
            if spec.end:
                for nm, g in named(spec.end(L)): self.check(f'{tag} step lemma: {nm}', g, 'lemma', line)
            for nm, g in named(spec.inv(L)):
                self.check(f'{tag} invariant preserved: {nm}', g, 'inv', line)
            if var0 is not None:
                v1 = spec.var(L)
                v1 = v1 if isinstance(v1, tuple) else (v1,)
                dec = z3.BoolVal(False)
                for a, b in zip(reversed(v1), reversed(var0)):
                    dec = mkor(mkand(b >= 0, a < b), mkand(mkeq(a, b), dec))
                self.check(f'{tag} variant decreases (termination)', dec, 'variant', line)
            self.ver.newW(key, log[1])
            self.ver.cover(self, tag)
            raise PathEnd()
        finally:
            self.logs.pop()

    def havoc(self, rn, p):
        r = self.roots.get(rn)
        if r is None: return
        v = r.leaves.get(p)
        if v is None and not rn.startswith('heap:'): 
            s = self.eng.leafsort(r.ty, p)
            if isinstance(s, str): return
        if isinstance(v, PtrVal):
            if v.idx is not None:
                nv = PtrVal(v.lv, self.fresh(f'{rn}{p}.idx', I))
            elif isheap(v.lv):
                nv = PtrVal(Elem(v.lv.base, self.fresh(f'{rn}{p}.ref', I), v.lv.ty))
            else:
                raise Unsupported(f'pointer {rn}{p} modified in loop')
        elif isinstance(v, NullV):
            raise Unsupported(f'pointer {rn}{p} modified in loop')
        elif isinstance(v, Closure):
            return
        else:
            s = self.eng.leafsort(r.ty, p)
            nv = self.fresh(f'{rn}{p}', s)
        r.leaves[p] = nv
        if not r.quiet: self.log_write(r, p)

    def unroll(self, n, cond, inc, bod, dowhile, rangevar):
        if dowhile and is_zero(cond):
            try: self.stmt(bod)
            except Brk: pass
            except Cont: pass
            return
        for it in range(300):
            if not (dowhile and it == 0) and cond is not None:
                c = self.cond(cond)
                c = z3.simplify(c)
                if z3.is_false(c): return
                if not z3.is_true(c):
                    if self.quick(c): pass
                    elif self.quick(mknot(c)): return
                    else: raise Unsupported(f'loop without invariant at line {n.get("_line")} of {self.ver.name}')
            try:
                if rangevar is not None: self.stmt(rangevar)
                self.stmt(bod)
            except Cont: pass
            except Brk: return
            if inc is not None: self.ev(inc)
        raise Unsupported('loop unrolled too often')


class Cast(LV):
    """same storage viewed as base/derived class"""
    def __new__(cls, lv, ty):
        o = object.__new__(cls)
        while isinstance(lv, Cast): lv = lv.base
        o.base = lv; o.ty = ty
        return o

    def __init__(self, lv, ty): pass
    def get(self, p=''): return self.base.get(p)
    def set(self, p, v): self.base.set(p, v)
    def root(self): return self.base.root()
    def __repr__(self): return repr(self.base)


def uncast(lv):
    while isinstance(lv, Cast): lv = lv.base
    return lv


def repr_c(t):
    if t.k == 'int': return {(64, False): 'unsigned long', (64, True): 'long', (32, True): 'int', (32, False): 'unsigned int'}.get((t.a, t.n), 'unsigned long')
    if t.k == 'real': return 'double'
    if t.k == 'ptr': return repr_c(t.a) + '*'
    return t.name or t.k


class _Void:
    pass


VOIDV = _Void()


def zero_of(s):
    if s == I: return z3.IntVal(0)
    if s == R: return z3.RealVal(0)
    if s == B: return z3.BoolVal(False)
    if isinstance(s, str): return NULL
    if isinstance(s, z3.ArraySortRef): return z3.K(s.domain(), zero_of(s.range()))
    raise Unsupported('zero')


class Snap:
    """immutable copy of all variables"""
    def __init__(self, run):
        self.map = {}
        self.run = run
        for nm, r in run.roots.items():
            self.map[id(r)] = (r, dict(r.leaves))
        self.cache = {}

    def lv(self, lv):
        if isinstance(lv, Field): return Field(self.lv(lv.base), lv.name, lv.ty)
        if isinstance(lv, Elem): return Elem(self.lv(lv.base), lv.idx, lv.ty)
        if isinstance(lv, Cast): return Cast(self.lv(lv.base), lv.ty)
        if isinstance(lv, CondLV): return CondLV(lv.c, self.lv(lv.a), self.lv(lv.b))
        if isinstance(lv, Root):
            c = self.cache.get(id(lv))
            if c is None:
                if id(lv) not in self.map:
                    if lv.name.startswith(('heap:', 'alive:heap:')):      # region first touched later: its initial state
                        c = self.cache[id(lv)] = FrozenRoot(self.run, lv.name, lv.ty, {}, lv)
                        return c
                    return lv
                c = FrozenRoot(self.run, lv.name, lv.ty, self.map[id(lv)][1], lv)
                self.cache[id(lv)] = c
            return c
        return lv


class FrozenRoot(Root):
    def __init__(self, run, name, ty, leaves, live):
        self.run, self.name, self.ty, self.leaves = run, name, ty, dict(leaves)
        self.frozen = True; self.quiet = True; self.alive = live.alive; self.live = live
        self.serial = 10 ** 9

    def get(self, p=''):
        v = self.leaves.get(p)
        if v is None:
            # never written before the snapshot: the initial value
            v = self.live.initial.get(p)
            if v is None:
                if self.live.leaves.get(p) is None:
                    v = self.live.get(p)
                else:
                    s = self.run.eng.leafsort(self.ty, p)
                    if (s is None or isinstance(s, str)): raise Unsupported(f'snapshot of uninitialised {self.name}{p}')
                    v = self.live.initial[p] = self.run.fresh(f'{self.name}{p}@old', s)
            self.leaves[p] = v
        return v


def named(items):
    """normalise a list of (name, formula) / formulas"""
    out = []
    if items is None: return out
    if not isinstance(items, list): items = [items]
    for i, x in enumerate(items):
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
            out.append(x)
        else:
            out.append((f'#{i}', x))
    return out


def ground_reads(t):
    """reads inside an existential goal that do not depend on the bound variable (named so that facts about them are triggered)"""
    free = {}; out = {}

    def isfree(x):
        k = x.get_id()
        if k not in free: free[k] = not z3.is_var(x) and not z3.is_quantifier(x) and all(isfree(y) for y in x.children())
        return free[k]

    def walk(x):
        if isfree(x):
            st = [x]
            while st:
                y = st.pop()
                if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_SELECT and not z3.is_array(y): out[y.get_id()] = y
                else: st.extend(y.children())
            return
        for y in x.children(): walk(y)
    walk(t)
    return list(out.values())


class LoopCtx:
    def __init__(self, run, spec, node, snap=True):
        self.run = run; self.spec = spec; self.node = node
        self.frames = list(run.frames)
        self.pre = Snap(run) if snap else None
        self.havoced = False
        self.c = run.ver.ctx
        self.this = self.c.this if self.c else None

    def lookup(self, name):
        ren = self.run.ver.renames
        for fr in reversed(self.frames):
            if name in fr.names: return fr.names[name]
            r = ren.get((self.run.unit.sig(fr.decl), name)) if fr.decl is not None and fr.decl.get('kind') in FUNCS else None
            if r and r in fr.names: return fr.names[r]
        raise Unsupported(f'loop specification refers to unknown variable {name}')

    def lv(self, name): return self.lookup(name)

    def byid(self, d):
        for fr in reversed(self.frames):
            if d['id'] in fr.vars: return fr.vars[d['id']]
        raise Unsupported('loop variable not found')

    def pos(self, up=0):
        """position of this loop (or of the up-th enclosing one): range iterator or counter"""
        if up:
            st = self.run.loopstk
            if self in st: st = st[:st.index(self) + 1]
            else: st = st + [self]
            if len(st) <= up: raise Unsupported('no enclosing loop')
            return st[-1 - up].pos()
        n = self.node
        if n['kind'] == 'CXXForRangeStmt':
            for x in kids(n):
                if x['kind'] == 'DeclStmt':
                    for d in kids(x):
                        if d.get('name', '').startswith('__begin'): return self.run.load(self.byid(d)).idx
        if n['kind'] == 'ForStmt' and n['inner'][0].get('kind') == 'DeclStmt':
            for d in kids(n['inner'][0]):
                if d['kind'] == 'VarDecl':
                    v = self.run.load(self.byid(d))
                    return v.idx if isinstance(v, PtrVal) else v
        raise Unsupported('loop without a position')

    def v(self, name):
        lv = self.lookup(name)
        return self.run.load(lv) if self.run.eng.isscalar(lv.ty) else lv

    def __getattr__(self, name):
        if name.startswith('_'): raise AttributeError(name)
        return self.v(name)

    def at_entry(self, name):
        lv = self.lookup(name)
        f = self.pre.lv(lv)
        return self.run.load(f) if self.run.eng.isscalar(lv.ty) else f
