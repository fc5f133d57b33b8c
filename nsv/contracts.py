"""Contract objects and the per-function verifier."""
import z3, time, traceback, difflib, json, os
from .core import *
from .interp import *
from .interp import VOIDV, named, kids, Snap
from .ast import Ty, body


class LoopSpec:
    def __init__(self, inv, var=None, body=None, end=None, start=None):
        self.inv = inv; self.var = var; self.body = body; self.end = end; self.start = start


class Ctx:
    """what a contract talks about"""
    def __init__(self, run, this, a, old=None, mode='call'):
        self.run = run; self.this = this; self.a = a; self.old = old; self.ret = None; self.mode = mode
        self.thrown = None
        self.memo = {}

    def v(self, i):
        x = self.a[i]
        if isinstance(x, LV) and self.run.eng.isscalar(x.ty): return self.run.load(x)
        return x

    def local(self, name):
        """local variable of the verified function (verification mode only)"""
        fr = self.frame
        ren = self.run.ver.renames.get((self.run.unit.sig(fr.decl), name))
        lv = fr.names.get(name) or fr.names.get(ren)
        if lv is None: return None
        return self.run.load(lv) if self.run.eng.isscalar(lv.ty) else lv

    def ov(self, i):
        x = self.old.a[i]
        if isinstance(x, LV) and self.run.eng.isscalar(x.ty): return self.run.load(x)
        return x


class Contract:
    def __init__(self, sig, pre=None, post=None, mod=None, ret=None, throws=None, loops=None, opts=None, setup=None,
                 alias=None, inline=(), recursive=False, note='', props=(), trusted=False, lemma=None, retinit=None, mayabort=False, driver=None, inl=False, elem=None, measure=None, onthrow=None, cuts=None, ncuts=0):
        self.sig = sig; self.pre = pre; self.post = post; self.mod = mod; self.retf = ret
        self.throws = throws or []       # list of (class, cond(c)) evaluated in the pre-state
        self.loops = loops or []
        self.opts = opts or {}
        self.setup = setup
        self.alias = alias or [{}]       # list of {argindex: 'this' | argindex}: extra verification instances
        self.inline = set(inline)
        self.recursive = recursive; self.note = note
        self.trusted = trusted
        self.retinit = retinit
        self.lemma = lemma
        self.inl = inl
        self.measure = measure; self.onthrow = onthrow
        self.cuts = cuts; self.ncuts = ncuts      # facts at the joins after the top-level ifs
        self.elem = elem                 # element of *this used by alias kind 'elem'

    # ---- use at a call site
    def apply(self, run, d, this, args, node):
        run.ver.used.add(self.sig)
        if self.trusted: run.ver.assumed.add(self.sig)
        c = Ctx(run, this, args)
        line = (node or {}).get('_line')
        cur = run.cur
        for nm, g in named(self.pre(c)) if self.pre else []:
            run.check(f'precondition of {self.sig}: {nm}', g, 'pre', line)
        if self.measure is not None and run.ver.contract.measure is not None and run.ver.contract is self:
            m = self.measure(c); m0 = self.measure(run.ver.ctx.old)
            run.check(f'recursive call decreases the measure', mkand(m >= 0, m < m0), 'termination', line)
        snap = Snap(run)
        c.old = Ctx(run, snap.lv(this) if this is not None else None, [snap.lv(x) if isinstance(x, LV) else x for x in args])
        c.old.snap = snap
        for cls, cond in self.throws:
            k = cond(c.old) if cond is not None else None
            if k is None:                      # may throw
                if run.branch(run.fresh('may_throw', B)):
                    run.ghosts['threw'] = (self.sig, cls); raise CppThrow(cls)
            elif isinstance(k, EX):
                if run.branch(run.fresh('throws', B)):
                    run.assume(k); raise CppThrow(cls)
                run.assume(exneg(k))
            elif run.branch(tobool(k)):
                raise CppThrow(cls)
        for m in (self.mod(c) if self.mod else []):
            lv, paths = m if isinstance(m, tuple) else (m, None)
            for p, s in run.eng.shape(lv.ty):
                if paths is not None and p not in paths: continue
                if isinstance(s, str):
                    v = lv.get(p)
                    if isinstance(v, PtrVal) and v.idx is not None and p == '':      # iterator moves inside its sequence
                        lv.set(p, PtrVal(v.lv, run.fresh('iter', I))); continue
                    if paths is not None:
                        if not (isinstance(v, PtrVal) and v.idx is None and isheap(v.lv)): raise Unsupported('havoc of pointer')
                        lv.set(p, PtrVal(Elem(v.lv.base, run.fresh('ptr', I), v.lv.ty)))
                    continue
                lv.set(p, run.fresh(f'{self.sig.split("(")[0].split("::")[-1]}{p}', s))
        if d['kind'] == 'CXXConstructorDecl':
            rt = None; c.ret = this
            if not self.mod:
                for p, s in run.eng.shape(this.ty):
                    if not isinstance(s, str): this.set(p, run.fresh(f'new{p}', s))
            if self.retinit: self.retinit(c)
        else:
            rt = run.ret_type(d)
            if rt.k == 'void': c.ret = VOIDV
            elif rt.k == 'ref' or self.retf is not None:
                if self.retf is None: raise Unsupported(f'contract of {self.sig} needs a result location')
                c.ret = self.retf(c)
                if isinstance(c.ret, PtrVal) and isinstance(c.ret.lv, Elem) and c.ret.idx is None and has_ite(c.ret.lv.idx):
                    i = run.fresh('object', I); run.assume(i == c.ret.lv.idx)
                    c.ret = PtrVal(Elem(c.ret.lv.base, i, c.ret.lv.ty), None)
            elif rt.k in ('int', 'real', 'bool'):
                c.ret = run.fresh('ret', {'int': I, 'real': R, 'bool': B}[rt.k])
                if rt.k == 'int' and not rt.n: run.assume(c.ret >= 0)
            elif rt.k == 'rec' and rt.n == 'complex':
                c.ret = Cpx(run.fresh('ret.re', R), run.fresh('ret.im', R))
            else:
                r = run.tmp(rt, 'res')
                for p, s in run.eng.shape(rt):
                    if not isinstance(s, str): r.leaves[p] = run.fresh(f'{r.name}{p}', s)
                c.ret = r
                if self.retinit: self.retinit(c)
        for nm, g in named(self.post(c)) if self.post else []:
            run.assume(g)
        run.cur = cur
        return c.ret if d['kind'] != 'CXXConstructorDecl' else this


class Verifier:
    """verifies one function against its contract, collecting obligations"""

    def __init__(self, eng, contract, alias=None, baseline=None):
        self.eng = eng; self.contract = contract
        self.name = contract.sig + (f' [aliased {alias}]' if alias else '')
        self.alias = alias or {}
        self.opts = dict(contract.opts)
        self.inline = contract.inline
        self.obls = []; self.done = set(); self.qcache = {}; self.keep = []
        self.trivial = 0
        self.assumptions = set(); self.trusted = set(); self.used = set(); self.assumed = set(); self.inlined = set()
        self.W = {}
        self.need_lin = False; self.need_rmul = False
        self.news = []
        self._short = {}
        self.work = []
        self.paths = 0
        self.ends = 0
        self.ctx = None
        self.renames = {}; self.fits = True
        self.baseline = baseline
        self.covers = 0
        self.error = None

    def short(self, key, name):
        k = self._short.get(key)
        if k is None:
            k = self._short[key] = f'{name}#{len(self._short)}'
        return k

    def push(self, prefix):
        self.work.append(prefix)

    def loopspec(self, key):
        n = self.loopno(key)
        if n is None or n >= len(self.contract.loops): return None
        return self.contract.loops[n]

    def loopno(self, key):
        # key = (frame key, loop node id); frame key of the top frame is ()
        for i, (path, lid, n) in enumerate(self.loops):
            if lid == key[1] and path == key[0]: return i
        for i, (path, lid, n) in enumerate(self.loops):
            if lid == key[1]: return i
        return None

    def newW(self, key, writes):
        w = self.W.setdefault(key, set())
        new = writes - w
        if new:
            w |= new
            raise Restart()

    def verify(self):
        t0 = time.time()
        d0 = self.eng.fbysig.get(self.contract.sig)
        if d0 is None:
            raise Unsupported(f'function {self.contract.sig} not found')
        d = self.eng.unit.definition(d0)
        if d is None or (body(d) is None and not any(c.get('kind') == 'CXXCtorInitializer' for c in d.get('inner', ()))):
            if d is not None and self.eng.trivial(d): pass
            else: raise Unsupported(f'function {self.contract.sig} has no body')
        self.decl = d
        self.loops = self.eng.static_loops(d)
        if len(self.loops) != len(self.contract.loops):
            # tolerate loops that will be unrolled; mismatch is reported only if specs are left over
            if len(self.loops) < len([x for x in self.contract.loops if x]):
                raise Unsupported(f'{self.contract.sig}: {len(self.contract.loops)} loop specifications, {len(self.loops)} loops in the code')
        if self.contract.cuts and len([x for x in (body(d) or {}).get('inner', ()) if x.get('kind') == 'IfStmt']) != self.contract.ncuts:
            raise Unsupported(f'{self.contract.sig}: join annotations do not fit the code')
        self.compute_renames()
        restarts = 0
        while True:
            self.obls = []; self.done = set(); self.work = [[]]; self.paths = 0; self.ends = 0; self.qcache = {}; self.trivial = 0
            self._short = {}; self.cov = {}; self.joins = {}
            try:
                while self.work:
                    p = self.work.pop()
                    self.paths += 1
                    if self.paths > 4000: raise Unsupported('too many paths')
                    self.one_path(p)
                break
            except Restart:
                restarts += 1
                if restarts > 60: raise Unsupported('loop frames do not stabilise')
        self.gen_time = time.time() - t0
        return self.obls

    def compute_renames(self):
        """local-variable renames relative to the recorded baseline declarations; does the loop structure still fit the annotations?"""
        from . import shape
        if self.baseline is None: return
        if not hasattr(self.eng, 'renames'): self.eng.renames = shape.renames(self.eng, self.baseline)
        self.renames = self.eng.renames
        self.fits = shape.fits(self.eng, self.baseline, self.contract.sig, self.renames)

    def one_path(self, prefix):
        run = Run(self, prefix)
        d = self.decl
        try:
            try:
                self.setup(run, d)
            except Infeasible:
                return
            c = self.ctx
            snap = Snap(run)
            c.old = Ctx(run, snap.lv(c.this) if c.this is not None else None, [snap.lv(x) if isinstance(x, LV) else x for x in c.a])
            c.old.snap = snap
            con = self.contract
            fr = Frame((), d, c.this)
            thrown = None
            try:
                if self.eng.trivial(d) and body(d) is None or (d.get('isImplicit')):
                    r = run.trivial_call(d, c.this, c.a)
                else:
                    # the ctx talks about the argument values at entry; by-value parameters get their own storage
                    run.bind_params(fr, d, c.a)
                    run.frames.append(fr)
                    c.frame = fr
                    if con.cuts:
                        run.entry = (list(run.facts), set(run.seen), dict(run.ghosts), list(run.exw), run.serial)
                        run.logs.append((run.serial + 1, set()))
                    r = run.run_body(d, fr)
                    run.flush_text()
                    if con.cuts: run.logs.pop()
                    run.frames.pop()
            except CppThrow as e:
                thrown = e.cls
            c.ret = c.this if d['kind'] == 'CXXConstructorDecl' else (None if thrown else r)
            if thrown:
                conds = [(cl, k) for cl, k in con.throws if run.exc_matches(thrown, cl)]
                if not conds:
                    run.check(f'no exception {thrown} escapes', False, 'throws')
                else:
                    ks = [k(c.old) if k is not None else z3.BoolVal(True) for cl, k in conds]
                    run.check(f'exception {thrown} only under its stated condition', anyof(ks), 'throws')
                if con.onthrow:
                    for nm, g in named(con.onthrow(c, thrown)): run.check(f'on {thrown}: {nm}', g, 'throws')
                run.check('no leaked array storage on exceptional exit', self.leaks(run, r=None), 'memory')
                self.ends += 1
                self.cover(run, 'throw')
                return
            if con.lemma:
                for nm, g in named(con.lemma(c)): run.check(f'lemma: {nm}', g, 'lemma')
            for cl, k in con.throws:
                if k is None: continue
                e = k(c.old)
                run.check(f'normal return only when {cl} is not required', exneg(e) if isinstance(e, EX) else mknot(tobool(e)), 'throws')
            post = con.post(c) if con.post else []
            if con.retf and run.ret_type(d).k in ('ref', 'ptr') and isinstance(c.ret, LV):
                want = con.retf(c)
                if not isinstance(want, CondLV):
                    run.check('returned reference designates the specified object', z3.BoolVal(lv_eq(run, c.ret, want)) if isinstance(lv_eq(run, c.ret, want), bool) else lv_eq(run, c.ret, want), 'post')
                else:
                    a, b = lv_eq(run, c.ret, want.a), lv_eq(run, c.ret, want.b)
                    run.check('returned reference designates the specified object', z3.If(want.c, tobool(a), tobool(b)), 'post')
            for nm, g in named(post):
                run.check(f'postcondition: {nm}', g, 'post')
            self.frame(run, c, snap)
            run.check('no leaked array storage', self.leaks(run, c.ret), 'memory')
            self.ends += 1
            self.cover(run)
        except PathEnd:
            return
        except Infeasible:
            return

    def cover(self, run, what='end'):
        """vacuity guard: the facts of this path must not be refutable"""
        l = self.cov.setdefault(what, [])
        if len(l) < 6: l.append((run, len(run.facts)))

    def leaks(self, run, r):
        bad = [n for n, x in run.roots.items() if getattr(x, 'is_new', False) and x.alive]
        return z3.BoolVal(not bad)

    def frame(self, run, c, snap):
        """everything reachable from the arguments and not listed in modifies is unchanged"""
        con = self.contract
        allowed = set()
        mods = con.mod(c) if con.mod else []
        for m in mods:
            lv, paths = m if isinstance(m, tuple) else (m, None)
            pre, root = lvpath(lv)
            if root is None: continue
            for p, s in run.eng.shape(lv.ty):
                if paths is None or p in paths: allowed.add((root.name, pre + p))
        if self.decl['kind'] == 'CXXConstructorDecl' and c.this is not None:
            pre, root = lvpath(c.this)
            for p, s in run.eng.shape(c.this.ty): allowed.add((root.name, pre + p))
        for nm, (root, leaves) in [(r.name, (r, l)) for r, l in snap.map.values()]:
            for p, v in root.leaves.items():
                if (nm, p) in allowed: continue
                if nm.startswith(('global:', 'static:')): continue
                o = leaves.get(p)
                if o is None: o = root.initial.get(p)
                if o is None:
                    run.check(f'frame: {nm}{p} is not modified', False, 'frame'); continue
                if eqleaf(o, v): continue
                if z3.is_expr(o) and z3.is_expr(v):
                    run.check(f'frame: {nm}{p} is not modified', o == v, 'frame')
                else:
                    e = run.ptr_eq(o, v)
                    run.check(f'frame: {nm}{p} is not modified', e, 'frame')

    def setup(self, run, d):
        cls = self.eng.unit.cls_of(d)
        if cls is None:
            d2 = self.eng.fbysig.get(self.contract.sig)
            cls = self.eng.unit.cls_of(d2)
        this = None
        isstatic = d.get('storageClass') == 'static' or (self.eng.fbysig[self.contract.sig].get('storageClass') == 'static')
        if cls is not None and not isstatic:
            ty = Ty('rec', [], cls.name.split('<')[0], cls.name)
            if '<' in cls.name: ty = self.eng.unit.types.parse(cls.name)
            this = run.new_root('this', ty); this.serial = 0
        args = []
        ps = self.eng.unit.params(d)
        for i, p in enumerate(ps):
            t = self.eng.unit.types.of(p)
            t = run.resolve(t, d)
            nm = f'arg{i}'
            al = self.alias.get(i)
            if al == 'elem':
                args.append(self.contract.elem(run, this)); continue
            if isinstance(al, tuple):        # ('is', value): one case of an exhaustive case split over this argument
                args.append(z3.IntVal(al[1])); continue
            if al in ('null', 'ref'):        # pointer argument: null, or to an object of its own
                r = run.new_root(nm, t); r.serial = 0
                if al == 'null': r.leaves[''] = NULL
                else:
                    q = run.new_root(nm + '*', run.resolve(t.a, d)); q.serial = 0
                    if run.eng.isscalar(q.ty):
                        v0 = run.load(q)
                        if q.ty.k == 'int' and not q.ty.n: run.assume(v0 >= 0)
                    r.leaves[''] = PtrVal(q, None)
                args.append(r); continue
            if al is not None:
                args.append(this if al == 'this' else args[al]); continue
            if t.k == 'ref':
                r = run.new_root(nm, run.resolve(t.a, d)); r.serial = 0
                args.append(r)
            elif t.k in ('int', 'real', 'bool'):
                x = run.fresh(nm, {'int': I, 'real': R, 'bool': B}[t.k])
                if t.k == 'int' and not t.n: run.assume(x >= 0)
                args.append(x)
            elif t.k == 'rec' and t.n == 'complex':
                args.append(Cpx(run.fresh(nm + '.re', R), run.fresh(nm + '.im', R)))
            else:
                r = run.new_root(nm, t); r.serial = 0
                if t.k == 'ptr' and not p.get('name'): r.leaves[''] = NULL   # unnamed tag parameter (enable_if), never read
                args.append(r)
        c = Ctx(run, this, args, mode='verify')
        self.ctx = c
        for r in list(run.roots.values()):
            try: shp = self.eng.shape(r.ty)
            except Unsupported: continue
            for p, s in shp:
                if not isinstance(s, str) and not (r is this and d['kind'] == 'CXXConstructorDecl'):
                    r.get(p)
                    if p.endswith('#len') and not isinstance(s, z3.ArraySortRef): run.assume(r.leaves[p] >= 0)
        if self.contract.setup: self.contract.setup(c)
        if self.contract.pre:
            for nm, g in named(self.contract.pre(c)): run.assume(g)
        split = [a for a in self.contract.alias if any(isinstance(x, tuple) for x in a.values())]
        if split and split[0] == self.alias and self.paths == 1:
            # the cases must cover the precondition: checked once, with a symbolic argument
            (i,) = [k for k, x in split[0].items() if isinstance(x, tuple)]
            keep, nf = args[i], list(run.facts)
            x = run.fresh(f'case{i}', I)
            c.a[i] = x
            if c.old is not None: c.old.a[i] = x
            for nm, g in named(self.contract.pre(c)): run.facts.append(tobool(g))
            run.facts.append(x >= 0)
            run.check('the cases of the argument cover its precondition', mkor(*[x == a[i][1] for a in split]), 'split')
            run.facts[:] = nf
            c.a[i] = keep
            if c.old is not None: c.old.a[i] = keep
        for r in run.roots.values(): r.serial = 0


def lvpath(lv):
    p = ''
    while True:
        if isinstance(lv, Cast): lv = lv.base
        elif isinstance(lv, Field): p = '.' + lv.name + p; lv = lv.base
        elif isinstance(lv, Elem): p = '[]' + p; lv = lv.base
        elif isinstance(lv, Root): return p, lv
        else: return p, None


def lv_eq(run, a, b):
    a, b = uncast(a), uncast(b)
    if lv_same(a, b): return True
    if isinstance(a, CondLV):
        return z3.If(a.c, tobool(lv_eq(run, a.a, b)), tobool(lv_eq(run, a.b, b)))
    if isinstance(a, Elem) and isinstance(b, Elem):
        k = lv_eq(run, a.base, b.base)
        return mkand(tobool(k), mkeq(a.idx, b.idx))
    if isinstance(a, Field) and isinstance(b, Field) and a.name == b.name: return lv_eq(run, a.base, b.base)
    return False


def has_ite(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if not z3.is_expr(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE): return True
        st += x.children()
    return False


def anyof(ks):
    """disjunction of conditions, some of them existential"""
    ex = [k for k in ks if isinstance(k, EX)]
    if len(ks) == 1: return ks[0]
    if not ex: return mkor(*[tobool(k) for k in ks])
    rest = [tobool(k) for k in ks if not isinstance(k, EX)]
    if any(e.n != ex[0].n for e in ex): raise Unsupported('disjunction of existentials')
    w = [t for e in ex for t in (e.wit or [])] or [(0,) * ex[0].n] * bool(rest)
    return EX(ex[0].n, lambda *v: mkor(*[tobool(e.body(*v)) for e in ex], *rest), w, ex[0].pats)


def exneg(e):
    """negation of an existential"""
    return FA(e.n, lambda *v: z3.Not(tobool(e.body(*v))), e.pats)


def local_decls(unit, f):
    out = []

    def walk(n):
        if n.get('kind') in ('VarDecl', 'ParmVarDecl') and n.get('name') and not n['name'].startswith('__'):
            out.append((n['name'], repr(unit.types.of(n))))
        for c in n.get('inner', ()): walk(c)
    for c in f.get('inner', ()):
        if c.get('kind') != 'CXXCtorInitializer' and 'Comment' not in c.get('kind', ''): walk(c)
    return out
