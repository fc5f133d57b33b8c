"""Front end: clang-18 JSON AST of the real headers -> indexed declarations."""
import json, subprocess, os, re, tempfile, hashlib

REPO = os.environ.get('NSV_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'


class FrontEndError(Exception):
    pass


def run_clang(driver_src, extra=()):
    d = tempfile.mkdtemp(prefix='nsv_')
    try:
        f = os.path.join(d, 'driver.cpp')
        open(f, 'w').write(driver_src)
        cmd = [CLANG, '-std=c++11', '-I', REPO + '/src/lib', '-I', REPO + '/src/objloader', '-fsyntax-only', '-Wno-everything',
               '-ferror-limit=0', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=NS::', *extra, f]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return p.stdout, p.stderr, p.returncode
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'a', 'n', 'name')

    def __init__(self, k, a=None, n=None, name=None):
        self.k, self.a, self.n, self.name = k, a, n, name

    def __repr__(self):
        if self.k == 'rec':
            return self.name
        if self.k == 'int':
            return ('i' if self.n else 'u') + str(self.a)
        if self.k in ('ptr', 'ref'):
            return repr(self.a) + ('*' if self.k == 'ptr' else '&')
        if self.k == 'arr':
            return f'{self.a!r}[{self.n}]'
        return self.k

    def __eq__(self, o):
        return repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


INTS = {'unsigned long': (64, False), 'long': (64, True), 'int': (32, True), 'unsigned int': (32, False),
        'unsigned char': (8, False), 'signed char': (8, True), 'char': (8, True), 'short': (16, True),
        'unsigned short': (16, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'size_t': (64, False), 'Index': (64, False), 'Dimension': (64, False), 'size_type': (64, False), 'difference_type': (64, True),
        'uint32': (32, False), 'int32': (32, True), 'int8': (8, True), 'uint8': (8, False), 'uint64': (64, False), 'int64': (64, True),
        'int16': (16, True), 'uint16': (16, False), '__size_t': (64, False), 'ptrdiff_t': (64, True),
        'uint32_t': (32, False), 'int8_t': (8, True), 'int32_t': (32, True)}
REALS = {'double', 'float', 'long double'}
_STR = Ty('rec', ['signed char'], 'basic_string', 'string')
_SIT = Ty('rec', ['signed char*', 'string'], '__normal_iterator', '__normal_iterator<signed char*,string>')
TEXT = {'string': _STR, 'basic_string<char>': _STR, 'string::const_iterator': _SIT, 'string::iterator': _SIT}
for _x in ('istringstream', 'stringstream', 'istream', 'ifstream', 'ios'):
    for _y in (_x, f'basic_{_x}<char>'): TEXT[_y] = Ty('rec', [], 'istream', 'istream')
for _x in ('ofstream', 'ostringstream', 'ostream'):
    for _y in (_x, f'basic_{_x}<char>'): TEXT[_y] = Ty('rec', [], 'ostream', 'ostream')
VOID = Ty('void'); BOOL = Ty('bool'); REAL = Ty('real'); SIZE = Ty('int', 64, False); INT = Ty('int', 32, True)


def norm(s):
    s = re.sub(r'\b(const|volatile|class|struct|typename|enum)\b', ' ', s)
    s = re.sub(r'\b(NS|std|__gnu_cxx|__cxx11|__1)::', '', s)
    s = re.sub(r'noexcept(\(true\))?', '', s)
    s = re.sub(r'\s+', ' ', s).strip()
    s = re.sub(r'\s*([<>,&*\[\]()])\s*', r'\1', s)
    while True:
        k = s.find(',allocator<')
        if k < 0: break
        e = k + len(',allocator<'); d = 1
        while d and e < len(s):
            d += (s[e] == '<') - (s[e] == '>'); e += 1
        s = s[:k] + s[e:]
    s = s.replace('UL>', '>')
    return s


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    if cur: out.append(cur)
    return out


class Types:
    def __init__(self):
        self.alias = {}
        self.cache = {}

    def parse(self, s):
        t = self.cache.get(s)
        if t is None:
            t = self.cache[s] = self._p(norm(s))
        return t

    def local_alias(self, name, target):
        """a typedef inside a function"""
        t = self.parse(target)
        if t.k == 'rec' and not t.a and t.name == name: return
        if self.alias.get(name) != t:
            self.alias[name] = t; self.cache.clear()

    def _p(self, s):
        s = s.strip()
        if s.endswith('&&'): return Ty('ref', self._p(s[:-2]))
        if s.endswith('&'): return Ty('ref', self._p(s[:-1]))
        if s.endswith('*'): return Ty('ptr', self._p(s[:-1]))
        m = re.match(r'^(.*?) ?\(&+\) ?((\[\d*\])+)$', s)
        if m: return Ty('ref', self._p(m.group(1) + m.group(2)))
        m = re.match(r'^(.*?)((\[\d*\])+)$', s)
        if m:
            dims = re.findall(r'\[(\d*)\]', m.group(2))
            t = self._p(m.group(1))
            for d in reversed(dims):
                t = Ty('arr', t, int(d) if d else None)
            return t
        if s.startswith('enable_if<') and s.endswith('::type'):
            a = split_args(s[len('enable_if<'):-len('>::type')])
            return self._p(a[1]) if len(a) > 1 else VOID
        if '(' in s and not s.startswith('(lambda') and '(anonymous' not in s:
            return Ty('fn', s)
        if s in INTS: return Ty('int', *INTS[s])
        if s in REALS: return REAL
        if s == 'bool': return BOOL
        if s == 'void': return VOID
        if s in ('nullptr_t',): return Ty('null')
        if s.startswith('MeshVertexFlags'): return INT
        if s in TEXT: return TEXT[s]
        if s.startswith('fpos<') or s in ('streampos', 'streamoff', 'pos_type', 'off_type'): return Ty('int', 64, True)
        if '<' in s and s.endswith('>') and not s.startswith('(lambda'):
            i = s.index('<')
            args = [self.canon(a) for a in split_args(s[i + 1:-1])]
            base = s[:i]
            if base == 'DynamicVector': base, args = 'Vector', [args[0], f'vector<{args[0]}>']
            if base == 'FixedVector': base, args = 'Vector', [args[0], f'array<{args[0]},{args[1]}>']
            if base in ('dynamic_container_t',): base, args = 'vector', [args[0]]
            if base in ('fixed_container_t',): base = 'array'
            if base in ('vector', 'initializer_list'): args = args[:1]
            if base == 'FixedMatrix' or True:
                return Ty('rec', args, base, f"{base}<{','.join(args)}>")
        if s in self.alias:
            return self.alias[s]
        return Ty('rec', [], s, s)

    def canon(self, a):
        a = a.strip()
        if re.match(r'^-?\d+', a):
            return re.match(r'^-?\d+', a).group(0)
        t = self._p(a)
        if t.k == 'int':
            for k, v in INTS.items():
                if v == (t.a, t.n): return k
        if t.k == 'real': return a if a in REALS else 'double'
        if t.k == 'rec': return t.name
        if t.k == 'ptr': return self.canon(a[:-1]) + '*'
        return a

    def of(self, node):
        t = node.get('type') or {}
        s = t.get('desugaredQualType') or t.get('qualType') or 'void'
        return self.parse(s)


class Cls:
    def __init__(self, name):
        self.name = name; self.bases = []; self.fields = []; self.methods = []; self.consts = {}; self.node = None
        self.fieldinit = {}


class Unit:
    """Indexed AST of one driver translation unit."""

    def __init__(self, driver):
        self.driver = driver
        out, err, rc = run_clang(driver)
        self.errors = err if rc else ''
        if rc and not out.strip():
            raise FrontEndError(err[:2000])
        self.types = Types()
        dec = json.JSONDecoder()
        i = 0
        self.tops = []
        while True:
            j = out.find('{', i)
            if j < 0: break
            o, i = dec.raw_decode(out, j)
            self.tops.append(o)
        self.byid = {}
        self.parent_cls = {}
        self.bymangled = {}
        self.classes = {}
        self.funcs = []          # definitions with bodies
        self.template_ctx = {}
        seen = set()
        for o in self.tops:
            self._consts(o)
        for o in self.tops:
            self._lines(o)
        for o in self.tops:
            self._index(o, None, False)
        # nested classes are printed without their enclosing class in some places
        short = {}
        for k in self.classes:
            i = k.rfind('>::')
            if i > 0 and k[i + 3:].isidentifier(): short.setdefault(k[i + 3:], []).append(k)
        for k, v in short.items():
            if len(v) == 1 and k not in self.classes and k not in self.types.alias:
                self.types.alias[k] = Ty('rec', [], v[0], v[0]); self.types.cache.clear()
        # methods defined out-of-line in non-template classes: map via previousDecl
        for f in list(self.byid.values()):
            if f.get('kind') in FUNCS and has_body(f) and f.get('previousDecl') in self.byid:
                p = self.byid[f['previousDecl']]
                if id(p) in self.parent_cls and id(f) not in self.parent_cls:
                    self.parent_cls[id(f)] = self.parent_cls[id(p)]
        for f in self.byid.values():
            if f.get('kind') in FUNCS and has_body(f) and f.get('mangledName') and f.get('_inst'):
                self.bymangled.setdefault(f['mangledName'], f)
                self.funcs.append(f)

    def _member_ty(self, t, c):
        """resolve a class typedef used as the element type of a member array or pointer"""
        if t.k in ('arr', 'ptr', 'ref'): return Ty(t.k, self._member_ty(t.a, c), t.n)
        if t.k == 'rec' and not t.a and c.node is not None:
            for x in c.node.get('inner', ()):
                if x.get('kind') in ('TypedefDecl', 'TypeAliasDecl') and x.get('name') == t.name: return self.types.of(x)
        return t

    def _consts(self, root):
        """write the value of static integral constants of a class template specialisation into the types that name them"""
        stack = [root]
        while stack:
            n = stack.pop()
            inner = n.get('inner', ())
            if n.get('kind') == 'ClassTemplateSpecializationDecl':
                vals = {}
                for x in inner:
                    if x.get('kind') == 'VarDecl' and x.get('constexpr') and x.get('inner'):
                        v = const_int([y for y in x['inner'] if 'Comment' not in y.get('kind', '')][-1])
                        if v is not None: vals[x['name']] = v
                if vals:
                    pat = re.compile(r'(?<![\w:])(' + '|'.join(map(re.escape, vals)) + r')\b')
                    sub = [n]
                    while sub:
                        m = sub.pop()
                        t = m.get('type')
                        if isinstance(t, dict):
                            for k in ('qualType', 'desugaredQualType'):
                                if k in t: t[k] = pat.sub(lambda g: str(vals[g.group(1)]), t[k])
                        sub.extend(c for c in m.get('inner', ()) if isinstance(c, dict))
            stack.extend(c for c in inner if isinstance(c, dict))

    # record file/line on nodes (clang JSON omits repeated values)
    def _lines(self, root):
        st = {'file': None, 'line': None}

        def loc(l):
            if not l: return
            if 'spellingLoc' in l:
                loc(l['spellingLoc'])
            if 'expansionLoc' in l:
                loc(l['expansionLoc']); return
            if 'file' in l: st['file'] = l['file']
            if 'line' in l: st['line'] = l['line']

        stack = [root]
        while stack:
            n = stack.pop()
            loc(n.get('loc'))
            r = n.get('range')
            if r:
                loc(r.get('begin'))
                n['_line'] = st['line']; n['_file'] = st['file']
                loc(r.get('end'))
            for c in reversed(n.get('inner', ())):
                stack.append(c)

    def _index(self, n, cls, tmpl):
        k = n.get('kind')
        if not k: return
        i = n.get('id')
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            if i: self.byid.setdefault(i, n)
            first = True
            for c in n.get('inner', ()):
                ck = c.get('kind')
                if ck in ('CXXRecordDecl', 'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl') and first:
                    # the pattern itself
                    self._index(c, cls, True)
                    first = False
                else:
                    self._index(c, cls, tmpl)
            return
        if k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl') and not tmpl and k != 'ClassTemplatePartialSpecializationDecl':
            name = n.get('name', '')
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for c in n.get('inner', ()):
                    if c.get('kind') == 'TemplateArgument':
                        args.append(self._targ(c))
                name = f"{name}<{','.join(args)}>"
            elif cls is not None:
                name = cls.name + '::' + name
            if i and (n.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in n.get('inner', ()))):
                c = self.classes.get(name)
                if c is None:
                    c = Cls(name); self.classes[name] = c
                    c.node = n
                    for b in n.get('bases', ()):
                        t = b['type']; c.bases.append(self.types.parse(t.get('desugaredQualType') or t['qualType']))
                self.byid.setdefault(i, n)
                n['_cls'] = c
                for x in n.get('inner', ()):
                    self._index(x, c, False)
                return
            elif i:
                self.byid.setdefault(i, n)
                for x in n.get('inner', ()):
                    self._index(x, self.classes.get(name) or Cls(name), tmpl)
                return
        if k == 'FieldDecl' and cls is not None and not tmpl:
            if i not in self.byid:
                nm = n.get('name', '')
                if nm not in [f[0] for f in cls.fields]:
                    cls.fields.append((nm, self._member_ty(self.types.of(n), cls)))
                    if n.get('hasInClassInitializer'):
                        ini = [c for c in n.get('inner', ()) if 'Comment' not in c.get('kind', '')]
                        if ini: cls.fieldinit[nm] = ini[-1]
            self.byid[i] = n
            return
        if k in FUNCS:
            if i:
                old = self.byid.get(i)
                if old is None or (has_body(n) and not has_body(old)):
                    self.byid[i] = n
                if cls is not None:
                    self.parent_cls[id(n)] = cls
                    if not tmpl: cls.methods.append(n)
                elif n.get('parentDeclContextId') and n['parentDeclContextId'] in self.byid:
                    c = self.byid[n['parentDeclContextId']].get('_cls')
                    if c is not None: self.parent_cls[id(n)] = c
                n['_inst'] = not tmpl
            for x in n.get('inner', ()):
                if x.get('kind') in ('CompoundStmt',):
                    self._decls(x)
                elif x.get('kind') == 'ParmVarDecl':
                    self.byid.setdefault(x.get('id'), x)
                elif x.get('kind') == 'CXXCtorInitializer':
                    self._decls(x)
            return
        if i:
            self.byid.setdefault(i, n)
        for x in n.get('inner', ()):
            self._index(x, cls if k not in ('NamespaceDecl',) else None, tmpl)

    def _decls(self, n):
        stack = [n]
        while stack:
            n = stack.pop()
            k = n.get('kind')
            if k in ('VarDecl', 'ParmVarDecl') and n.get('id'):
                self.byid.setdefault(n['id'], n)
            if k == 'LambdaExpr':
                pass
            stack.extend(n.get('inner', ()))

    def _targ(self, c):
        if 'type' in c:
            t = c['type']
            return self.types.canon(norm(t.get('desugaredQualType') or t['qualType']))
        if 'value' in c:
            return str(c['value'])
        for x in c.get('inner', ()):
            if x.get('kind') == 'TemplateArgument':
                return ','.join(self._targ(y) for y in c['inner'])
        return '?'

    def definition(self, decl):
        """the declaration carrying the body for decl (an AST node or id)"""
        if isinstance(decl, str):
            decl = self.byid.get(decl)
        if decl is None: return None
        if has_body(decl): return decl
        m = decl.get('mangledName')
        d = self.bymangled.get(m) if m else None
        return d

    def cls_of(self, decl):
        return self.parent_cls.get(id(decl))

    def params(self, decl):
        return [c for c in decl.get('inner', ()) if c.get('kind') == 'ParmVarDecl']

    def sig(self, decl):
        cls = self.cls_of(decl)
        ps = []
        for p in self.params(decl):
            ps.append(repr(self.types.of(p)))
        name = decl.get('name', '')
        if decl.get('kind') == 'CXXConstructorDecl': name = '(ctor)'
        if decl.get('kind') == 'CXXDestructorDecl': name = '(dtor)'
        q = (cls.name + '::' if cls is not None else '') + name
        t = (decl.get('type') or {}).get('qualType', '')
        if cls is not None and cls.name.startswith('Mesh<') and len(ps) == 1 and '&&' in t: q = cls.name + '::move ' + name
        cst = ' const' if re.search(r'\)\s*const', t) else ''
        rt = ''
        if name in RETSIG:          # templates whose instances differ in the result type only
            i = ret_end(t)
            rt = '->' + repr(self.types.parse(t[:i]))
        return f"{q}({','.join(ps)}){cst}{rt}"


RETSIG = ('extractFirstNumber', 'eye', 'hilbert', 'inv_hilbert', 'diag', 'permutation_matrix')


def const_int(n):
    """value of an integral constant expression made of literals, template arguments and arithmetic, or None"""
    k = n.get('kind')
    ks = [c for c in n.get('inner', ()) if isinstance(c, dict) and c.get('kind')]
    if k in ('IntegerLiteral', 'ConstantExpr') and 'value' in n:
        try: return int(n['value'])
        except ValueError: return None
    if k == 'CXXBoolLiteralExpr': return int(bool(n.get('value')))
    if k in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ConstantExpr') and ks: return const_int(ks[-1])
    if k == 'SubstNonTypeTemplateParmExpr' and ks: return const_int(ks[-1])
    if k == 'UnaryOperator' and n.get('opcode') == '-':
        v = const_int(ks[0]); return None if v is None else -v
    if k == 'ConditionalOperator':
        c = const_int(ks[0]); return None if c is None else const_int(ks[1] if c else ks[2])
    if k == 'BinaryOperator':
        a, b = const_int(ks[0]), const_int(ks[1])
        if a is None or b is None: return None
        op = n.get('opcode')
        if op in ('+', '-', '*', '==', '!=', '<', '>', '<=', '>=', '&&', '||'):
            return int(eval(f'{a} {dict([("&&", "and"), ("||", "or")]).get(op, op)} {b}'))
        if op == '/' and b > 0 and a >= 0: return a // b
        if op == '%' and b > 0 and a >= 0: return a % b
    return None


def ret_end(q):
    depth = 0
    for i, ch in enumerate(q):
        if ch == '<': depth += 1
        elif ch == '>': depth -= 1
        elif ch == '(' and depth == 0: return i
    return len(q)


FUNCS = ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


def has_body(n):
    return any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', ())) or bool(n.get('explicitlyDefaulted') == 'default')


def body(n):
    for c in n.get('inner', ()):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None
