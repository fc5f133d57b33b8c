"""Structure of the code the loop invariants were written against.
baseline.json (written by mkbaseline.py on the reviewed tree, never at check time) records for each function its local declarations and, for each
loop, where it is, its kind and the variables it assigns. It is used for two things only: to follow renamed locals, and to tell 'the contract's loop
annotations no longer fit this code' (not proved, bounded stand-in) from 'an obligation over fitting annotations fails' (violation)."""
import difflib
from .contracts import local_decls

LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')
ASSIGN = ('=', '+=', '-=', '*=', '/=', '|=', '&=', '%=', '<<=', '>>=', '^=')


def strip(n):
    while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') and n.get('inner'): n = n['inner'][0]
    return n


def assigned(n, out, top=True):
    k = n.get('kind')
    if k == 'LambdaExpr': return
    if k == 'BinaryOperator' and n.get('opcode') == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
        t = strip(n['inner'][0])
        if t.get('kind') == 'DeclRefExpr': out.add(t['referencedDecl'].get('name', ''))
    for c in n.get('inner', ()): 
        if isinstance(c, dict): assigned(c, out, False)


def signature(eng, sig):
    """[(path of inlined functions, kind of loop, assigned variables)] for every loop executed by a function"""
    f = eng.fbysig.get(sig)
    d = eng.unit.definition(f) if f else None
    if d is None: return None
    out = []
    for path, own, n in eng.static_loops_named(d):
        s = set(); assigned(n, s)
        out.append([own, n['kind'], sorted(x for x in s if x and not x.startswith('__'))])
    return out


def collect(eng, sigs):
    """declarations of the functions (and inlined functions with loops) and loop shapes"""
    decls = {}; shapes = {}
    for s in sigs:
        f = eng.fbysig.get(s)
        d = eng.unit.definition(f) if f else None
        if d is None: continue
        sh = signature(eng, s)
        if not sh: continue
        shapes[s] = sh
        for own in {s} | {x[0] for x in sh if x[0]}:
            g = eng.fbysig.get(own); g = eng.unit.definition(g) if g else None
            if g is not None and own not in decls: decls[own] = local_decls(eng.unit, g)
    return dict(decls=decls, shapes=shapes)


def renames(eng, base):
    """(function, recorded name) -> current name of locals that were only renamed"""
    out = {}
    for sig, old in (base or {}).get('decls', {}).items():
        f = eng.fbysig.get(sig); f = eng.unit.definition(f) if f else None
        if f is None: continue
        cur = local_decls(eng.unit, f)
        if [tuple(x) for x in old] == cur: continue
        # declarations that kept their name stay; the others are aligned by type and order
        on = [x[0] for x in old]; cn = [x[0] for x in cur]
        a = [x for x in old if x[0] not in cn]; b = [x for x in cur if x[0] not in on]
        sm = difflib.SequenceMatcher(a=[x[1] for x in a], b=[x[1] for x in b], autojunk=False)
        for tag, i1, i2, j1, j2 in sm.get_opcodes():
            if tag == 'equal':
                for i, j in zip(range(i1, i2), range(j1, j2)): out[(sig, a[i][0])] = b[j][0]
    return out


def fits(eng, base, sig, ren):
    """do the loops of the function still have the recorded shape?"""
    old = (base or {}).get('shapes', {}).get(sig)
    cur = signature(eng, sig)
    if old is None: return not cur
    if cur is None: return True
    m = lambda own, names: sorted(ren.get((own or sig, x), x) for x in names)
    return [[o, k, m(o, v)] for o, k, v in old] == cur
