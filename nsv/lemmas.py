"""Lemmas behind the background facts.

`lean`: /verif/lean/Lemmas.lean, checked by Lean 4 (Mathlib) on every run; independent of /repo.
  background axioms (solve.background)  lin_*, parts_lin, lfst_lt, imul_*, rmul_zero, rmul_neg (rmulneg, neg_def, rmulneg4), lin_imul (HyperCube)
  'rmul'   rmul_cancel, cancel_pos        'sq'  square_nonneg            'field'  cg_field
  'sums'   sm_unfold, sm_congr, sm_range_congr, sm_gap, sm_linear(')(mv_linear, dot_linear), sm_dot_congr, sm_mul_comm, sm_swap, sm_symm
           (a sum is 0 below index 0; complex sums componentwise)
  'assoc'  sm_assoc   'surj' surj   'parity' par_identity, par_swap + swap_table   'determinant' determinant
  'binomial' choose_* 'cells' cells_*   'firstdiff', first_boundary_edge, first_dof: first
  row_defs/pos_defs: row_exists, pos_exists    ledef: place_exists    C22: cell_orientation, cell_tiling
`rep`: the facts exposed to iterator clients (seq_facts) follow from the representation invariant (SMT, below).
"""
import os, re, subprocess
import z3
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, 'lean', 'Lemmas.lean')


def lean_start():
    src = open(FILE).read()
    p = None
    try:
        p = subprocess.Popen(['lean', FILE], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except OSError: pass
    return p, src


def lean_finish(h, limit=240):
    p, src = h
    names = re.findall(r'^theorem (\S+)', src, re.M)
    out = dict(file='lean/Lemmas.lean', theorems=len(names), checker='Lean 4 + Mathlib')
    if p is None: out['status'] = 'not checked (lean not found)'; return out
    try: o, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill(); out['status'] = 'not checked (time limit)'; return out
    body = re.sub(r'/-.*?-/', '', src, flags=re.S)
    bad = re.search(r'\b(sorry|axiom|native_decide|admit)\b', body)
    out['status'] = 'checked' if p.returncode == 0 and not o.strip() and not bad else 'FAILED: ' + (bad.group(0) if bad else o.strip()[:300])
    return out


def rep():
    """representation invariant of the sparse matrix => the facts of the sequence view"""
    from .specs import sparse as SP
    from . import solve
    from .core import I, R, DEF, tobool
    IA = z3.ArraySort(I, I); RA = z3.ArraySort(I, R)

    class Run:
        keep = []; ghosts = {}; nfresh = 0; opts = {}
        def nm(self, t): return t

    class M:
        def __repr__(self): return 'm'
        def get(self, p):
            s = {'.mValues[]': z3.Const('vals', RA), '.mColumnPtr[]': z3.Const('cols', IA), '.mRowPtr[]': z3.Const('rp', IA)}
            return s[p] if p in s else z3.Real('mEmpty') if p == '.mEmpty' else z3.Int(p.strip('.').replace('#', '_'))
    g = SP.SGhost(Run(), M())
    un = lambda f: tobool(f) if not isinstance(f, DEF) else z3.And(*[tobool(x) for x in f.items])
    for full in (True, False):
        hyp = [un(f) for _, f in SP.rep_facts(g)] + [un(SP.row_defs(g))] + [un(f) for _, f in SP.content_facts(g, full)] + [un(SP.pos_defs(g))]
        for nm, f in SP.seq_facts(g, full): yield nm + ('' if full else ' (values arbitrary)'), solve.to_text(hyp, un(f))


LEMMAS = dict(rep=rep)
