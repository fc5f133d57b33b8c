#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import sys, os, time, json, re, importlib, fnmatch, subprocess, tempfile, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
T0 = time.time()


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from claims import CLAIMS
    spec = CLAIMS[pid]
    from nsv import prove, bounded, lemmas
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    # the bounded replay harness starts in the background, the proof runs meanwhile
    lh = lemmas.lean_start()
    h = bounded.start(pid, spec, tier, seed)
    try:
        pr = prove.prove(pid, spec, tier)
    except Exception as e:
        pr = prove.Result(); pr.error = f'{type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}'
    hr = bounded.finish(h)
    pr.lean = lemmas.lean_finish(lh)
    # ------------------------------------------------------------ verdict
    kn = [k for k in known.get('findings', []) if k['property'] == pid]
    kn_t = {k['test'] for k in kn}
    new_fail = [f for f in hr['fails'] if f['test'] not in kn_t]
    for k in kn: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    owned = [f for f in pr.failed if f['owned']]
    esc = None
    lost = [x for x in pr.unproved if x.get('owned', True)]
    if (owned or lost) and not new_fail and tier == 'quick' and spec.get('harness') and time.time() - T0 < 600:
        # an obligation failed (or a function left the reach of its contract) and the quick harness found no input: search longer
        esc = bounded.finish(bounded.start(pid, spec, 'thorough', seed), max(60, 780 - (time.time() - T0)))
        new_fail = [f for f in esc['fails'] if f['test'] not in kn_t]
        if new_fail: hr = esc
    viol = None
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, f'{pid}.txt')
    if os.path.exists(rp): os.unlink(rp)
    if new_fail or owned:
        with open(rp, 'w') as f:
            f.write(f'property {pid} violated on the current tree of {os.environ.get("NSV_REPO", "/repo")}\n\n')
            if new_fail:
                f.write('Failing input(s), found by running the real code:\n')
                for x in new_fail[:20]: f.write(f"  [{x['test']}] {x['detail']}\n")
                f.write(f"replay: {hr['cmd']}\n\n")
            if pr.failed:
                f.write('Obligations not discharged by the verifier:\n')
                for x in pr.failed[:40]:
                    f.write(f"  {x['function']} | {x['obligation']} | line {x['line']} | {x['result']} {'; '.join(x['log'])}\n")
                    if x.get('model'): f.write('    model: ' + x['model'][:1500].replace('\n', '\n    ') + '\n')
        viol = f'VIOLATION property={pid} replay={rp}' + ('' if new_fail else ' no-failing-input-found')
    ev = pr.evidence(pid, tier, seed, spec, hr)
    ev['violations'] = len(new_fail) + len(owned)
    ev['wall_s'] = round(time.time() - T0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1)
    c = ev['coverage']
    print(f"{pid}: {c['discharged']}/{c['obligations']} obligations discharged over {len(c['functions_under_contract'])} functions; "
          f"bounded harness: {hr['status']}, {hr['cases']} cases; {ev['wall_s']} s")
    for x in pr.unproved: print(f"  not proved ({x['kind']}): {x['function']}: {x['why'][:200]}")
    for x in pr.failed[:10]: print(f"  FAILED{'' if x['owned'] else ' (dependency)'}: {x['function']}: {x['obligation']}")
    for x in new_fail[:10]: print(f"  INPUT: [{x['test']}] {x['detail'][:300]}")
    if viol:
        print(viol)
        return 1
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    os._exit(rc)
