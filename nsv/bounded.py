"""Replay harnesses: bounded execution of the real code against naive oracles."""
import os, subprocess, tempfile, shutil, re, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NSV_REPO', '/repo')
FLAGS = ['-std=c++11', '-O1', '-g0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']


def start(pid, spec, tier, seed):
    srcs = spec.get('harness', [])
    if isinstance(srcs, str): srcs = [srcs]
    d = tempfile.mkdtemp(prefix=f'nsvh_{pid}_')
    ps = []
    for s in srcs:
        exe = os.path.join(d, s.replace('.cpp', ''))
        cmd = ['g++', *FLAGS, '-I', REPO + '/src/lib', '-I', REPO + '/src/objloader', '-I', os.path.join(HERE, 'harness'), os.path.join(HERE, 'harness', s), '-o', exe]
        sh = ' '.join(cmd) + f' 2>{exe}.cerr || exit 99; cd {d} && exec {exe} {tier} {seed}'
        p = subprocess.Popen(['bash', '-c', sh], stdout=open(exe + '.out', 'w'), stderr=open(exe + '.err', 'w'), start_new_session=True)
        ps.append((s, exe, p, cmd))
    return dict(d=d, ps=ps, tier=tier, seed=seed)


def finish(h, limit=600):
    out = dict(status='none', cases=0, fails=[], cmd='', tests=[], errors=[])
    for s, exe, p, cmd in h['ps']:
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait()
            out['errors'].append(f'{s}: timed out')
        txt = open(exe + '.out', errors='replace').read()
        out['cmd'] = ' '.join(cmd) + f" && {exe} {h['tier']} {h['seed']}"
        if p.returncode == 99:
            out['errors'].append(f'{s}: does not compile: ' + open(exe + '.cerr', errors='replace').read()[:1500]); continue
        for l in txt.split('\n'):
            m = re.match(r'FAIL \[(.*?)\] (.*)', l)
            if m: out['fails'].append(dict(test=m.group(1), detail=m.group(2)))
            m = re.match(r'OK \[(.*?)\] (\d+)', l)
            if m: out['tests'].append(m.group(1)); out['cases'] += int(m.group(2))
    out['status'] = 'none' if not h['ps'] else 'failing inputs found' if out['fails'] else ('error' if out['errors'] else 'clean')
    shutil.rmtree(h['d'], ignore_errors=True)
    return out
