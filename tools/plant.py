"""Plant bugs: python3 plant.py SPEC.py [id...]
SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...], demo, needs, breaks)].
Each bug is built in a scratch copy, run against its demo (both trees) and the tests, and kept in /verif/seeded/<id>
only if everything holds."""
import sys, os, subprocess, shutil, json, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor

VP = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')

def sh(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout + p.stderr

def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b

def one(b):
    bid = b['id']
    d = tempfile.mkdtemp(prefix=f'bug_{bid}_')
    tree = os.path.join(d, 'repo')
    try:
        sh(f'git clone -q /repo {tree}', '/')
        for f, old, new in b['edits']:
            p = os.path.join(tree, f)
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            if crlf:
                s = s.replace('\r\n', '\n')
            if s.count(old) != 1:
                return bid, f'edit matches {s.count(old)} times in {f}: {old[:60]!r}'
            s = s.replace(old, new)
            if crlf:
                s = s.replace('\n', '\r\n')
            open(p, 'w', newline='').write(s)
        rc, diff = sh('git diff --binary', tree)
        p = subprocess.run(['git', 'diff'], cwd=tree, capture_output=True)
        diff = p.stdout
        # lines removed must not be added by my own commits
        sd = os.path.join(d, 'seed'); os.makedirs(sd)
        open(os.path.join(sd, 'demo.py'), 'w').write(b['demo'])
        open(os.path.join(sd, 'demo.sh'), 'w').write(
            '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
            'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        rc0, out0 = sh(['bash', os.path.join(sd, 'demo.sh')], '/repo')
        if rc0 != 0:
            return bid, f'demo fails on unchanged tree: {out0[-1500:]}'
        rc1, out1 = sh(['bash', os.path.join(sd, 'demo.sh')], tree)
        if rc1 == 0:
            return bid, 'demo passes with the patch'
        e = dict(ENV, PYTHONPATH=tree)
        rc, out = sh([VP, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', f'--basetemp={d}/t', 'tests'], tree, e)
        tail = out.strip().splitlines()[-1] if out.strip() else ''
        if rc != 0:
            return bid, f'tests fail: {out[-1500:]}'
        # blame check
        touched = []
        o = f'/verif/seeded/{bid}'
        shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        open(f'{o}/patch.diff', 'wb').write(diff)
        shutil.copy(f'{sd}/demo.py', o); shutil.copy(f'{sd}/demo.sh', o)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{o}/meta.json', 'w'), indent=1)
        rc, out = sh(f'git apply --check {o}/patch.diff', '/repo')
        if rc:
            return bid, f'patch does not apply: {out}'
        return bid, f'KEPT ({tail}); demo says: {out1.strip().splitlines()[-1][:150] if out1.strip() else ""}'
    except Exception as ex:
        return bid, f'error {ex!r}'
    finally:
        shutil.rmtree(d, ignore_errors=True)

def own_lines():
    """lines of /repo HEAD added by commits after the original one"""
    res = {}
    return res

if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if sys.argv[2:]:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, bugs):
            print(*r, flush=True)
