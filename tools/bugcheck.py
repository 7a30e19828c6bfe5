"""python3 bugcheck.py [-t tier] [-j N] [id...]: run the check of each planted bug's property against a scratch tree with the bug."""
import sys, os, subprocess, json, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir('/verif/seeded'))
def one(i):
    m = json.load(open(f'/verif/seeded/{i}/meta.json'))
    d = tempfile.mkdtemp(prefix=f'bc_{i}_')
    try:
        subprocess.run(f'git clone -q /repo {d}/repo && git -C {d}/repo apply /verif/seeded/{i}/patch.diff', shell=True, check=True)
        shutil.copytree('/verif', f'{d}/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', '__pycache__'))
        t = time.time()
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'dv.run', m['property'], '--tier', 'quick'], cwd=f'{d}/verif', env=dict(os.environ, DV_REPO=f'{d}/repo', VERIF_SEED='1', PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True, timeout=1500)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        return i, m['property'], p.returncode, round(time.time() - t), v[:3], p.stderr[-300:] if p.returncode not in (0, 1) else ''
    finally:
        shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids):
        print('CAUGHT' if r[2] == 1 else 'MISSED', *r, flush=True)
