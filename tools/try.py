"""Runs the check of every planted bug (or the ids given) against a scratch copy carrying it."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')


def one(i):
    w = f'/tmp/try.{i}'
    subprocess.run(['rm', '-rf', w], check=False)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    subprocess.run(['git', '-C', w, 'apply', f'{S}/{i}/patch.diff'], check=True)
    p = json.load(open(f'{S}/{i}/meta.json'))['property']
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(S), 'check.py'), p, '--no-evidence'] if False else ['/opt/venv/bin/python', 'check.py', p],
                       cwd=os.path.dirname(S), env=dict(os.environ, PV_REPO=w), capture_output=True, text=True, check=False)
    subprocess.run(['rm', '-rf', w], check=False)
    v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    return f'{"CAUGHT" if r.returncode == 1 and v else "MISSED"} {i} {p} rc={r.returncode} {v}'


ids = sys.argv[1:] or sorted(os.listdir(S))
with ThreadPoolExecutor(3) as ex:
    for x in ex.map(one, ids):
        print(x, flush=True)
