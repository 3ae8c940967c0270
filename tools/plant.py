"""Development tool: confirm a planted bug in a scratch copy and keep it under seeded/<id>/.

usage: plant.py SPEC.py [ids...]   (SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)])
A bug is kept when the demo passes on /repo, fails with the change, and all stable tests pass with the change."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# run with cwd = the source tree; exit 0: behaviour as documented, nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OPENBLAS_NUM_THREADS=1 HOME=${HOME:-/root}
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export NUMBA_CACHE_DIR=$T/nc SCRATCH=$T
cd "$T" || exit 3
/opt/venv/bin/python "$here/demo.py"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def one(b):
    d = Path('/tmp/plant') / b['id']
    if d.exists():
        shutil.rmtree(d)
    d.parent.mkdir(exist_ok=True)
    shutil.copytree('/repo', d / 'repo', symlinks=True)
    R = d / 'repo'
    for f, old, new in b['edits']:
        p = R / f
        s = p.read_text()
        if s.count(old) != 1:
            return b['id'], f'edit matches {s.count(old)} times in {f}: {old[:60]!r}'
        p.write_text(s.replace(old, new))
    out = ROOT / 'seeded' / b['id']
    tmp = d / 'keep'
    tmp.mkdir()
    (tmp / 'demo.py').write_text(b['demo'].lstrip('\n'))
    (tmp / 'demo.sh').write_text(DEMO)
    (tmp / 'patch.diff').write_text(subprocess.run(['git', 'diff'], cwd=R, capture_output=True, text=True).stdout)
    (tmp / 'meta.json').write_text(json.dumps({'property': b['property'], 'needs': b['needs'],
                                               'what_it_breaks': b['breaks']}, indent=1) + '\n')
    r0 = subprocess.run(['bash', str(tmp / 'demo.sh')], cwd='/repo', capture_output=True, text=True, timeout=290)
    if r0.returncode:
        return b['id'], 'demo fails on the unchanged tree:\n' + (r0.stdout + r0.stderr)[-1500:]
    r1 = subprocess.run(['bash', str(tmp / 'demo.sh')], cwd=R, capture_output=True, text=True, timeout=290)
    if not r1.returncode:
        return b['id'], 'demo passes with the change'
    env = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8', NUMBA_CACHE_DIR=str(d / 'nc'), PYTHONPATH=str(R))
    for name, a in (('t', ['tests']), ('d', ['--doctest-modules', 'acoular'])):
        subprocess.run([PY, '-m', 'pytest', '-q', '--tb=short', '-p', 'no:cacheprovider', '--timeout=300', '-o',
                        'junit_family=xunit2', f'--junitxml={d}/{name}.xml', *a], cwd=R, env=env, capture_output=True,
                       timeout=1500)
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', str(d / 'o.json'), f'junit:{d}/*.xml'], cwd=R, capture_output=True)
    ps = set(json.load(open(d / 'o.json'))['passed'])
    if STABLE - ps:
        return b['id'], f'{len(STABLE - ps)} stable tests fail: {sorted(STABLE - ps)[:5]}'
    if out.exists():
        shutil.rmtree(out)
    shutil.copytree(tmp, out)
    shutil.rmtree(d)
    return b['id'], 'kept; demo with the change: ' + ((r1.stdout + r1.stderr).strip() or "-").splitlines()[-1][:150]


bugs = [b for b in ns['BUGS'] if not want or b['id'] in want]
with ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(one, bugs):
        print(i, ':', r, flush=True)
