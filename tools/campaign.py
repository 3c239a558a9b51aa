"""campaign.py [id ...]: apply candidate bugs in scratch copies, run the tests, then the check of the property."""
import os, re, subprocess, sys, json, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif/tools')
import mutants
want = sys.argv[1:]
ROOT = '/tmp/p/mut'
os.makedirs(ROOT, exist_ok=True)
RES = '/tmp/p/results.json'
res = json.load(open(RES)) if os.path.exists(RES) else {}
base_lines = {}

def prep(m):
    i, prop, f, old, new = m
    d = os.path.join(ROOT, i)
    if os.path.exists(d): shutil.rmtree(d)
    subprocess.check_call(['cp', '-a', '/repo', d])
    p = os.path.join(d, f)
    s = open(p).read()
    if s.count(old) != 1: return 'pattern %d times' % s.count(old)
    open(p, 'w').write(s.replace(old, new))
    env = dict(os.environ, MPLCONFIGDIR='/opt/venv/mplconfig', MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONPATH=d, OMP_NUM_THREADS='1')
    r = subprocess.run(['timeout', '400', '/opt/venv/bin/python', '-B', '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x',
                        '--deselect', 'tests/test_minimizers.py::test_custom_objective'], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode: return 'TESTS ' + ' '.join(l for l in r.stdout.splitlines() if l.startswith('FAILED') or l.startswith('ERROR'))[:150]
    return 'ok'

def check(m, props=None):
    i, prop = m[:2]
    d = os.path.join(ROOT, i)
    out = {}
    for p in props or [prop]:
        r = subprocess.run(['/verif/check', p], cwd='/verif', env=dict(os.environ, SYMMON_REPO=d), capture_output=True, text=True)
        out[p] = r.returncode
    return out

todo = [m for m in mutants.L if (m[0] in want if want else m[0] not in res)]
with ThreadPoolExecutor(8) as ex:
    stat = dict(zip([m[0] for m in todo], ex.map(prep, todo)))
for m in todo:
    s = stat[m[0]]
    res[m[0]] = {'prop': m[1], 'tests': s}
    if s == 'ok': res[m[0]]['checks'] = check(m)
    print(m[0], res[m[0]], flush=True)
    if s != 'ok': shutil.rmtree(os.path.join(ROOT, m[0]), ignore_errors=True)
    json.dump(res, open(RES, 'w'), indent=1)
