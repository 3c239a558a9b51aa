"""Summarise unexpected exceptions / violations of the last run's replay dir by running all and grouping: errs.py C10 [seed] [tier]"""
import json, subprocess, sys, re, os, tempfile
sys.path.insert(0, '/verif')
from symmon import run
prop, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
import time
from symmon.registry import CASES
q, t, lim = CASES[prop]
tmp = tempfile.mkdtemp(); os.environ['SYMMON_TMP'] = tmp
ps = []
for w in range(8):
    out = f'{tmp}/w{w}.jsonl'
    ps.append(subprocess.Popen([run.PY, '-B', '-W', 'ignore', '-m', 'symmon.worker', prop, str(seed), tier, str(w), '8', str(t if tier == 'thorough' else q), str(lim), str(time.time() + 3000), out], cwd=tmp, env=run.worker_env(seed, w), stderr=subprocess.DEVNULL))
for p in ps: p.wait()
groups = {}
for w in range(8):
    for line in open(f'{tmp}/w{w}.jsonl'):
        r = json.loads(line)
        for v in r.get('violations', ()):
            d = v['detail']
            key = (v['monitor'], re.sub(r'[-\d.e]+', '#', str(d.get('error', '')))[:110], (d.get('where') or [''])[-1], next((x for x in reversed(d.get('where') or []) if 'symfit/' in x), ''))
            groups.setdefault(key, []).append((r['index'], d))
import shutil; shutil.rmtree(tmp)
for k, v in sorted(groups.items(), key=lambda kv: -len(kv[1])):
    print(len(v), k, [i for i, _ in v][:6]); print('      ', json.dumps(v[0][1])[:450])
