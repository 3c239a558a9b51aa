"""make_seeded.py [id ...]: write /verif/seeded/<id> from the candidates of tools/mutants.py and the demonstrations below."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, '/verif/tools')
import mutants
BASE = '6ebe77d'
HEAD = '''import warnings
warnings.simplefilter('ignore')
import matplotlib
matplotlib.use('Agg')
import pickle
import numpy as np
import sympy
from symfit import *
from symfit.core.minimizers import *
from symfit.core.objectives import *
from symfit.core.models import *
np.seterr(all='ignore')


def near(got, want, rtol=1e-6, atol=1e-8):
    assert np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=rtol, atol=atol), (got, want)


'''
SH = '''#!/bin/sh
# cwd: /repo after its build
PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
from seeded_demos import S

def main(want):
    byid = {m[0]: m for m in mutants.L}
    for i, (needs, breaks, demo) in S.items():
        if want and i not in want: continue
        m = byid[i]
        d = '/verif/seeded/' + i
        os.makedirs(d, exist_ok=True)
        w = '/tmp/p/seed/' + i
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs('/tmp/p/seed', exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', w])
        f = os.path.join(w, m[2])
        s = open(f).read()
        assert s.count(m[3]) == 1, (i, s.count(m[3]))
        open(f, 'w').write(s.replace(m[3], m[4]))
        diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(HEAD + demo.strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': m[1], 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        # lines changed are of the original repository
        subprocess.check_call(['git', '-C', w, 'stash', '-q'])
        bl = subprocess.check_output(['git', '-C', w, 'blame', '-s', m[2]], text=True).splitlines()
        subprocess.check_call(['git', '-C', w, 'stash', 'pop', '-q'])
        own = set(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h', '--abbrev=8', BASE + '..HEAD'], text=True).split())
        line = None
        foreign = touched = 0
        import re
        for l in diff.splitlines():
            h = re.match(r'@@ -(\d+)', l)
            if h: line = int(h.group(1)); continue
            if line is None: continue
            if l.startswith('-'):
                touched += 1
                if bl[line - 1][:8].lstrip('^') in own: foreign += 1
            if not l.startswith('+'): line += 1
        r0 = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        r1 = subprocess.run([d + '/demo.sh'], cwd=w, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode == 1 and touched > foreign
        print(i, 'OK' if ok else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, 'lines', touched, 'not original', foreign,
              '' if ok else (r0.stderr[-300:], r1.stderr[-300:]), r1.stderr.strip().splitlines()[-1][:120] if r1.stderr.strip() else '')
        shutil.rmtree(w)
main(sys.argv[1:])
