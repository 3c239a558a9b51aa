"""Run the check of one property:  python -m symmon.run C05 [--tier quick] [--seed 1]"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from .registry import CASES

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NWORK = 8


def hash_seed(seed, w):
    return (seed * 7919 + w * 104729 + 1) % 4294967295


def worker_env(seed, w):
    env = dict(os.environ)
    env.update(
        MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig' if os.path.isdir('/opt/venv/mplconfig') else os.environ['SYMMON_TMP'], PYTHONDONTWRITEBYTECODE='1',
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
        PYTHONHASHSEED=str(hash_seed(seed, w)), PYTHONWARNINGS='ignore',
        PYTHONPATH=os.pathsep.join([os.environ.get('SYMMON_REPO', '/repo'), HERE]),
    )
    return env


def load_findings():
    path = os.path.join(HERE, 'known_findings.json')
    with open(path) as fh:
        return json.load(fh)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--only', help='comma separated case numbers')
    ap.add_argument('--replay', help='replay file')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=NWORK)
    args = ap.parse_args()
    prop, seed, tier = args.prop, args.seed, args.tier
    if args.replay:
        rp = json.load(open(args.replay))
        prop, seed, tier = rp['property'], rp['seed'], rp['tier']
        args.only = str(rp['case'])
    quick, thorough, limit = CASES[prop]
    total = args.cases or (thorough if tier == 'thorough' else quick)
    budget = 3000 if tier == 'thorough' else 700
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='symmon-')
    os.environ['SYMMON_TMP'] = tmp
    try:
        return drive(args, prop, seed, tier, total, limit, budget, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive(args, prop, seed, tier, total, limit, budget, t0, tmp):
    procs = []
    if args.only:
        only = [int(i) for i in args.only.split(',')]
        plan = [(w, [i for i in only if i % NWORK == w]) for w in range(NWORK)]
        plan = [(w, o) for w, o in plan if o]
    else:
        plan = [(w, None) for w in range(NWORK)]
    for w, only in plan:
        out = os.path.join(tmp, 'w{}.jsonl'.format(w))
        cmd = [PY, '-B', '-W', 'ignore', '-m', 'symmon.worker', prop, str(seed), tier, str(w),
               str(NWORK), str(total), str(limit), str(t0 + budget), out]
        if only is not None:
            cmd.append(','.join(map(str, only)))
        err = open(os.path.join(tmp, 'w{}.err'.format(w)), 'w')
        procs.append((w, out, subprocess.Popen(cmd, cwd=tmp, env=worker_env(seed, w), stderr=err, stdout=err)))
    results, problems = [], []
    for w, out, proc in procs:
        try:
            proc.wait(timeout=max(1, t0 + budget + 4 * limit + 60 - time.time()))
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait()
            problems.append('worker {} killed after its deadline'.format(w))
        begun, done, stopped = None, False, False
        if os.path.exists(out):
            for line in open(out):
                try:
                    rec = json.loads(line)
                except ValueError:
                    continue
                if 'begin' in rec:
                    begun = rec['begin']
                elif 'fatal' in rec:
                    problems.append(rec['fatal'])
                elif 'done' in rec:
                    done = True
                elif 'stopped' in rec:
                    stopped = True
                else:
                    begun = None
                    results.append(rec)
        if not done:
            err = open(os.path.join(tmp, 'w{}.err'.format(w))).read()
            tail = err[-1500:]
            problems.append('worker {} ended (rc {}) in case {}: {}'.format(w, proc.returncode, begun, tail))
            if begun is None and 'Traceback' in err and not results_of(results, w):
                # symfit (or its use at import) cannot even be loaded
                problems.append('import failure')
        if stopped:
            problems.append('worker {} stopped at its deadline'.format(w))

    findings = load_findings()
    listed = {f['id']: f for f in findings if f['status'] == 'known'}
    evals = sum(r['evals'] for r in results)
    nontrivial = {r['sig'] for r in results if r['nontrivial'] and r['status'] == 'ok'}
    by_name, tags, known = {}, {}, {}
    violations = []
    for r in results:
        for k, v in r['by_name'].items():
            by_name[k] = by_name.get(k, 0) + v
        for k, v in r['tags'].items():
            tags[k] = tags.get(k, 0) + v
        for v in r['violations']:
            violations.append((r, v))
        for k in r['known']:
            f = listed.get(k['finding'])
            if f is None or f['property'] != prop:
                violations.append((r, {'monitor': 'unlisted:' + k['finding'], 'detail': k['detail']}))
            else:
                known.setdefault(k['finding'], []).append((r, k))
    status = {}
    for r in results:
        status[r['status']] = status.get(r['status'], 0) + 1
    incon = [r for r in results if r['inconclusive']]
    samples = [r['desc'] for r in results if r['nontrivial'] and r['desc']][:3]
    rule = RULES.get(prop, 'random workloads of the property; non-trivial when at least one monitor judged an '
                           'observation and the workload differs from the others')
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(nontrivial), 'rule': rule,
            'samples': samples or ['none'], 'cases': len(results), 'case_status': status,
            'judged_by_monitor': by_name, 'workload_features': tags,
            'inconclusive_cases': len(incon), 'hash_seeds': [hash_seed(seed, w) for w, _ in plan],
            'known_findings_seen': {k: len(v) for k, v in known.items()},
            'problems': problems,
        },
        'assumptions': ASSUME,
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if not args.only:
        with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
            json.dump(evidence, fh, indent=1, default=str)
    print('{} tier={} seed={} cases={} {} evaluations={} distinct={} inconclusive={} wall={}s'.format(
        prop, tier, seed, len(results), status, evals, len(nontrivial), len(incon), evidence['wall_s']))
    if args.v:
        for k in sorted(by_name):
            print('   judged', by_name[k], k)
        for k in sorted(tags):
            print('   tag', tags[k], k)
        for r in sorted(results, key=lambda r: -r['wall'])[:5]:
            print('   slow', r['index'], r['wall'], str(r['desc'])[:150])
        for r in incon[:10]:
            print('   inconclusive', r['index'], r['inconclusive'][:2])
    for p in sorted(set(problems))[:3]:
        print('   problem:', str(p)[-500:])
    for fid in sorted(known):
        print('KNOWN-FINDING: property={} {}'.format(prop, listed[fid]['what']))
    if violations:
        seen = set()
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for r, v in violations:
            if v['monitor'] in seen:
                continue
            if len(seen) >= 6:
                break
            seen.add(v['monitor'])
            path = os.path.join(rdir, '{}-{}-{}-{}.json'.format(prop, tier, seed, r['index']))
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': r['index'],
                           'hash_seed': hash_seed(seed, r['index'] % NWORK), 'workload': r['desc'],
                           'violations': r['violations'],
                           'rerun': 'cd /verif && ./check {} --replay {}'.format(prop, path)}, fh, indent=1, default=str)
            print('VIOLATION property={} replay={}'.format(prop, path))
            print('   case {} monitor {}: {}'.format(r['index'], v['monitor'], json.dumps(v['detail'], default=str)[:700]))
        print('   {} violating observations in {} cases; monitors: {}'.format(
            len(violations), len({r['index'] for r, _ in violations}), count(violations)))
        return 1
    want = len(args.only.split(',')) if args.only else total
    judged = sum(1 for r in results if r['nontrivial'])
    if judged == 0 or (not args.only and (judged < 0.3 * want or len(incon) > 0.5 * len(results))):
        print('INCONCLUSIVE property={} only {} of {} cases judged'.format(prop, judged, want))
        return 2
    return 0


def results_of(results, w):
    return [r for r in results if r['index'] % NWORK == w]


def count(violations):
    out = {}
    for _, v in violations:
        out[v['monitor']] = out.get(v['monitor'], 0) + 1
    return out


RULES = {}
ASSUME = ['numpy, scipy and sympy of /opt/venv behave as documented',
          'verdicts cover only the executions made: held on the observed workloads']

if __name__ == '__main__':
    sys.exit(main())
