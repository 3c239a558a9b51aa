"""What an object does, as plain data: the same function runs here and in a fresh interpreter."""
import re

import numpy as np


def plain(v, depth=0):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (int, np.integer)):
        return float(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, np.ndarray) and v.dtype != object:
        return {'shape': list(v.shape), 'data': [float(x) for x in np.real(v).ravel()]}
    if isinstance(v, dict):
        return [[plain(k, depth + 1), plain(x, depth + 1)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [plain(x, depth + 1) for x in v]
    from sympy import Basic
    if isinstance(v, Basic):
        return str(v)
    return type(v).__name__


def symbol(s):
    out = {'type': type(s).__name__, 'name': s.name, 'str': str(s), 'real': s.is_real}
    for k in ('value', 'min', 'max', 'fixed'):
        if hasattr(s, k):
            out[k] = plain(getattr(s, k))
    return out


def attempt(f):
    try:
        return plain(f())
    except Exception as err:
        return 'raises ' + type(err).__name__


def model(m, inputs):
    out = {'type': type(m).__name__, 'len': len(m)}
    for k in ('params', 'independent_vars', 'dependent_vars', 'interdependent_vars'):
        out[k] = [symbol(s) for s in getattr(m, k)]
    out['bounds'] = plain(m.bounds)
    out['order'] = [str(k) for k in m]
    out['signature'] = [p for p in m.__signature__.parameters]
    out['shared'] = attempt(lambda: m.shared_parameters)
    out['sigmas'] = [[str(k), str(v)] for k, v in m.sigmas.items()]
    if hasattr(m, 'constraint_type'):
        out['constraint_type'] = m.constraint_type.__name__
    if inputs is not None:
        def call(fn):
            r = fn(**{k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in inputs.items()})
            return [[str(v) for v in getattr(r, 'variables', [])], [np.asarray(c) for c in r]]
        out['value'] = attempt(lambda: call(m))
        for k in ('eval_jacobian', 'eval_hessian', 'finite_difference'):
            if hasattr(m, k):
                out[k] = attempt(lambda: call(getattr(m, k)))
        try:
            neg = -m
        except Exception as err:
            out['negated'] = 'raises ' + type(err).__name__
        else:
            out['negated'] = attempt(lambda: call(neg))
    for k in ('lsoda_args', 'lsoda_kwargs', 'initial'):
        if hasattr(m, k):
            out[k] = attempt(lambda: getattr(m, k))
    if hasattr(m, 'lsoda_kwargs'):
        out['initial'] = [[str(k), plain(v)] for k, v in m.initial.items()]
    return out


def output(o, inputs):
    return {'variables': [symbol(v) for v in o.variables], 'len': len(o), 'by position': [plain(np.asarray(c)) for c in o.output],
            'by attribute': [attempt(lambda v=v: np.asarray(getattr(o, v.name))) for v in o.variables],
            'as dict': [[str(k), plain(np.asarray(v))] for k, v in o._asdict().items()], 'unpacked': [plain(np.asarray(c)) for c in o]}


def objective(o, inputs):
    """inputs: dict of parameter values by name, fixed ones possibly left out."""
    out = {'type': type(o).__name__, 'model': model(o.model, None),
           'data': sorted([[str(k), plain(None if v is None else np.asarray(v))] for k, v in o.data.items()], key=lambda kv: kv[0])}
    out['value'] = attempt(lambda: np.asarray(o(**inputs)))
    for k in ('eval_jacobian', 'eval_hessian'):
        if hasattr(o, k):
            out[k] = attempt(lambda: np.asarray(getattr(o, k)(**inputs)))
    out['ordered'] = attempt(lambda: np.asarray(o([inputs[p.name] for p in o.model.params if not p.fixed])))
    return out


def result(r, inputs=None):
    out = {'params': [[k, float(v)] for k, v in r.params.items()], 'objective': plain(np.asarray(r.objective_value))}
    out['cov'] = plain(None if r.covariance_matrix is None else np.asarray(r.covariance_matrix, dtype=float))
    for k in ('r_squared', 'chi_squared', 'log_likelihood', 'likelihood', 'iterations', 'status_message'):
        out[k] = attempt(lambda: getattr(r, k))
    out['model'] = model(r.model, None)
    out['values'] = [attempt(lambda p=p: r.value(p)) for p in r.model.params]
    out['stdevs'] = [attempt(lambda p=p: r.stdev(p)) for p in r.model.params]
    out['constraints'] = [[c.model.constraint_type.__name__, [re.sub(r'0x[0-9a-f]+', '', str(v)) for v in c.model.values()]] if hasattr(c, 'model') else str(c)
                          for c in (getattr(r, 'constraints', None) or [])]
    out['minimizer'] = type(r.minimizer).__name__
    out['objective type'] = type(r.objective).__name__
    out['report'] = re.sub(r'0x[0-9a-f]+', '', str(r))
    return out


def minimizer(m, inputs):
    out = {'type': type(m).__name__, 'params': [symbol(p) for p in m.params], 'parameters': [symbol(p) for p in m.parameters],
           'objective': type(m.objective).__name__, 'initial': plain(m.initial_guesses)}
    if hasattr(m, 'bounds'):
        out['bounds'] = plain(m.bounds)
    if hasattr(m, 'constraints'):
        out['constraints'] = len(m.constraints)
    if hasattr(m, 'minimizers'):
        out['stages'] = [type(k).__name__ for k in m.minimizers]
    for k in ('jacobian', 'hessian'):
        if getattr(m, k, None) is not None:
            out[k] = attempt(lambda: np.asarray(getattr(m, k)(list(m.initial_guesses))))
    if hasattr(m, 'local_minimizer'):
        out['local'] = type(m.local_minimizer).__name__
    np.random.seed(7)
    try:
        r = m.execute(**inputs['options'])
    except Exception as err:
        out['executed'] = 'raises ' + type(err).__name__
    else:
        out['executed'] = {'params': [[k, float(v)] for k, v in r.params.items()], 'objective': plain(np.asarray(r.objective_value)),
                           'iterations': None if inputs.get('loose') else plain(r.iterations)}
    return out


def symbols(obj, inputs):
    return [symbol(s) for s in obj]


KINDS = {'symbols': symbols, 'model': model, 'output': output, 'objective': objective, 'result': result, 'minimizer': minimizer}


def behave(kind, obj, inputs):
    return KINDS[kind](obj, inputs)


def differences(a, b, rtol, path=''):
    """Where two behaviours differ."""
    if path.endswith('.finite_difference') or path.endswith('.cov') or path.endswith('.stdevs'):
        rtol = max(rtol, 1e-4)      # rounding is amplified
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b or (a != a and b != b) or abs(a - b) <= rtol * (1 + abs(a)):
            return []
        return ['{}: {!r} / {!r}'.format(path, a, b)]
    if type(a) is not type(b):
        return ['{}: {!r} / {!r}'.format(path, a, b)[:300]]
    if isinstance(a, dict):
        if set(a) != set(b):
            return ['{}: keys {} / {}'.format(path, sorted(a), sorted(b))[:300]]
        out = []
        for k in a:
            out += differences(a[k], b[k], rtol, path + '.' + str(k))
        return out
    if isinstance(a, list):
        if len(a) != len(b):
            return ['{}: length {} / {}'.format(path, len(a), len(b))]
        scale = max([abs(x) for x in a if isinstance(x, float) and x == x and abs(x) != float('inf')], default=0)
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, float) and isinstance(y, float) and abs(x - y) <= rtol * scale:
                continue
            out += differences(x, y, rtol, path + '[%d]' % i)
        return out
    return [] if a == b else ['{}: {!r} / {!r}'.format(path, a, b)[:300]]


# -- a fresh interpreter ------------------------------------------------------------------

def server():
    """Fork per request, so every request meets an interpreter which knows no symbols yet."""
    import os
    import sys
    import json
    import pickle
    import traceback
    import warnings
    warnings.simplefilter('ignore')
    import symfit                                   # noqa: F401
    import symmon.record                            # noqa: F401
    sys.stdout.write('ready\n')
    sys.stdout.flush()
    for line in sys.stdin:
        path = line.strip()
        if not path:
            break
        pid = os.fork()
        if pid == 0:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            try:
                np.seterr(all='ignore')
                with open(path, 'rb') as fh:
                    kind, blob, inputs = pickle.load(fh)
                obj = pickle.loads(blob)
                first = behave(kind, obj, inputs)
                again = behave(kind, pickle.loads(pickle.dumps(obj)), inputs)
                out = {'first': first, 'again': again}
            except BaseException as err:
                out = {'error': repr(err)[:400], 'where': traceback.format_exc()[-600:]}
            with open(path + '.out', 'w') as fh:
                json.dump(out, fh)
            os._exit(0)
        os.waitpid(pid, 0)
        sys.stdout.write('done\n')
        sys.stdout.flush()


def execute(args):
    """Runs in a process pool."""
    mini, options = args
    r = mini.execute(**options)
    return [[k, float(v)] for k, v in r.params.items()], plain(np.asarray(r.objective_value))


if __name__ == '__main__':
    server()
