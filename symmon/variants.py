"""Runs a problem given as plain data; used on renamed and permuted copies under several hash seeds.

A description holds ``params`` {name: attributes}, ``comps`` [(name, tree)], ``orders`` and what to do.  Everything
comes back keyed by name.
"""
import random

import numpy as np

from . import expr as E, record
from .gen import Spec


def rename(node, m):
    k = node[0]
    if k == 's':
        return ('s', m.get(node[1], node[1]))
    if k == 'c':
        return node
    if k == 'f':
        return ('f', node[1], rename(node[2], m))
    if k == '^':
        return ('^', rename(node[1], m), node[2])
    return (k,) + tuple(rename(c, m) for c in node[1:])


def renamed(d, m, rng, permute=True):
    """The description under other names (m: old -> new), components and data in another order."""
    g = lambda n: m.get(n, n) if not n.startswith('sigma_') else 'sigma_' + m.get(n[6:], n[6:])
    out = dict(d)
    out['params'] = {g(p): a for p, a in d['params'].items()}
    out['comps'] = [(g(c), rename(t, m)) for c, t in d['comps']]
    out['indep'] = [g(v) for v in d['indep']]
    if permute:
        rng.shuffle(out['comps'])
        out['order'] = rng.randrange(10 ** 6)
    for k in ('data', 'values', 'initial'):
        if k in d:
            out[k] = {g(n): (g(v) if isinstance(v, str) else v) for n, v in d[k].items()}
    if 'points' in d:
        out['points'] = [{g(n): v for n, v in pt.items()} for pt in d['points']]
    if 'constraints' in d:
        out['constraints'] = [({g(n): k for n, k in coef.items()}, rel, b) for coef, rel, b in d['constraints']]
        if permute:
            rng.shuffle(out['constraints'])
    if 'mixed' in d:
        out['mixed'] = [g(c) for c in d['mixed']]
    return out


def back(out, m):
    """Results under the original names (m: old -> new)."""
    inv = {new: old for old, new in m.items()}
    g = lambda n: inv.get(n, n)
    fix = lambda key: tuple(g(k) for k in key) if isinstance(key, tuple) else g(key)
    return {what: {fix(k): v for k, v in part.items()} if isinstance(part, dict) else part for what, part in out.items()}


def build(d):
    from symfit import Parameter, Variable, Model, CallableModel, GradientModel, ODEModel, D, Ge, Le, Eq
    rng = random.Random(d.get('order', 0))
    names = [('p', p) for p in d['params']] + [('v', v) for v in list(d['indep']) + [c for c, _ in d['comps']]]
    rng.shuffle(names)
    syms = {n: Parameter(n, **d['params'][n]) if k == 'p' else Variable(n) for k, n in names}
    comps = dict(d['comps'])
    cls = d['cls']
    if cls == 'ODEModel':
        t = d['indep'][0]
        initial = [(t, d['initial'][t])] + [(c, d['initial'][c]) for c in comps]
        rng.shuffle(initial)
        initial = {syms[c]: (syms[v] if isinstance(v, str) else v) for c, v in initial}
        return syms, ODEModel({D(syms[c], syms[t]): E.to_sympy(n, syms) for c, n in comps.items()}, initial, rtol=1e-9, atol=1e-10), rng
    spec = Spec(d['indep'], list(d['params']), comps)
    if cls == 'CallableNumericalModel':
        spec.model_dict(syms)           # skips expressions in which sympy cancels symbols
        return syms, record.numerical(spec, syms, mixed=d.get('mixed', ())), rng
    return syms, dict(Model=Model, CallableModel=CallableModel, GradientModel=GradientModel)[cls](spec.model_dict(syms)), rng


def ordered(rng, d):
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def arr(v):
    return np.asarray(v, dtype=float)


def evaluate(d):
    syms, m, rng = build(d)
    out = {}
    for i, point in enumerate(d['points']):
        if rng.random() < 0.5:
            r = m(**ordered(rng, point))
            call = lambda f: f(**ordered(rng, point))
        else:
            args = [point[n] for n in sorted(d['indep']) + sorted(d['params'])]
            r = m(*args)
            call = lambda f: f(*args)
        comps = [v.name for v in r.variables]
        out['value%d' % i] = {c: arr(r[k]) for k, c in enumerate(comps)}
        out['attribute%d' % i] = {c: arr(getattr(r, c)) for c in comps}
        out['dict%d' % i] = {k.name: arr(v) for k, v in r._asdict().items()}
        P = sorted(d['params'])
        if hasattr(m, 'eval_jacobian'):
            j = call(m.eval_jacobian)
            out['jacobian%d' % i] = {(c, p): arr(j[k][n]) for k, c in enumerate(comps) for n, p in enumerate(P)}
        if hasattr(m, 'eval_hessian'):
            h = call(m.eval_hessian)
            out['hessian%d' % i] = {(c, p, q): arr(h[k][n][o]) for k, c in enumerate(comps) for n, p in enumerate(P) for o, q in enumerate(P)}
    for what in ('dependent_vars', 'interdependent_vars', 'independent_vars', 'params'):
        out[what] = {v.name: 1.0 for v in getattr(m, what)}
    return out


def objective(d):
    from symfit.core import objectives
    syms, m, rng = build(d)
    data = {syms[k]: v for k, v in ordered(rng, d['data']).items() if not k.startswith('sigma_')}
    for c in m.dependent_vars:
        data[m.sigmas[c]] = d['data'].get('sigma_' + c.name)
        if data[m.sigmas[c]] is None and data.get(c) is not None:
            data[m.sigmas[c]] = np.ones(np.shape(data[c]))
        elif data.get(c) is not None:
            data[m.sigmas[c]] = np.broadcast_to(data[m.sigmas[c]], np.shape(data[c])).astype(float)
    obj = getattr(objectives, d['objective'])(m, data)
    P = sorted(d['params'])
    out = {}
    for i, point in enumerate(d['points']):
        point = ordered(rng, point)
        out['objective%d' % i] = arr(obj(**point)).ravel() if d['objective'] != 'VectorLeastSquares' else np.sort(arr(obj(**point)).ravel())
        if d['objective'] == 'VectorLeastSquares':
            continue
        if hasattr(m, 'eval_jacobian'):
            g = arr(obj.eval_jacobian(**point)).ravel()
            out['gradient%d' % i] = {p: g[n] for n, p in enumerate(P)}
        if hasattr(m, 'eval_hessian'):
            h = np.squeeze(arr(obj.eval_hessian(**point))).reshape(len(P), len(P))
            out['objective hessian%d' % i] = {(p, q): h[n, o] for n, p in enumerate(P) for o, q in enumerate(P)}
    return out


def fit(d):
    from symfit import Fit, Ge, Le, Eq
    from symfit.core import minimizers, objectives
    syms, m, rng = build(d)
    cons = []
    for coef, rel, b in d.get('constraints', ()):
        e = 0
        for p in coef:
            e = e + coef[p] * syms[p]
        cons.append({'>=': Ge, '<=': Le, '==': Eq}[rel](e, b))
    kw = {}
    if cons:
        kw['constraints'] = cons
    if d.get('objective'):
        kw['objective'] = getattr(objectives, d['objective'])
    mini = d.get('minimizer')
    if mini:
        mini = [getattr(minimizers, k) for k in mini.split('+')]
        kw['minimizer'] = mini if len(mini) > 1 else mini[0]
    if d.get('positional'):
        dep = sorted(c.name for c in m.dependent_vars) if d.get('objective') is None else []
        args = [d['data'][n] for n in sorted(d['indep'])] + [d['data'][c] for c in dep] + \
            [d['data'].get('sigma_' + c) for c in dep]
        f = Fit(m, *args, **kw)
    else:
        kw.update(ordered(rng, d['data']))
        f = Fit(m, **kw)
    r = f.execute(**d.get('options', {}))
    P = sorted(d['params'])
    out = {'params': {p: float(v) for p, v in r.params.items()}, 'by lookup': {p: float(r.value(syms[p])) for p in P},
           'objective value': float(np.ravel(r.objective_value)[0]), 'success': bool(r.minimizer_output.get('success', True)),
           'message': str(r.status_message), 'minimizer': type(f.minimizer).__name__}
    if r.covariance_matrix is not None:
        C = arr(r.covariance_matrix)
        out['cov'] = {(p, q): C[n, o] for n, p in enumerate(P) for o, q in enumerate(P)}
        out['stdev'] = {p: r.stdev(syms[p]) for p in P}
        out['covlookup'] = {(p, q): r.covariance(syms[p], syms[q]) for p in P for q in P}
    for k in ('r_squared', 'chi_squared', 'log_likelihood'):
        if hasattr(r, k):
            out[k] = float(getattr(r, k))
    return out


def unnamed(d):
    """A list of expressions: everything comes out in the order written."""
    from symfit import Parameter, Variable, Model, CallableModel, GradientModel, Fit
    rng = random.Random(d.get('order', 0))
    names = [('p', p) for p in d['params']] + [('v', v) for v in d['indep']]
    rng.shuffle(names)
    syms = {n: Parameter(n, **d['params'][n]) if k == 'p' else Variable(n) for k, n in names}
    exprs = [E.to_sympy(t, syms) for _, t in d['comps']]
    seq = tuple(exprs) if d.get('tuple') else list(exprs)
    m = dict(Model=Model, CallableModel=CallableModel, GradientModel=GradientModel)[d['cls']](seq)
    out = {}
    P = sorted(d['params'])
    for i, point in enumerate(d['points']):
        r = m(**point)
        out['value%d' % i] = [arr(x) for x in r]
        if hasattr(m, 'eval_jacobian'):
            out['jacobian%d' % i] = [{p: arr(x[n]) for n, p in enumerate(P)} for x in m.eval_jacobian(**point)]
        if hasattr(m, 'eval_hessian'):
            out['hessian%d' % i] = [{(p, q): arr(x[n][o]) for n, p in enumerate(P) for o, q in enumerate(P)} for x in m.eval_hessian(**point)]
    if 'fit' in d:
        f = Fit(seq, *[d['fit'][v] for v in sorted(d['indep'])], *d['fit']['ys'])
        out['bound'] = [arr(f.data[v]) for v in f.model.dependent_vars]
        r = f.execute()
        out['params'] = {p: float(v) for p, v in r.params.items()}
    return out


DO = {'evaluate': evaluate, 'objective': objective, 'fit': fit, 'unnamed': unnamed}


def do(d):
    return DO[d['do']](d)
