"""C13: fit results are internally consistent."""
import re

import numpy as np
import sympy
from symfit import Fit, Model, GradientModel, CallableModel, CallableNumericalModel, Eq, Ge, Le, Variable
from symfit.core.minimizers import BFGS, LBFGSB, SLSQP, NelderMead, TrustConstr, MINPACK, Powell, COBYLA, BasinHopping
from symfit.core.objectives import LogLikelihood, LeastSquares, MinimizeModel, VectorLeastSquares

from .. import gen, fits, expr as E
from ..core import Skip, Inconclusive

NUM = r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)'


def lookups(ctx, res, syms, names):
    """Value, stdev, variance and covariance belong to their own parameter."""
    ctx.check('parameters-in-order', list(res.params) == names, got=list(res.params), want=names)
    cov = res.covariance_matrix
    for i, p in enumerate(names):
        ctx.check('value-lookup', res.value(syms[p]) == res.params[p], p=p)
        if cov is None:
            ctx.check('no-variance', res.variance(syms[p]) is None and res.stdev(syms[p]) is None, p=p)
            continue
        var, sd = res.variance(syms[p]), res.stdev(syms[p])
        ctx.check('variance-lookup', var == cov[i, i] or np.isnan(var) and np.isnan(cov[i, i]), p=p, got=var, want=cov[i, i])
        if var >= 0:
            ctx.check('stdev-is-root-of-variance', abs(sd - np.sqrt(var)) <= 1e-12 * (1e-300 + abs(sd)), p=p, got=sd, var=var)
        for j, q in enumerate(names):
            c = res.covariance(syms[p], syms[q])
            ctx.check('covariance-lookup', c == cov[i, j] or np.isnan(cov[i, j]), p=[p, q], got=c, want=cov[i, j])
    if cov is not None:
        ctx.check('covariance-shape', np.shape(cov) == (len(names), len(names)), got=np.shape(cov))
        d = np.sqrt(np.abs(np.diag(cov)))
        ctx.check('covariance-symmetric', bool(np.all(np.abs(cov - cov.T) <= 1e-6 * np.outer(d, d) + 1e-300)) or
                  not np.all(np.isfinite(cov)) or d.max() > 1e6 * d[d > 0].min(initial=d.max()), cov=cov)


def report(ctx, res, syms, names, cons=(), conval=None):
    text = str(res)
    lines = text.splitlines()
    rows = {}
    head = next(i for i, l in enumerate(lines) if l.startswith('Parameter'))
    for l, p in zip(lines[head + 1:], names):
        if not ctx.check('report-parameter-row', l.startswith(p), line=l, p=p):
            return
        nums = l[len(p):].split()
        if not ctx.check('report-parameter-row', len(nums) == 2, line=l):
            return
        v, s = nums
        ctx.check('report-value', abs(float(v) - res.params[p]) <= 1e-6 * abs(res.params[p]) + 1e-300, line=l, value=res.params[p])
        sd = res.stdev(syms[p])
        if sd is None:
            ctx.check('report-stdev', s == 'None', line=l)
        else:
            ctx.check('report-stdev', abs(float(s) - sd) <= 1e-6 * abs(sd) + 1e-300 or np.isnan(sd), line=l, stdev=sd)
    ctx.check('report-rows', lines[head + 1 + len(names)].startswith('Status message'), lines=lines)
    ctx.check('report-status', lines[head + 1 + len(names)].split('Status message')[1].strip() == str(res.status_message).splitlines()[0].strip())
    for k, q in res.gof_qualifiers.items():
        mine = [l for l in lines if re.match(re.escape(k) + r'\s', l)]
        if not ctx.check('report-qualifier', len(mine) == 1, qualifier=k, lines=lines):
            continue
        if np.ndim(q) == 0:
            got = float(mine[0][len(k):])
            ctx.check('report-qualifier-value', abs(got - q) <= 1e-5 * abs(q) + 1e-300 or np.isnan(q), line=mine[0], value=q)
    if cons:
        qs = [l for l in lines if l.startswith('Question:')]
        ans = [l for l in lines if l.startswith('Answer:')]
        if not ctx.check('report-constraints', len(qs) == len(ans) == len(cons), lines=lines):
            return
        for q, a, (rel, val) in zip(qs, ans, cons):
            m = re.match(r'Question: (.*) (==|>=|<=) 0\?', q)
            if not ctx.check('report-constraint-line', m is not None, line=q):
                continue
            got = [float(t) for t in re.findall(NUM, a.split('Answer:')[1])]
            if not ctx.check('report-constraint-value', len(got) == 1, line=a):
                continue
            got = got[0]
            tol = 1e-7 * (1 + abs(val))
            if rel == '==':
                ok = m.group(2) == '==' and abs(abs(got) - abs(val)) <= tol
            elif m.group(2) == rel:
                ok = abs(got - val) <= tol
            elif m.group(2) == {'>=': '<=', '<=': '>='}[rel]:
                ok = abs(got + val) <= tol
            else:
                ok = False
            ctx.check('report-constraint', ok, question=q, answer=a, want=(rel, val))
    else:
        ctx.check('no-constraints-in-report', 'Question' not in text)


def attributes(ctx, res, expected):
    ctx.check('qualifiers', set(res.gof_qualifiers) == set(expected), got=sorted(res.gof_qualifiers), want=sorted(expected))
    for k in expected:
        ctx.check('qualifier-attribute', k in res.gof_qualifiers and np.array_equal(getattr(res, k), res.gof_qualifiers[k], equal_nan=True), k=k)
    for k in ('r_squared', 'likelihood', 'no_such_thing'):
        if k not in expected:
            ctx.raises('missing-qualifier', AttributeError, getattr, res, k)


def constraints_for(ctx, pr, syms, best):
    """Random satisfied-or-active constraints: [(sympy relation, rel, f(values))]."""
    rng = ctx.rng
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ps = rng.sample(pr.free, min(len(pr.free), rng.choice([1, 2])))
        co = [round(rng.choice([-1, 1]) * rng.uniform(0.5, 2), 2) for _ in ps]
        at = sum(c * best[p] for c, p in zip(co, ps))
        rhs = round(at + rng.uniform(-0.3, 0.3), 2)
        lhs = sum(c * syms[p] for c, p in zip(co, ps))
        if rng.random() < 0.3:
            q = rng.choice(pr.spec.params)
            lhs, rhs_e = lhs + syms[q] / 7, rhs + syms[q] / 7
        else:
            rhs_e = sympy.Float(rhs)
        rel = rng.choice([Ge, Le, Eq]) if not any(r == '==' for _, r, _ in out) else rng.choice([Ge, Le])
        if rel is Eq and len(ps) == len(pr.free):
            rel = Ge
        con = rel(lhs, rhs_e, evaluate=False) if False else rel(lhs, rhs_e)
        if con in (True, False):
            raise Skip('trivial constraint')
        # sympy may have rewritten the relation: what the user wrote is what it says now
        l, r = con.lhs, con.rhs
        f = sympy.lambdify(sorted((l - r).free_symbols, key=str), l - r)
        nm = sorted(s.name for s in (l - r).free_symbols)
        out.append((con, con.rel_op, lambda v, f=f, nm=nm: float(f(*[v[n] for n in nm]))))
    return out


def least_squares(ctx):
    rng = ctx.rng
    pr = fits.ls_problem(ctx, fixed_p=0.2)
    best, best_v, H, G = pr.solve()
    cls = rng.choice([Model, Model, Model, GradientModel, CallableModel])
    mini = rng.choice([None, BFGS, LBFGSB, SLSQP, MINPACK, TrustConstr, [LBFGSB, BFGS], [NelderMead, BFGS, LBFGSB], NelderMead,
                       COBYLA, BasinHopping, [BFGS, MINPACK]])
    if mini is MINPACK and len({pr.y[c].shape for c in pr.alive}) > 1:
        mini = None
    if cls is CallableModel and mini in (BFGS, MINPACK, TrustConstr) or cls is CallableModel and isinstance(mini, list):
        mini = rng.choice([LBFGSB, SLSQP, NelderMead])
    if rng.random() < 0.2:
        for p in pr.free:
            pr.bounds[p] = (best[p] - 30, None) if rng.random() < 0.5 else (None, best[p] + 30)
    model, syms = pr.build(ctx, cls=cls)
    cons = []
    kw = {}
    if rng.random() < 0.4 and cls is not CallableModel:
        mini = rng.choice([None, SLSQP, TrustConstr, 'COBYLA'])
        cons = constraints_for(ctx, pr, syms, best)
        if mini == 'COBYLA':
            mini = COBYLA if not any(r == '==' for _, r, _ in cons) else None
        kw['constraints'] = [c for c, _, _ in cons]
        ctx.tag('constraints:%d' % len(cons))
    ctx.describe(what='least squares', minimizer=str(mini), cls=cls.__name__, constraints=[str(c) for c, _, _ in cons], **pr.text())
    data = pr.data()
    fit = Fit(model, minimizer=mini, **dict(data, **kw))
    opts = dict(options=dict(maxiter=200)) if mini in (NelderMead, COBYLA) else dict(niter=2) if mini is BasinHopping else {}
    if mini is TrustConstr:
        opts = dict(options=dict(maxiter=100))
    res = fit.execute(**opts)
    names = pr.spec.params
    lookups(ctx, res, syms, names)
    values = {p: float(res.params[p]) for p in names}
    f = pr.f(values)
    S = pr.S(values)
    if not np.isfinite(S):
        raise Inconclusive('diverged')
    got = np.asarray(res.objective_value)
    atol = 1e-12
    if mini is MINPACK:
        want = [np.abs(np.broadcast_to(f[c], pr.y[c].shape) - pr.y[c]) / pr.sig(c) for c in pr.alive]
        if len(want) == 1:
            ctx.close('objective-value', got.ravel(), want[0].ravel(), rtol=1e-6, atol=1e-9)
        else:
            w = np.sqrt(np.sum(np.square(want), axis=0)).ravel()
            ctx.check('objective-value', abs(np.sum(got ** 2) - 2 * S) <= 1e-6 * S + 1e-12, got=got, want=want)
    else:
        ctx.check('objective-value', got.size == 1 and abs(float(got.ravel()[0]) - S) <= 1e-7 * S + atol, got=got, want=S, minimizer=str(mini))
    ctx.check('chi-squared', np.size(res.chi_squared) == 1 and abs(float(np.ravel(res.chi_squared)[0]) - 2 * S) <= 1e-7 * S + atol,
              got=res.chi_squared, want=2 * S)
    rss = sum(np.sum((pr.y[c] - f[c]) ** 2) for c in pr.alive)
    tot = sum(np.sum((pr.y[c] - np.mean(pr.y[c])) ** 2) for c in pr.alive)
    if tot > 1e-6:
        ctx.check('r-squared', abs(res.r_squared - (1 - rss / tot)) <= 1e-9 * (1 + rss / tot), got=res.r_squared, want=1 - rss / tot)
    attributes(ctx, res, ['objective_value', 'chi_squared', 'r_squared'])
    report(ctx, res, syms, names, [(r, g(values)) for _, r, g in cons])
    ctx.tag('minimizer:' + (str([m.__name__ for m in mini]) if isinstance(mini, list) else getattr(mini, '__name__', 'auto')))
    # unpacked into the model
    if not any(pr.y[c] is None for c in pr.spec.dependent):
        again = fit.model(**dict({k: v for k, v in data.items() if k in pr.spec.indep}, **res.params))
        for c in pr.spec.dependent:
            ctx.close('params-unpack', getattr(again, c), f[c], rtol=1e-8, atol=1e-8)


def likelihood(ctx):
    rng = ctx.rng
    pr = fits.like_problem(ctx)
    mini = rng.choice([None, LBFGSB, SLSQP, NelderMead, [NelderMead, LBFGSB]])
    model, syms = pr.build(ctx, cls=rng.choice([Model, GradientModel]))
    ctx.describe(minimizer=str(mini), **pr.text())
    res = Fit(model, minimizer=mini, objective=LogLikelihood, **pr.data()).execute()
    names = pr.spec.params
    lookups(ctx, res, syms, names)
    values = {p: float(res.params[p]) for p in names}
    L = pr.logL(values)
    if not np.isfinite(L):
        raise Inconclusive('diverged')
    t = 1e-9 * (1 + abs(L))
    ctx.check('objective-value', abs(res.objective_value + L) <= t, got=res.objective_value, want=-L)
    ctx.check('log-likelihood', abs(res.log_likelihood - L) <= t, got=res.log_likelihood, want=L)
    ctx.check('likelihood', abs(res.likelihood - np.exp(L)) <= 1e-6 * np.exp(L) + 1e-300, got=res.likelihood, want=np.exp(L))
    attributes(ctx, res, ['objective_value', 'log_likelihood', 'likelihood'])
    report(ctx, res, syms, names)
    ctx.tag('likelihood')


def minimise(ctx):
    rng = ctx.rng
    spec, H, cen, off, quart = fits.convex_problem(ctx)
    P = spec.params
    fixed = [p for p in P if rng.random() < 0.25]
    if len(fixed) == len(P):
        fixed = []
    start = {p: round(rng.uniform(-1, 1), 2) for p in P}
    syms = spec.symbols(values=start, **{p: dict(fixed=True) for p in fixed})
    mini = rng.choice([None, BFGS, SLSQP, TrustConstr, NelderMead, Powell, BasinHopping])
    c = spec.names[0]
    numeric = rng.random() < 0.3
    if numeric:
        f = lambda **kw: float(spec.values(kw)[c][0])
        model = CallableNumericalModel({syms[c]: f}, connectivity_mapping={syms[c]: {syms[p] for p in P}})
        mini = rng.choice([None, NelderMead, Powell])
    else:
        model = Model(spec.model_dict(syms))
    ctx.describe(what='minimise', minimizer=str(mini), H=H, start=start, fixed=fixed, quart=quart, numeric=numeric)
    ctx.tag('minimise', 'numeric' if numeric else 'symbolic')
    res = Fit(model, minimizer=mini).execute(**(dict(niter=2) if mini is BasinHopping else {}))
    lookups(ctx, res, syms, P)
    values = {p: float(res.params[p]) for p in P}
    want = float(spec.values(values)[c][0])
    got = np.asarray(res.objective_value)
    ctx.check('objective-value', got.size == 1 and abs(float(got.ravel()[0]) - want) <= 1e-8 * (1 + abs(want)), got=got, want=want)
    attributes(ctx, res, ['objective_value'])
    report(ctx, res, syms, P)


def case(ctx):
    r = ctx.rng.random()
    if r < 0.65:
        least_squares(ctx)
    elif r < 0.82:
        likelihood(ctx)
    else:
        minimise(ctx)
