"""C11: convergence to the known optimum."""
import numpy as np
from symfit import Fit, Model, Parameter, Variable, parameters, variables, exp, log, sqrt, pi
from symfit.core.minimizers import (BFGS, LBFGSB, SLSQP, NelderMead, Powell, COBYLA, TrustConstr, MINPACK,
                                    DifferentialEvolution, BasinHopping)
from symfit.core.objectives import LogLikelihood, LeastSquares, MinimizeModel

from .. import gen, fits
from ..core import Skip, Inconclusive

GRAD = [BFGS, LBFGSB, SLSQP, TrustConstr, MINPACK]
MINIMIZERS = [None, None, BFGS, LBFGSB, SLSQP, NelderMead, Powell, COBYLA, TrustConstr, MINPACK,
              'DE', 'BasinHopping', [NelderMead, BFGS], [BFGS, MINPACK], [LBFGSB, NelderMead, SLSQP], 'DE+']


def label(m):
    return m if isinstance(m, str) else 'auto' if m is None else m.__name__ if not isinstance(m, list) else \
        '+'.join(k.__name__ for k in m)


def run(ctx, model, kw, choice, rng):
    """Fit with the chosen minimizer; returns (result, allowed relative excess)."""
    opts, tol = {}, 2e-6
    if choice == 'DE':
        mini, opts, tol = DifferentialEvolution, dict(seed=rng.randrange(1000), maxiter=150, popsize=12, tol=1e-6), 2e-2
    elif choice == 'DE+':
        mini, opts = [DifferentialEvolution, BFGS], dict(DifferentialEvolution=dict(seed=1, maxiter=20, popsize=8))
    elif choice == 'BasinHopping':
        mini, opts = BasinHopping, dict(niter=3, seed=rng.randrange(1000))
    else:
        mini = choice
        if choice is NelderMead:
            opts, tol = dict(options=dict(maxiter=6000, maxfev=6000)), 1e-5
        if choice is COBYLA:
            opts, tol = dict(options=dict(maxiter=8000)), 1e-3
        if choice is Powell:
            tol = 1e-4
        if choice is MINPACK:
            tol = 1e-5
        if choice is TrustConstr:
            tol = 1e-4
    fit = Fit(model, minimizer=mini, **kw) if mini is not None else Fit(model, **kw)
    return fit, fit.execute(**opts), tol


def judge(ctx, S, free, found, best, best_v, S0, tol, lab, H=None, scale=1.0):
    got = S(found)
    ctx.check('optimal-value', got - best_v <= tol * (scale + abs(best_v)), minimizer=lab, got=got, want=best_v,
              found=found, best=best, tol=tol)
    if S0 is not None:
        ctx.check('not-worse-than-start', got <= S0 + 1e-9 * (1 + abs(S0)), minimizer=lab, got=got, start=S0, found=found)
    if H is not None:
        # distance to the optimum in the metric of the curvature
        d = np.array([found[p] - best[p] for p in free])
        ctx.check('optimal-parameters', 0.5 * d @ H @ d <= 2 * tol * (scale + abs(best_v)) + 1e-12, minimizer=lab,
                  found=found, best=best)


def least_squares(ctx):
    rng = ctx.rng
    pr = fits.ls_problem(ctx, fixed_p=0.15)
    best, best_v, H, G = pr.solve()
    choice = rng.choice(MINIMIZERS)
    if choice in ('DE', 'DE+'):
        for p in pr.free:
            pr.bounds[p] = (round(best[p] - rng.uniform(0.5, 2), 3), round(best[p] + rng.uniform(0.5, 2), 3))
            if pr.kind == 'nonlin':
                pr.bounds[p] = (round(best[p] - 0.3, 3), round(best[p] + 0.3, 3))
        if choice == 'DE+':
            pass
    model, syms = pr.build(ctx)
    data = pr.data()
    vector = choice is MINPACK or isinstance(choice, list) and MINPACK in choice
    if vector and len({pr.y[c].shape for c in pr.alive}) > 1:
        choice, vector = BFGS, False
    if isinstance(choice, list) and MINPACK in choice:
        choice = [NelderMead, BFGS]
    lab = label(choice)
    ctx.describe(minimizer=lab, **pr.text())
    ctx.tag('minimizer:' + lab)
    fit, res, tol = run(ctx, model, data, choice, rng)
    ctx.check('all-reported', list(res.params) == pr.spec.params, got=list(res.params))
    found = {p: float(res.params[p]) for p in pr.free}
    for p in pr.fixed:
        ctx.check('fixed-kept', res.params[p] == pr.start[p], p=p)
    S0 = pr.S(pr.start) if choice not in ('DE', 'DE+') else None
    scale = 1.0
    judge(ctx, pr.S, pr.free, found, best, best_v, S0, tol, lab, H if pr.kind == 'lin' or tol < 1e-3 else None, scale)


def separate(ctx):
    """Datasets which share nothing: joint fit equals the separate fits."""
    rng = ctx.rng
    pr = fits.ls_problem(ctx, n_comp=rng.choice([2, 2, 3]), separate=True, none_ok=False, interdep=False)
    best, best_v, H, G = pr.solve()
    model, syms = pr.build(ctx)
    choice = rng.choice([None, LBFGSB, SLSQP, BFGS])
    ctx.describe(what='separate', minimizer=label(choice), **pr.text())
    ctx.tag('separate')
    joint = Fit(model, minimizer=choice, **pr.data()).execute()
    for c in pr.spec.names:
        use = pr.spec.uses(c)
        kw = {k: v for k, v in pr.data().items() if k in use or k in (c, 'sigma_' + c)}
        one = Fit(Model({syms[c]: model[syms[c]]}), minimizer=choice, **kw).execute()
        mine = [p for p in pr.spec.params if p in use]
        ctx.check('separate-parameters', list(one.params) == mine, got=list(one.params))
        x1 = np.array([one.params[p] for p in mine])
        x2 = np.array([joint.params[p] for p in mine])
        i = [pr.free.index(p) for p in mine]
        sub = H[np.ix_(i, i)]
        d = x1 - x2
        ctx.check('joint-equals-separate', 0.5 * d @ sub @ d <= 1e-5 * (1 + best_v), component=c, joint=x2, single=x1)
        if pr.s[c] is not None:
            # absolute sigmas: uncertainties agree as well
            v1 = np.array([one.stdev(syms[p]) for p in mine], dtype=float)
            v2 = np.array([joint.stdev(syms[p]) for p in mine], dtype=float)
            ctx.close('joint-stdev-equals-separate', v2, v1, rtol=2e-2, atol=1e-6, component=c)


def likelihood(ctx):
    rng, npr = ctx.rng, ctx.np
    kind = rng.choice(['exponential', 'gaussian', 'rayleigh', 'mixed'])
    n = rng.randint(15, 60)
    pn = gen.names(rng, gen.PARAM_NAMES, 3)
    vn = gen.names(rng, gen.VAR_NAMES, 2, pn)
    cn = gen.names(rng, gen.COMP_NAMES, 2, pn + vn)
    x, x2 = variables(', '.join(vn))
    y, y2 = variables(', '.join(cn))
    choice = rng.choice([None, BFGS, LBFGSB, SLSQP, NelderMead, TrustConstr, [NelderMead, LBFGSB]])
    lab = label(choice)
    expo = lambda b: np.round(npr.exponential(b, n) + 1e-3, 5)
    gx = np.round(npr.normal(rng.uniform(-2, 2), rng.uniform(0.5, 2), n), 5)
    near = lambda best: dict(value=round(best * rng.uniform(0.8, 1.4), 3), min=round(0.3 * best, 3))
    if kind == 'exponential':
        data = {vn[0]: expo(rng.uniform(0.7, 3))}
        b = Parameter(pn[0], **near(float(np.mean(data[vn[0]]))))
        model = {y: exp(-x / b) / b}
        best = {pn[0]: float(np.mean(data[vn[0]]))}
        nll = lambda v: sum(data[vn[0]] / v[pn[0]] + np.log(v[pn[0]]))
    elif kind == 'rayleigh':
        data = {vn[0]: np.round(npr.rayleigh(rng.uniform(0.7, 2), n) + 1e-3, 5)}
        b = Parameter(pn[0], **near(float(np.sqrt(np.mean(data[vn[0]] ** 2) / 2))))
        model = {y: x / b ** 2 * exp(-x ** 2 / (2 * b ** 2))}
        best = {pn[0]: float(np.sqrt(np.mean(data[vn[0]] ** 2) / 2))}
        nll = lambda v: sum(data[vn[0]] ** 2 / (2 * v[pn[0]] ** 2) - np.log(data[vn[0]] / v[pn[0]] ** 2))
    elif kind == 'gaussian':
        m = Parameter(pn[0], value=round(float(np.mean(gx)) + rng.uniform(-0.5, 0.5), 2))
        s = Parameter(pn[1], **near(float(np.std(gx))))
        data = {vn[0]: gx}
        model = {y: exp(-(x - m) ** 2 / (2 * s ** 2)) / sqrt(2 * pi * s ** 2)}
        best = {pn[0]: float(np.mean(gx)), pn[1]: float(np.std(gx))}
        nll = lambda v: sum((gx - v[pn[0]]) ** 2 / (2 * v[pn[1]] ** 2) + 0.5 * np.log(2 * np.pi * v[pn[1]] ** 2))
    else:   # two components, different lengths, shared parameter
        d1 = expo(rng.uniform(0.7, 2))
        d2 = np.round(npr.exponential(rng.uniform(0.7, 2), n // 2) + 1e-3, 5)
        data = {vn[0]: d1, vn[1]: d2}
        b = Parameter(pn[0], **near(float((np.sum(d1) + 2 * np.sum(d2)) / (len(d1) + len(d2)))))
        model = {y: exp(-x / b) / b, y2: exp(-2 * x2 / b) * 2 / b}
        best = {pn[0]: float((np.sum(d1) + 2 * np.sum(d2)) / (len(d1) + len(d2)))}
        nll = lambda v: sum(d1 / v[pn[0]] + np.log(v[pn[0]])) + sum(2 * d2 / v[pn[0]] + np.log(v[pn[0]] / 2))
    ctx.describe(what='likelihood', kind=kind, minimizer=lab, data=data, best=best, model=str(model))
    ctx.tag('likelihood:' + kind, 'minimizer:' + lab)
    kw = dict(data, objective=LogLikelihood)
    m_ = Model(model)
    start = {p.name: p.value for p in m_.params}
    fit, res, tol = run(ctx, m_, kw, choice, rng)
    found = {p: float(v) for p, v in res.params.items()}
    judge(ctx, nll, sorted(best), found, best, nll(best), nll(start), tol, lab, scale=1.0)
    for p in best:
        ctx.check('maximum-likelihood-estimate', abs(found[p] - best[p]) <= 2e-3 * (1 + abs(best[p])) if tol < 1e-3 else True,
                  p=p, found=found, best=best, minimizer=lab)


def minimise(ctx):
    """Convex minimisation of a model."""
    rng, npr = ctx.rng, ctx.np
    n = rng.randint(1, 4)
    pn = sorted(gen.names(rng, gen.PARAM_NAMES, n))
    A = npr.normal(size=(n, n))
    H = np.round(A @ A.T + 0.7 * np.eye(n), 3)
    c = np.round(npr.uniform(-2, 2, n), 3)
    off = round(rng.uniform(-3, 3), 2)
    P = [Parameter(q, value=rng.choice([1.0, 0.0, round(rng.uniform(-3, 3), 2)])) for q in pn]
    e = off
    for i in range(n):
        for j in range(n):
            e = e + 0.5 * H[i, j] * (P[i] - c[i]) * (P[j] - c[j])
    quart = rng.random() < 0.3
    if quart:
        e = e + sum((P[i] - c[i]) ** 4 for i in range(n)) * 0.1
    f = lambda v: off + 0.5 * (np.array([v[q] for q in pn]) - c) @ H @ (np.array([v[q] for q in pn]) - c) + \
        (0.1 * sum((v[q] - k) ** 4 for q, k in zip(pn, c)) if quart else 0)
    choice = rng.choice([None, BFGS, LBFGSB, SLSQP, NelderMead, Powell, COBYLA, TrustConstr, 'BasinHopping', [NelderMead, BFGS]])
    lab = label(choice)
    start = {p.name: p.value for p in P}
    best = dict(zip(pn, c.tolist()))
    y = Variable(gen.names(rng, gen.COMP_NAMES, 1, pn)[0])
    ctx.describe(what='minimise', minimizer=lab, H=H, c=c, start=start, quart=quart, offset=off)
    ctx.tag('minimise', 'minimizer:' + lab)
    model = rng.choice([Model({y: e}), {y: e}, e])
    fit, res, tol = run(ctx, model, {}, choice, rng)
    found = {p: float(v) for p, v in res.params.items()}
    judge(ctx, f, pn, found, best, off, f(start), tol, lab, H, scale=1.0)


def case(ctx):
    r = ctx.rng.random()
    if r < 0.6:
        least_squares(ctx)
    elif r < 0.72:
        separate(ctx)
    elif r < 0.86:
        likelihood(ctx)
    else:
        minimise(ctx)
