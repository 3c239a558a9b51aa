"""C08: fixed parameters never move and act as constants."""
import numpy as np
from symfit import Fit, Model, GradientModel, CallableModel
from symfit.core.minimizers import (BFGS, LBFGSB, SLSQP, NelderMead, Powell, COBYLA, TrustConstr, MINPACK,
                                    DifferentialEvolution, BasinHopping)
from symfit.core.objectives import LogLikelihood, LeastSquares

from .. import gen, fits, expr as E, record
from ..core import Skip, Inconclusive
from ..gen import Spec

MINI = ['auto', 'auto', 'BFGS', 'LBFGSB', 'SLSQP', 'NelderMead', 'Powell', 'COBYLA', 'TrustConstr', 'MINPACK', 'MINPACK',
        'DE', 'BasinHopping', 'NelderMead+BFGS', 'SLSQP+MINPACK', 'LBFGSB+NelderMead+TrustConstr', 'DE+BFGS', 'BFGS+BFGS']


def make(name, rng):
    ns = dict(BFGS=BFGS, LBFGSB=LBFGSB, SLSQP=SLSQP, NelderMead=NelderMead, Powell=Powell, COBYLA=COBYLA,
              TrustConstr=TrustConstr, MINPACK=MINPACK, DE=DifferentialEvolution, BasinHopping=BasinHopping)
    if name == 'auto':
        return None, {}
    parts = [ns[p] for p in name.split('+')]
    if len(parts) == 1:
        opts = {'DE': dict(seed=3, maxiter=8, popsize=5, tol=1e-4), 'BasinHopping': dict(niter=2, seed=4),
                'NelderMead': dict(options=dict(maxiter=400)), 'COBYLA': dict(options=dict(maxiter=600)),
                'Powell': dict(options=dict(maxiter=30)), 'TrustConstr': dict(options=dict(maxiter=200))}.get(name, {})
        return parts[0], opts
    opts = {}
    if 'DE' in name:
        opts['DifferentialEvolution'] = dict(seed=3, maxiter=5, popsize=5)
    if 'NelderMead' in name:
        opts['NelderMead'] = dict(options=dict(maxiter=60))
    if 'TrustConstr' in name:
        opts['TrustConstr'] = dict(options=dict(maxiter=100))
    return parts, opts


LOOSE = ('NelderMead', 'Powell', 'COBYLA', 'DE', 'DE+BFGS')


def substituted(pr):
    """The same problem with the fixed values written into the model."""
    vals = {p: pr.start[p] for p in pr.fixed}
    comps = {c: E.substitute(n, vals) for c, n in pr.spec.comps.items()}
    return Spec(pr.spec.indep, [p for p in pr.spec.params if p not in pr.fixed], comps, order=pr.spec.topo)


def fit_one(spec, syms, data, mini, opts, objective, cls, log, ctx, numeric, absolute):
    if numeric:
        model = record.numerical(spec, syms, log)
    else:
        model = record.recording(cls, log)(spec.model_dict(syms, gen.shuffled(ctx.rng, spec.comps)))
    kw = dict(data)
    if objective is not None:
        kw['objective'] = objective
    if absolute is not None:
        kw['absolute_sigma'] = absolute
    fit = Fit(model, minimizer=mini, **kw)
    return fit, fit.execute(**opts)


def case(ctx):
    rng = ctx.rng
    like = rng.random() < 0.2
    if like:
        pr = fits.like_problem(ctx, kinds=('gaussian', 'mixture'), fixed_p=0.0)
        objective = LogLikelihood
    else:
        pr = fits.ls_problem(ctx, none_ok=rng.random() < 0.5)
        objective = None
    names = pr.spec.params
    if len(names) < 2:
        raise Skip('one parameter')
    k = rng.randint(1, len(names) - 1)
    pr.fixed = sorted(rng.sample(names, k))
    for p in pr.fixed:
        if pr.kind == 'lin' and rng.random() < 0.3:
            pr.start[p] = rng.choice([0.0, 1.0, -1.0])
        elif rng.random() < 0.5:
            pr.start[p] = round(pr.truth[p] * 1.01, 5)
        else:
            pr.start[p] = pr.truth[p] + 1 / 3. * 1e-3     # not a round number
    name = rng.choice(MINI)
    if like and name in ('MINPACK', 'SLSQP+MINPACK', 'COBYLA', 'Powell'):
        name = 'LBFGSB'
    if name == 'MINPACK' and not like and len({pr.y[c].shape for c in pr.alive}) > 1:
        name = 'BFGS'
    sub = substituted(pr)
    free = pr.free
    if set(sub.params) != set().union(*[sub.uses(c) for c in (pr.alive if not like else sub.dependent)]) - set(sub.indep):
        raise Skip('a parameter vanished')
    for c in sub.names:
        if not E.symbols_of(sub.comps[c]) or not like and not sub.uses(c) & set(sub.indep):
            raise Skip('constant component')
    sol = pr.solve()
    best, best_v, H = sol[0], sol[1], sol[2]
    if not like and pr.kind == 'nonlin':
        for p in free:
            pr.start[p] = round(best[p] * (1 + rng.uniform(-.05, .05)) + rng.uniform(-.02, .02), 4)
    attrs = {p: dict(fixed=True) for p in pr.fixed}
    for p in free:
        attrs[p] = {}
        if 'DE' in name:
            attrs[p] = dict(min=round(min(best[p], pr.start[p]) - 0.5, 3), max=round(max(best[p], pr.start[p]) + 0.5, 3))
        elif like and p in pr.lower:
            attrs[p] = dict(min=pr.lower[p])
        elif rng.random() < 0.15:
            attrs[p] = dict(min=min(best[p], pr.start[p]) - 20.0)
    for p in pr.fixed:
        if rng.random() < 0.3:
            attrs[p].update(min=pr.start[p] - 1, max=pr.start[p] + 1)
        elif rng.random() < 0.3:
            # bounds of a fixed parameter have no meaning, even when they exclude its value
            attrs[p].update(rng.choice([dict(min=pr.start[p] + 0.5), dict(max=pr.start[p] - 0.25),
                                        dict(min=pr.start[p] + 0.5, max=pr.start[p] + 2),
                                        dict(min=pr.start[p] - 2, max=pr.start[p] - 1)]))
            ctx.tag('fixed-outside-bounds')
    if like and 'DE' in name:
        name = 'SLSQP'
    mini, opts = make(name, rng)
    cls = rng.choice([Model, Model, GradientModel])
    numeric = not like and rng.random() < 0.15 and name in ('auto', 'LBFGSB', 'SLSQP', 'NelderMead', 'Powell', 'COBYLA')
    absolute = rng.choice([None, None, True, False]) if not like else None
    import copy
    syms = pr.spec.symbols(values=pr.start, **attrs)
    log = []
    ctx.describe(minimizer=name, cls=cls.__name__, numeric=numeric, fixed=pr.fixed, attrs=attrs, problem=pr.text())
    ctx.tag('minimizer:' + name, 'fixed:%d of %d' % (k, len(names)), 'first' if names[0] in pr.fixed else 'later')
    fit, res = fit_one(pr.spec, syms, pr.data(), mini, copy.deepcopy(opts), objective, cls, log, ctx, numeric, absolute)
    # never moved
    n = 0
    for kind, env, *_ in log:
        for p in pr.fixed:
            if p in env:
                n += 1
                if not (np.ndim(env[p]) == 0 and env[p] == pr.start[p]):
                    ctx.check('fixed-in-every-evaluation', False, p=p, got=env[p], want=pr.start[p], kind=kind, minimizer=name)
                    break
    ctx.check('fixed-in-every-evaluation', n > 0, evaluations=len(log))
    ctx.tag('evaluations-seen')
    ctx.evals += n
    for p in pr.fixed:
        ctx.check('fixed-reported', res.params[p] == pr.start[p] and res.value(syms[p]) == pr.start[p], p=p,
                  got=res.params[p], want=pr.start[p])
        ctx.check('parameter-unchanged', syms[p].fixed and syms[p].value == pr.start[p], p=p)
    ctx.check('order', list(res.params) == names, got=list(res.params))
    cov = res.covariance_matrix
    if cov is not None:
        for p in pr.fixed:
            i = names.index(p)
            ctx.check('fixed-zero-variance', np.all(cov[i] == 0) and np.all(cov[:, i] == 0) and res.variance(syms[p]) == 0 and
                      res.stdev(syms[p]) == 0, p=p, cov=cov)
    # equals the substituted problem
    syms2 = sub.symbols(values={p: pr.start[p] for p in free}, **{p: attrs[p] for p in free})
    fit2, res2 = fit_one(sub, syms2, pr.data(), mini, copy.deepcopy(opts), objective, cls, [], ctx, numeric, absolute)
    ctx.check('substituted-parameters', list(res2.params) == free, got=list(res2.params))
    x1 = np.array([float(res.params[p]) for p in free])
    x2 = np.array([float(res2.params[p]) for p in free])
    v1, v2 = (pr.expand(dict(zip(free, x)))[0] for x in (x1, x2))
    tol = 1e-3 if name in LOOSE else 1e-5
    if not (np.isfinite(v1) and np.isfinite(v2)):
        raise Inconclusive('diverged')
    if abs(v2 - best_v) <= tol * (1 + abs(best_v)):
        ctx.check('same-objective', abs(v1 - v2) <= tol * (1 + abs(v2)), got=v1, want=v2, minimizer=name)
        d = x1 - x2
        ctx.check('same-parameters', 0.5 * d @ H @ d <= 4 * tol * (1 + abs(best_v)), got=x1, want=x2, minimizer=name)
    else:
        ctx.tag('not converged')
    cov2 = res2.covariance_matrix
    if abs(v2 - best_v) > tol * (1 + abs(best_v)):
        return
    ctx.check('same-uncertainty-kind', (cov is None) == (cov2 is None), minimizer=name, got=cov, want=cov2)
    if cov is not None and cov2 is not None and name not in LOOSE and (absolute or v2 > 1e-8 or like):
        i = [names.index(p) for p in free]
        sub_cov = cov[np.ix_(i, i)]
        w = np.linalg.eigvalsh(H)
        if np.all(np.diag(cov2) > 0) and np.all(np.isfinite(cov2)):
            sc = np.sqrt(np.outer(np.diag(cov2), np.diag(cov2)))
            if np.linalg.cond(cov2 / sc) < 1e4 and abs(v1 - v2) <= 1e-5 * abs(v2) + 1e-300:
                ctx.check('same-uncertainties', np.all(np.abs(sub_cov - cov2) <= 3e-2 * sc), got=sub_cov, want=cov2, minimizer=name)
