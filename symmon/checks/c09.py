"""C09: bounded fits stay inside the bounds and find the constrained optimum."""
import numpy as np
from symfit import Fit, Model, GradientModel, CallableModel
from symfit.core.minimizers import (BFGS, LBFGSB, SLSQP, NelderMead, TrustConstr, MINPACK, DifferentialEvolution,
                                    BasinHopping)
from symfit.core.objectives import LogLikelihood

from .. import gen, fits, expr as E, record
from ..core import Skip, Inconclusive

MINI = ['auto', 'auto', 'LBFGSB', 'SLSQP', 'TrustConstr', 'MINPACK', 'MINPACK', 'DE', 'BasinHopping', 'LBFGSB+SLSQP',
        'DE+LBFGSB', 'SLSQP+TrustConstr', 'NelderMead*+LBFGSB']
FEASIBLE = ('auto', 'LBFGSB', 'MINPACK', 'DE', 'DE+LBFGSB')


def algorithms(name):
    return {'auto': ['LBFGSB'], 'BasinHopping': ['LBFGSB', 'BFGS'], 'DE': []}.get(name, name.split('+'))


def make(name, rng):
    ns = dict(BFGS=BFGS, LBFGSB=LBFGSB, SLSQP=SLSQP, TrustConstr=TrustConstr, MINPACK=MINPACK, DE=DifferentialEvolution,
              BasinHopping=BasinHopping, NelderMead=NelderMead)
    if name == 'auto':
        return None, {}, 1e-6
    if name == 'DE':
        return DifferentialEvolution, dict(seed=rng.randrange(99), maxiter=120, popsize=10, tol=1e-7), 2e-2
    if name == 'DE+LBFGSB':
        return [DifferentialEvolution, LBFGSB], dict(DifferentialEvolution=dict(seed=rng.randrange(99), maxiter=10, popsize=6)), 1e-6
    if name == 'BasinHopping':
        return BasinHopping, dict(niter=2, seed=3), 1e-5
    parts = [ns[p] for p in name.split('+')]
    tol = {'SLSQP': 1e-6, 'LBFGSB': 1e-6, 'MINPACK': 1e-4, 'TrustConstr': 2e-3}[name.split('+')[-1]]
    return (parts if len(parts) > 1 else parts[0]), {}, tol


def again(model, name, rng, data):
    mini, opts, _ = make(name, rng)
    return Fit(model, minimizer=mini, **data).execute(**opts)


def make_box(ctx, free, best, must_all, interior=False):
    """Bounds, some of which cut off the optimum; and a start inside."""
    rng = ctx.rng
    bounds, start = {}, {}
    for p in free:
        kind = rng.choice(['none', 'both', 'both', 'min', 'max', 'min', 'max']) if not must_all else 'both'
        b = best[p]
        if kind == 'none':
            start[p] = round(b + rng.uniform(-1, 1), 3)
            continue
        cut = rng.choice(['in', 'below', 'above', 'zero', 'in'])
        w = round(rng.uniform(0.3, 2), 3)
        if cut == 'in':
            lo, hi = round(b - w, 3), round(b + rng.uniform(0.3, 2), 3)
        elif cut == 'below':        # the box lies below the optimum
            hi = round(b - rng.uniform(0.05, 1), 3)
            lo = round(hi - w, 3)
        elif cut == 'above':
            lo = round(b + rng.uniform(0.05, 1), 3)
            hi = round(lo + w, 3)
        else:
            lo, hi = (0.0, round(w + max(b, 0), 3)) if rng.random() < 0.5 else (round(-w + min(b, 0), 3), 0.0)
            lo, hi = rng.choice([(lo, hi), (float(int(lo)), hi) if int(lo) < hi else (lo, hi)])
        # exactly representable integers as bounds as well
        if rng.random() < 0.15 and int(lo) < hi and int(lo) != lo:
            lo = int(lo)
        if kind == 'min':
            hi = None
        elif kind == 'max':
            lo = None
        bounds[p] = (lo, hi)
        l = lo if lo is not None else hi - 1.5
        h = hi if hi is not None else lo + 1.5
        inside = float(l + (h - l) * rng.uniform(0.1, 0.9))
        start[p] = inside if interior else rng.choice([inside] * 4 + [float(l) if lo is not None else l + .3] +
                              [float(h) if hi is not None else h - .3])
        ctx.tag('bound:' + kind + '/' + cut)
    return bounds, start


def judge_box(ctx, res, bounds, names, slack, name):
    for p in names:
        lo, hi = bounds.get(p, (None, None))
        v = res.params[p]
        ok = (lo is None or v >= lo - slack) and (hi is None or v <= hi + slack)
        if lo is not None or hi is not None:
            ctx.check('reported-within-bounds', ok, p=p, value=v, bounds=(lo, hi), minimizer=name)


def judge_log(ctx, log, bounds, name):
    n, low = 0, {}
    for kind, env, *_ in log:
        for p, v in env.items():
            if p in bounds:
                lo, hi = bounds[p]
                n += 1
                eps = 1e-12 * (1 + abs(v))
                if (lo is not None and v < lo - eps) or (hi is not None and v > hi + eps):
                    ctx.check('evaluated-within-bounds', False, p=p, value=v, bounds=(lo, hi), minimizer=name, kind=kind)
                    return
    if n:
        ctx.check('evaluated-within-bounds', True)
        ctx.evals += n


def least_squares(ctx):
    rng = ctx.rng
    name = rng.choice(MINI)
    pr = fits.ls_problem(ctx, kind='lin', fixed_p=0.15, noise=rng.choice([0.0, 0.1, 0.3]))
    pr.solve()
    if name == 'MINPACK' and len({pr.y[c].shape for c in pr.alive}) > 1:
        name = 'auto'
    best, _, H, G = pr.solve()
    H, g0, const = fits.quadratic_form(pr)
    pr.bounds, start = make_box(ctx, pr.free, best, must_all='DE' in name, interior=name == 'MINPACK')
    pr.start.update(start)
    if name == 'NelderMead*+LBFGSB' or not pr.bounds and name in ('auto', 'LBFGSB'):
        name = 'LBFGSB'
    x = fits.qp(H, g0, fits.box_rows(pr))
    if x is None:
        raise Skip('no oracle')
    want = dict(zip(pr.free, x))
    cls = rng.choice([Model, Model, GradientModel, CallableModel]) if name in ('auto', 'LBFGSB', 'SLSQP') else Model
    log = []
    syms = pr.symbols()
    numeric = name in ('auto', 'LBFGSB') and rng.random() < 0.15
    if numeric:
        model = record.numerical(pr.spec, syms, log)
    else:
        model = record.recording(cls, log)(pr.spec.model_dict(syms, gen.shuffled(rng, pr.spec.comps)))
    mini, opts, tol = make(name, rng)
    ctx.describe(minimizer=name, cls=cls.__name__, numeric=numeric, want=want, **pr.text())
    ctx.tag('minimizer:' + name)
    fit = Fit(model, minimizer=mini, **pr.data())
    res = fit.execute(**opts)
    names = pr.spec.params
    slack = 1e-6 if 'Trust' in name else 1e-9
    judge_box(ctx, res, pr.bounds, names, slack, name)
    if name in FEASIBLE:
        judge_log(ctx, log if not numeric else log, pr.bounds, name)
    found = {p: float(res.params[p]) for p in pr.free}
    S, S0 = pr.S(found), pr.S(want)
    active = any(abs(want[p] - b) < 1e-9 for p, bb in pr.bounds.items() for b in bb if b is not None)
    ctx.tag('active' if active else 'inactive')
    if not res.minimizer_output.get('success', True):
        raise Inconclusive('minimizer reports failure: ' + str(res.status_message))
    scale = 1 + abs(S0)
    if S - S0 > tol * scale + 1e-9 and fits.struggles(pr, algorithms(name), S0, tol, found):
        raise Inconclusive('scipy does not solve it either')
    if S - S0 > tol * scale + 1e-9 and fits.second_chance(
            rng, syms, pr.free, pr.bounds, pr.start, found, lambda: again(model, name, rng, pr.data()),
            lambda r: pr.S({p: float(r.params[p]) for p in pr.free}), S0 + tol * scale + 1e-9):
        raise Inconclusive('missed by chance')
    ctx.check('constrained-optimum', -tol * scale - 1e-5 * ('Trust' in name) * scale <= S - S0 <= tol * scale + 1e-9, minimizer=name, got=S, want=S0,
              found=found, best=want, success=res.minimizer_output.get('success'))
    # parameters keep what the user gave them
    for p in names:
        lo, hi = pr.bounds.get(p, (None, None))
        ctx.check('bounds-unchanged', (syms[p].min, syms[p].max) == (lo, hi), p=p)


def minimise(ctx):
    rng = ctx.rng
    name = rng.choice([m for m in MINI if 'MINPACK' not in m and '*' not in m])
    spec, H, cen, off, quart = fits.convex_problem(ctx)
    if quart:
        raise Skip('quartic')
    P = spec.params
    bounds, start = make_box(ctx, P, cen, must_all='DE' in name)
    if not bounds and name == 'auto':
        name = 'LBFGSB'
    syms = spec.symbols(values=start, **{p: {k: v for k, v in zip(('min', 'max'), b) if v is not None} for p, b in bounds.items()})
    log = []
    numeric = rng.random() < 0.25 and name in ('auto', 'LBFGSB', 'SLSQP', 'DE')
    model = record.numerical(spec, syms, log) if numeric else record.recording(Model, log)(spec.model_dict(syms))
    pr = fits.Prob()
    pr.spec, pr.fixed, pr.bounds = spec, [], bounds
    c = np.array([cen[p] for p in P])
    x = fits.qp(H, H @ c, fits.box_rows(pr))
    want = dict(zip(P, x))
    f = lambda v: float(spec.values(v)[spec.names[0]][0])
    mini, opts, tol = make(name, rng)
    ctx.describe(what='minimise', minimizer=name, H=H, centre=cen, bounds=bounds, start=start, numeric=numeric, want=want)
    ctx.tag('minimise', 'minimizer:' + name)
    res = Fit(model, minimizer=mini).execute(**opts)
    judge_box(ctx, res, bounds, P, 1e-6 if 'Trust' in name else 1e-9, name)
    if name in FEASIBLE:
        judge_log(ctx, log, bounds, name)
    if not res.minimizer_output.get('success', True):
        raise Inconclusive('minimizer reports failure')
    got, best = f({p: float(res.params[p]) for p in P}), f(want)
    if got - best > tol * (1 + abs(best)) and fits.scipy_struggles(
            algorithms(name), lambda x: f(dict(zip(P, x))), lambda x: H @ (x - c), [[v[p] for p in P] for v in (start, res.params)],
            [bounds.get(p, (None, None)) for p in P], best, tol):
        raise Inconclusive('scipy does not solve it either')
    if got - best > tol * (1 + abs(best)) and fits.second_chance(
            rng, syms, P, bounds, start, dict(res.params), lambda: again(model, name, rng, {}),
            lambda r: f({p: float(r.params[p]) for p in P}), best + tol * (1 + abs(best))):
        raise Inconclusive('missed by chance')
    ctx.check('constrained-optimum', abs(got - best) <= (tol + 2e-3 * ('Trust' in name)) * (1 + abs(best)), minimizer=name, got=got, want=best,
              found=dict(res.params), best=want)


def likelihood(ctx):
    """Exponential: the optimum under bounds is the mean, clipped."""
    rng = ctx.rng
    pr = fits.like_problem(ctx, kinds=('exponential', 'interdep', 'rayleigh'), fixed_p=0)
    best, v, H = pr.solve()
    p = pr.free[0]
    b = best[p]
    cut = rng.choice(['below', 'above', 'in', 'lower only', 'upper only'])
    lo, hi = {'below': (0.3 * b, 0.8 * b), 'above': (1.2 * b, 3 * b), 'in': (0.5 * b, 2 * b), 'lower only': (1.1 * b, None),
              'upper only': (None, 0.9 * b)}[cut]
    pr.start[p] = {'below': 0.6 * b, 'above': 1.7 * b, 'in': 1.1 * b, 'lower only': 1.5 * b, 'upper only': 0.7 * b}[cut]
    syms = pr.spec.symbols(values=pr.start, **{p: {k: v for k, v in (('min', lo), ('max', hi)) if v is not None}})
    name = rng.choice(['auto', 'LBFGSB', 'SLSQP', 'TrustConstr'])
    if cut == 'upper only':
        name = rng.choice(['auto', 'LBFGSB'])
    log = []
    model = record.recording(Model, log)(pr.spec.model_dict(syms))
    mini, opts, tol = make(name, rng)
    ctx.describe(minimizer=name, bounds=(lo, hi), **pr.text())
    ctx.tag('likelihood', 'minimizer:' + name)
    res = Fit(model, minimizer=mini, objective=LogLikelihood, **pr.data()).execute(**opts)
    judge_box(ctx, res, {p: (lo, hi)}, [p], 1e-6 if 'Trust' in name else 1e-9, name)
    if name in FEASIBLE:
        judge_log(ctx, log, {p: (lo, hi)}, name)
    want = min(max(b, lo if lo is not None else -np.inf), hi if hi is not None else np.inf)
    L = pr.logL(res.params)
    if not np.isfinite(L) or cut == 'upper only' and not res.params[p] > 0.2 * b:
        raise Inconclusive('diverged')
    pr.bounds = {p: (lo, hi)}
    if pr.logL({p: want}) - L > tol * (1 + abs(v)) and fits.struggles(pr, algorithms(name), -pr.logL({p: want}), tol, res.params):
        raise Inconclusive('scipy does not solve it either')
    ctx.check('constrained-optimum', abs(L - pr.logL({p: want})) <= (tol + 1e-3 * ('Trust' in name)) * (1 + abs(v)), got=dict(res.params), want=want,
              minimizer=name)


def case(ctx):
    r = ctx.rng.random()
    if r < 0.65:
        least_squares(ctx)
    elif r < 0.88:
        minimise(ctx)
    else:
        likelihood(ctx)
