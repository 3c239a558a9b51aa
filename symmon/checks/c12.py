"""C12: reported uncertainties are the statistically defined ones."""
import numpy as np
from symfit import Fit, Model, GradientModel, CallableModel, ODEModel, D
from symfit.core.minimizers import BFGS, LBFGSB, SLSQP, NelderMead, TrustConstr, MINPACK, Powell
from symfit.core.objectives import LogLikelihood, LeastSquares, MinimizeModel

from .. import gen, fits
from ..core import Skip


def compare(ctx, res, syms, names, fixed, alts, fid=None, tol=1e-6, **detail):
    """The covariance is one of the matrices `alts` (over the free parameters)."""
    cov = res.covariance_matrix
    if not ctx.check('covariance-given', cov is not None, **detail):
        return
    cov = np.asarray(cov, dtype=float)
    n = len(names)
    if not ctx.check('covariance-shape', cov.shape == (n, n), shape=cov.shape, **detail):
        return
    free = [i for i, p in enumerate(names) if p not in fixed]

    def full(sub):
        out = np.zeros((n, n))
        out[np.ix_(free, free)] = sub
        return out

    def same(got, want):
        scale = np.sqrt(np.abs(np.outer(np.diag(want), np.diag(want))))
        return np.all(np.isfinite(got)) and np.all(np.abs(got - want) <= tol * scale + 1e-300)
    wants = [full(a) for a in alts]
    ok = any(same(cov, w) for w in wants)
    if not ok and fid is not None and any(same(cov, full(a)) for a in fid[1]):
        ctx.known_finding(fid[0], got=cov, want=wants[0], **detail)
        return
    ctx.check('covariance', ok, got=cov, want=wants[0], names=names, fixed=fixed, **detail)
    # by parameter
    want = next((w for w in wants if same(cov, w)), wants[0])
    for i, p in enumerate(names):
        if want[i, i] < 0:
            continue
        sd = res.stdev(syms[p])
        ctx.check('stdev', sd is not None and abs(sd - np.sqrt(want[i, i])) <= tol * np.sqrt(want[i, i]) + 1e-300,
                  p=p, got=sd, want=np.sqrt(want[i, i]))
    q = ctx.rng.choice(names)
    r = ctx.rng.choice(names)
    i, j = names.index(q), names.index(r)
    ctx.check('covariance-lookup', res.covariance(syms[q], syms[r]) == cov[i, j], p=[q, r])


def invert(M):
    d = np.sqrt(np.diag(M))
    if not np.all(d > 0):
        raise Skip('flat')
    S = M / np.outer(d, d)
    w = np.linalg.eigvalsh(S)
    if w[0] < 1e-6:
        raise Skip('badly conditioned')
    return np.linalg.inv(S) / np.outer(d, d)


def least_squares(ctx):
    rng = ctx.rng
    pr = fits.ls_problem(ctx, fixed_p=0.2, noise=rng.choice([0.02, 0.1, 0.3]))
    pr.solve()
    absolute = rng.choice([None, None, None, True, False])
    cls = rng.choice([Model, Model, Model, GradientModel, CallableModel])
    mini = rng.choice([None, None, BFGS, LBFGSB, SLSQP, MINPACK, MINPACK, TrustConstr, [LBFGSB, BFGS], NelderMead])
    if mini is MINPACK and len({pr.y[c].shape for c in pr.alive}) > 1:
        mini = SLSQP
    if cls is CallableModel and mini not in (None, NelderMead):
        mini = rng.choice([LBFGSB, SLSQP, NelderMead])
    spec = pr.spec
    if rng.random() < 0.15:
        pr.bounds[rng.choice(spec.params)] = (-50.0, 50.0)
    model, syms = pr.build(ctx, cls=cls)
    kw = {} if absolute is None else dict(absolute_sigma=absolute)
    ctx.describe(what='least squares', minimizer=str(mini), cls=cls.__name__, absolute=absolute, **pr.text())
    fit = Fit(model, minimizer=mini, **dict(pr.data(), **kw))
    opts = dict(options=dict(maxiter=150)) if mini is NelderMead else {}
    res = fit.execute(**opts)
    names = spec.params
    values = {p: float(res.params[p]) for p in names}
    v, g, H, G = pr.expand(values)
    if not np.all(np.isfinite(H)) or v < 1e-10:
        raise Skip('degenerate optimum')
    given = any(pr.s[c] is not None for c in spec.dependent)
    isabs = given if absolute is None else absolute
    N = pr.npoints()
    nf = len(pr.free)
    s2 = 1.0 if isabs else 2 * v / (N - nf)
    shapes = {pr.y[c].shape for c in pr.alive}
    bad = sum(int(np.prod(s)) for s in shapes)
    ctx.tag('absolute:%s/%s' % (absolute, given), 'class:' + cls.__name__)
    detail = dict(minimizer=str(mini), absolute=isabs)
    if cls is CallableModel:
        ctx.tag('no derivatives')
        ctx.check('none-without-derivatives', res.covariance_matrix is None and
                  all(res.stdev(syms[p]) is None and res.variance(syms[p]) is None for p in names), got=res.covariance_matrix)
        return
    mats = [H] if cls is Model else [G]
    if mini is MINPACK:
        mats = [H, G]
    w = np.linalg.eigvalsh(mats[0])
    if w[0] <= 0 and len(mats) == 1:
        raise Skip('not a minimum')
    alts = [invert(M) * s2 for M in mats if np.all(np.linalg.eigvalsh(M) > 0)]
    if not alts:
        raise Skip('not a minimum')
    fid = None
    if not isabs and bad != N and bad != nf:
        fid = ('K-dof', [a / s2 * (2 * v / (bad - nf)) for a in alts])
    elif not isabs and bad == nf:
        raise Skip('no degrees of freedom left by the known dof problem')
    compare(ctx, res, syms, names, pr.fixed, alts, fid, **detail)


def dof_case(ctx):
    """Known finding: equally shaped components are counted once."""
    rng = ctx.rng
    pr = fits.ls_problem(ctx, kind='lin', n_comp=2, ragged=False, share=True, sigma='none', noise=0.1, none_ok=False,
                         npts=12, interdep=False)
    pr.solve()
    model, syms = pr.build(ctx)
    ctx.describe(what='dof', **pr.text())
    res = Fit(model, minimizer=BFGS, **pr.data()).execute()
    values = {p: float(res.params[p]) for p in pr.spec.params}
    v, g, H, G = pr.expand(values)
    N, nf = pr.npoints(), len(pr.free)
    inv = invert(H)
    fid = ('K-dof', [inv * 2 * v / (N // 2 - nf)])
    compare(ctx, res, syms, pr.spec.params, [], [inv * 2 * v / (N - nf)], fid)


def likelihood(ctx):
    rng = ctx.rng
    pr = fits.like_problem(ctx)
    mini = rng.choice([None, LBFGSB, SLSQP, [NelderMead, LBFGSB]])
    cls = rng.choice([Model, Model, GradientModel])
    model, syms = pr.build(ctx, cls=cls)
    ctx.describe(minimizer=str(mini), cls=cls.__name__, **pr.text())
    res = Fit(model, minimizer=mini, objective=LogLikelihood, **pr.data()).execute()
    values = {p: float(res.params[p]) for p in pr.spec.params}
    v, g, H = pr.expand(values)
    if not np.isfinite(v) or np.linalg.eigvalsh(H)[0] <= 0:
        raise Skip('not a minimum')
    if cls is GradientModel:
        # outer product of the scores per point
        from ..jet import fn
        jets = pr.spec.jets(dict(pr.indep, **pr.full(values)), pr.free)
        n = len(pr.free)
        H = 0
        for c in pr.spec.dependent:
            s = fn('log', jets[c]).broadcast(np.shape(jets[c].v)).grad(n).reshape(n, -1)
            H = H + s @ s.T
    ctx.tag('likelihood-class:' + cls.__name__)
    compare(ctx, res, syms, pr.spec.params, pr.fixed, [invert(H)])


def minimise(ctx):
    rng = ctx.rng
    spec, H, cen, off, quart = fits.convex_problem(ctx)
    P = spec.params
    fixed = [p for p in P if rng.random() < 0.25]
    if len(fixed) == len(P):
        fixed = []
    start = {p: (round(rng.uniform(-1, 1), 2) if p not in fixed else cen[p]) for p in P}
    syms = spec.symbols(values=start, **{p: dict(fixed=True) for p in fixed})
    model = Model(spec.model_dict(syms))
    mini = rng.choice([None, BFGS, SLSQP, TrustConstr, NelderMead])
    ctx.describe(what='minimise', minimizer=str(mini), H=H, start=start, fixed=fixed, quart=quart)
    ctx.tag('minimise')
    res = Fit(model, minimizer=mini).execute()
    values = {p: float(res.params[p]) for p in P}
    free = [p for p in P if p not in fixed]
    j = spec.jets(values, free)[spec.names[0]]
    n = len(free)
    compare(ctx, res, syms, P, fixed, [invert(j.hess(n).reshape(n, n))])




def singular(ctx):
    """Parameters which only occur as a sum cannot have an uncertainty."""
    rng, npr = ctx.rng, ctx.np
    P = gen.names(rng, gen.PARAM_NAMES, 2)
    from symfit import Parameter, Variable
    a, b = Parameter(P[0]), Parameter(P[1])
    x, y = Variable('x'), Variable('y')
    xd = np.round(npr.uniform(-1, 1, 8), 3)
    ctx.describe(what='singular', names=P, x=xd)
    ctx.tag('singular')
    res = Fit({y: (a + b) * x}, x=xd, y=2 * xd + npr.normal(size=8) * 0.1, minimizer=rng.choice([BFGS, MINPACK, SLSQP]),
              sigma_y=rng.choice([None, 0.1])).execute()
    cov = res.covariance_matrix
    sd = [res.stdev(a), res.stdev(b)]
    ctx.check('none-when-singular', cov is None and sd == [None, None] or
              cov is not None and all(not np.isfinite(s) or s > 1e3 for s in sd), cov=cov)


def custom(ctx):
    """Custom objective functions have no Hessian."""
    rng = ctx.rng
    spec, H, cen, off, quart = fits.convex_problem(ctx)
    syms = spec.symbols(values={p: round(rng.uniform(-1, 1), 2) for p in spec.params})
    from symfit import CallableNumericalModel
    model = Model(spec.model_dict(syms))
    c = spec.names[0]
    f = lambda **kw: float(spec.values(kw)[c][0])
    m = CallableNumericalModel({syms[c]: f}, connectivity_mapping={syms[c]: {syms[p] for p in spec.params}})
    ctx.describe(what='numerical', H=H)
    ctx.tag('numerical model')
    res = Fit(m, minimizer=rng.choice([NelderMead, Powell, LBFGSB, None])).execute()
    ctx.check('none-without-derivatives', res.covariance_matrix is None and
              all(res.stdev(syms[p]) is None for p in spec.params), got=res.covariance_matrix)


def case(ctx):
    if ctx.index == 0:
        return dof_case(ctx)
    r = ctx.rng.random()
    if r < 0.6:
        least_squares(ctx)
    elif r < 0.78:
        likelihood(ctx)
    elif r < 0.9:
        minimise(ctx)
    elif r < 0.94:
        singular(ctx)
    else:
        custom(ctx)
