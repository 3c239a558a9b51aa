"""C17: names, definition order and hash seed do not influence results."""
import numpy as np

from .. import gen, fits, expr as E, variants
from ..core import Skip, Inconclusive
from ..forks import Forks
from ..jet import Track
from ..fits import add, mul, fun, s_, c_
from . import c10

SERVERS = {}
MINI = ['auto', 'auto', 'BFGS', 'LBFGSB', 'SLSQP', 'TrustConstr', 'NelderMead', 'MINPACK', 'NelderMead+BFGS', 'Powell']
TOL = {'NelderMead': 1e-5, 'Powell': 1e-4, 'TrustConstr': 1e-4, 'MINPACK': 1e-5}


def server(k, ctx):
    if k not in SERVERS:
        SERVERS[k] = Forks((ctx.seed * 31 + [0, 1, 424242][k]) % 4294967295)
    return SERVERS[k]


def mapping(ctx, params, variables):
    """Other names; sometimes the same names handed round."""
    rng = ctx.rng
    how = rng.choice(['fresh', 'fresh', 'fresh', 'rotate', 'reverse', 'prefix'])
    ctx.tag('rename:' + how)
    params, variables = list(params), list(variables)
    if how == 'fresh':
        new_p = gen.names(rng, gen.PARAM_NAMES, len(params))
        new_v = gen.names(rng, [n for n in gen.VAR_NAMES + gen.COMP_NAMES], len(variables), new_p)
        return dict(zip(params + variables, new_p + new_v))
    if how == 'rotate':
        return dict(zip(params, params[1:] + params[:1]), **dict(zip(variables, variables[1:] + variables[:1])))
    if how == 'reverse':
        return dict(zip(sorted(params), sorted(params)[::-1]), **dict(zip(sorted(variables), sorted(variables)[::-1])))
    # names which sort the other way round as numbers and as text
    ks = rng.sample(range(1, 30), len(params) + len(variables))
    out = {p: 'p%d' % k for p, k in zip(params, ks)}
    out.update({v: 'v%d' % k for v, k in zip(variables, ks[len(params):])})
    return out


def compare(ctx, what, a, b, rtol, atol_scale=None, **info):
    """Two outputs of variants, under the same names."""
    if set(a) != set(b):
        ctx.check(what + '-same-outputs', False, got=sorted(b), want=sorted(a), **info)
        return
    for part in a:
        x, y = a[part], b[part]
        if isinstance(x, dict):
            if not ctx.check(what + '-same-symbols', set(x) == set(y), part=part, got=sorted(map(str, y)), want=sorted(map(str, x)), **info):
                continue
            scale = max([float(np.max(np.abs(v))) for v in x.values() if np.size(v)] + [1e-12])
            for k in x:
                ctx.close(what + '-same-' + part.rstrip('0123456789'), y[k], x[k], rtol=rtol, atol=max(rtol * scale, atol_scale or 0), symbol=k, **info)
        elif isinstance(x, (np.ndarray, float)):
            ctx.close(what + '-same-' + part.rstrip('0123456789'), y, x, rtol=rtol, atol=max(rtol, atol_scale or 0), **info)


def run_all(ctx, d, n_variants=2):
    """[(label, output under original names)], the first being the description as it stands."""
    rng = ctx.rng
    params, variables = sorted(d['params']), sorted(list(d['indep']) + [c for c, _ in d['comps']])
    jobs = [('as written', d, {}, 0)]
    jobs.append(('renamed', None, mapping(ctx, params, variables), rng.choice([0, 1])))
    if n_variants > 1:
        jobs.append(('reordered', None, {}, rng.choice([1, 2])))
    if n_variants > 2:
        jobs.append(('renamed again', None, mapping(ctx, params, variables), 2))
    out = []
    for label, dd, m, k in jobs:
        if dd is None:
            dd = variants.renamed(d, m, rng)
        r = server(k, ctx).ask('symmon.variants:do', dd)
        if 'value' in r:
            r = {'value': variants.back(r['value'], m)}
        out.append((label, r, m, dd))
    ctx.tag(*['variant:' + o[0] for o in out])
    base = out[0][1]
    if 'error' in base:
        if 'Skip' in base['error']:
            raise Skip('expression lost symbols')
        if 'ODEError' in base['error']:
            raise Inconclusive(base['error'][:100])
        ctx.check('unexpected-exception', False, error=base['error'], where=[base['where']])
        return None
    for label, r, m, dd in out[1:]:
        if 'error' in r:
            if 'Skip' in r['error']:
                raise Skip('expression lost symbols')
            if 'ODEError' in r['error']:
                raise Inconclusive(r['error'][:100])
            ctx.check('variant-works-too', False, variant=label, names=m, error=r['error'], where=r['where'])
            return None
        ctx.check('variant-works-too', True)
    return [(label, r['value'], m) for label, r, m, dd in out]


def description(spec, values, cls, **kw):
    return dict(params={p: dict(value=values[p]) for p in spec.params}, comps=list(spec.comps.items()), indep=list(spec.indep), cls=cls, **kw)


def evaluation(ctx):
    rng = ctx.rng
    spec = gen.rand_spec(rng, n_comp=rng.choice([1, 2, 3, 4]), n_indep=rng.choice([1, 1, 2, 3]), n_param=rng.choice([1, 2, 3, 4]),
                         depth=rng.choice([1, 2, 2, 3]), dep_prob=rng.choice([0, 0, 0.5]))
    if not spec.params or not spec.indep:
        raise Skip('empty')
    cls = rng.choice(['Model', 'Model', 'GradientModel', 'CallableModel', 'CallableNumericalModel'])
    points = []
    shapes, _ = gen.rand_shape_values(ctx, spec.indep, rng.choice(['scalar', 'vec', 'vec', 'grid', 'mixed', '2d']))
    for _ in range(2):
        env = dict(shapes, **{p: gen.rand_param_value(rng) for p in spec.params})
        spec.jets(env)
        if not np.isfinite(Track.m) or Track.m > 1e4:
            raise Skip('ill-conditioned')
        points.append(env)
    mag = Track.m
    d = description(spec, points[0], cls, do='evaluate', points=points, mixed=[c for c in spec.comps if rng.random() < 0.4])
    if cls == 'CallableNumericalModel' and len(d['mixed']) == len(spec.comps):
        d['mixed'] = d['mixed'][1:]
    ctx.describe(what='evaluate', cls=cls, model=spec.text(), points=points)
    ctx.tag('evaluate:' + cls)
    out = run_all(ctx, d, 3)
    if out is None:
        return
    for label, r, m in out[1:]:
        rt = 1e-9 * max(1, mag) ** 0.5
        a, b = dict(out[0][1]), dict(r)
        compare(ctx, 'evaluation', a, b, rt, atol_scale=1e-11 * mag ** 2, variant=label, names=m)


def objective(ctx):
    rng, npr = ctx.rng, ctx.np
    pr = fits.ls_problem(ctx, noise=0.3)
    spec = pr.spec
    name = rng.choice(['LeastSquares', 'LeastSquares', 'VectorLeastSquares', 'LogLikelihood'])
    cls = rng.choice(['Model', 'Model', 'GradientModel', 'CallableModel'])
    data = pr.data()
    if name == 'LogLikelihood':
        lk = fits.like_problem(ctx, fixed_p=0)
        spec, data = lk.spec, lk.data()
        base = lk.truth
    else:
        base = pr.truth
        if any(data[c] is None for c in spec.dependent) and name == 'VectorLeastSquares':
            raise Skip('none data')
    points = [{p: round(base[p] * rng.uniform(0.9, 1.1), 4) for p in spec.params} for _ in range(2)]
    d = description(spec, base, cls, do='objective', objective=name, data=data, points=points)
    ctx.describe(what='objective', cls=cls, objective=name, model=spec.text(), points=points, data=data)
    ctx.tag('objective:' + name)
    if name == 'VectorLeastSquares' and len({np.shape(data[c]) for c in spec.dependent}) > 1:
        raise Skip('ragged vector')
    out = run_all(ctx, d, 2)
    if out is None:
        return
    for label, r, m in out[1:]:
        compare(ctx, 'objective', out[0][1], r, 1e-7, variant=label, names=m)


def fitting(ctx):
    rng = ctx.rng
    kind = rng.choice(['lin', 'lin', 'lin', 'nonlin', 'nonlin', 'like', 'min'])
    name = rng.choice(MINI)
    d = None
    if kind in ('lin', 'nonlin'):
        pr = fits.ls_problem(ctx, kind=kind, fixed_p=0.2)
        best, best_v, H, G = pr.solve()
        cls = 'Model' if rng.random() < 0.8 else rng.choice(['GradientModel', 'CallableModel'])
        d = description(pr.spec, pr.start, cls, do='fit', data=pr.data())
        for p in pr.fixed:
            d['params'][p]['fixed'] = True
        rows = []
        if kind == 'lin' and rng.random() < 0.5:
            from .c09 import make_box
            pr.bounds, start = make_box(ctx, pr.free, best, False)
            name = rng.choice(['auto', 'LBFGSB', 'SLSQP'])
            pr.start.update(start)
            feas = {}
            for p in pr.free:
                d['params'][p]['value'] = start[p]
                lo, hi = pr.bounds.get(p, (None, None))
                if lo is not None:
                    d['params'][p]['min'] = lo
                if hi is not None:
                    d['params'][p]['max'] = hi
                l = lo if lo is not None else (hi if hi is not None else best[p]) - 1
                h = hi if hi is not None else l + 2
                feas[p] = min(max(best[p], l + 0.2 * (h - l)), h - 0.2 * (h - l))
        else:
            feas = {p: best[p] + rng.uniform(-0.4, 0.4) for p in pr.free}
        if kind == 'lin' and rng.random() < 0.5:
            rows = c10.make_rows(ctx, pr.free, pr.fixed, pr.start, feas, allow_eq=not pr.bounds)
            d['constraints'] = rows
            name = rng.choice(['auto', 'SLSQP', 'SLSQP+SLSQP'])
            ctx.tag('constrained')
        if pr.bounds or rows:
            Hq, g0, const = fits.quadratic_form(pr)
            ineq, eq = c10.oracle_rows(rows, pr.free, pr.start)
            x = fits.qp(Hq, g0, ineq + fits.box_rows(pr), eq)
            if x is None:
                raise Skip('oracle')
            best = dict(zip(pr.free, x.tolist()))
            best_v = pr.S(best)
        vector = 'MINPACK' in name
        if vector and (len({pr.y[c].shape for c in pr.alive}) > 1 or len(pr.alive) < len(pr.spec.dependent)):
            name = 'auto'
        S = pr.S
        text = pr.text()
    elif kind == 'like':
        pr = fits.like_problem(ctx)
        best, best_v, H = pr.solve()
        S = lambda v: -pr.logL(v)
        d = description(pr.spec, pr.start, 'Model', do='fit', data=pr.data(), objective='LogLikelihood')
        for p in pr.fixed:
            d['params'][p]['fixed'] = True
        for p in pr.lower:
            d['params'][p]['min'] = pr.lower[p]
        name = rng.choice(['auto', 'LBFGSB', 'SLSQP'])
        text = pr.text()
    else:
        spec, H, cen, off, quart = fits.convex_problem(ctx)
        pr = None
        best, best_v = dict(cen), off
        start = {p: round(rng.uniform(-1, 1), 3) for p in spec.params}
        comp = list(spec.comps)[0]
        S = lambda v: float(spec.values(v)[comp][0])
        d = description(spec, start, 'Model', do='fit', data={}, objective='MinimizeModel')
        if name == 'MINPACK':
            name = 'auto'
        text = dict(model=spec.text(), start=start)
    d['minimizer'] = None if name == 'auto' else name
    if name == 'NelderMead':
        d['options'] = dict(options=dict(maxiter=6000, maxfev=6000))
    if kind != 'min' and rng.random() < 0.3 and not any(v is None for v in d['data'].values()):
        d['positional'] = True
    ctx.describe(what='fit', kind=kind, minimizer=name, constraints=d.get('constraints'), **text)
    ctx.tag('fit:' + kind, 'minimizer:' + name)
    out = run_all(ctx, d, 2)
    if out is None:
        return
    tol = TOL.get(name, 3e-6)
    cmp_keys = ('params', 'by lookup', 'objective value', 'r_squared', 'chi_squared', 'log_likelihood')
    good = []
    for label, r, m in out:
        free = [p for p in d['params'] if not d['params'][p].get('fixed')]
        for p in d['params']:
            if p not in free:
                ctx.check('fixed-kept', r['params'][p] == d['params'][p]['value'], p=p, got=r['params'][p], variant=label)
        found = {p: r['params'][p] for p in free}
        slip = S(found) - best_v
        if not slip > -1e-5 * (1 + abs(best_v)):
            raise Inconclusive('another optimum')
        ok = slip <= tol * (1 + abs(best_v))
        if not ok:
            if not r['success']:
                ctx.tag('minimizer reports failure')
                continue
            if pr is not None and not d.get('constraints') and fits.struggles(pr, name.split('+') if name != 'auto' else ['LBFGSB', 'BFGS'], best_v, tol / 2, found):
                raise Inconclusive('scipy struggles as well')
        ctx.check('variant-reaches-the-optimum', ok, variant=label, names=m, excess=slip, found=found, best=best, minimizer=name, message=r['message'])
        ctx.close('objective-value', r['objective value'], (best_v if kind != 'min' else S(found)), rtol=0, atol=2 * tol * (1 + abs(best_v)) + 1e-6,
                  variant=label) if ok and 'MINPACK' not in name else None
        ctx.check('same-minimizer', r['minimizer'] == out[0][1]['minimizer'], got=r['minimizer'], want=out[0][1]['minimizer'], variant=label)
        ctx.check('lookup-agrees', all(r['by lookup'][p] == r['params'][p] for p in r['params']), variant=label, got=r['by lookup'], want=r['params'])
        if ok and abs(slip) < 1e-6 * (1 + abs(best_v)):
            good.append((label, r, m))
    if len(good) < 2:
        return
    a = good[0][1]
    for label, r, m in good[1:]:
        info = dict(variant=label, against=good[0][0], names=m, minimizer=name)
        for k in cmp_keys[2:]:
            if k in a and k in r and np.isfinite(a[k]):
                ctx.close('fit-same-' + k, r[k], a[k], rtol=2e-3, atol=2e-3 if k != 'chi_squared' else 1e-4, **info)
        if not ctx.check('same-uncertainties-known', ('cov' in r) == ('cov' in a), **info) or 'cov' not in a:
            continue
        if 'r_squared' in a and a['objective value'] < 1e-6 and not any(k.startswith('sigma_') and v is not None for k, v in d['data'].items()):
            continue        # scaled by a residual of nearly zero
        sd = {p: np.sqrt(abs(a['cov'][(p, p)])) for p in d['params']}
        for p in d['params']:
            for q in d['params']:
                ctx.close('fit-same-covariance', r['cov'][(p, q)], a['cov'][(p, q)], rtol=3e-2, atol=3e-2 * sd[p] * sd[q] + 1e-12, p=p, q=q, **info)
                ctx.check('covariance-lookup', r['covlookup'][(p, q)] == r['cov'][(p, q)] or np.isnan(r['cov'][(p, q)]), p=p, q=q, **info)


def unnamed(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 5, 11, 13])
    fit = n <= 5 and rng.random() < 0.5
    params = gen.names(rng, gen.PARAM_NAMES, n + 1 if fit else rng.randint(1, 4))
    indep = gen.names(rng, gen.VAR_NAMES, 1 if fit else rng.choice([1, 2]), params)
    trees = []
    for k in range(n):
        if fit:
            b = gen.shuffled(rng, fits.BASIS[2:])
            t = add(mul(s_(params[k]), s_(indep[0])), mul(s_(params[k + 1]), b[0](indep[0]))) if k == 0 else mul(s_(params[k + 1]), b[0](indep[0]))
        else:
            t = E.rand_expr(rng, indep + params, 2, E.SMOOTH, False)
            t = E.cover(rng, t, [rng.choice(indep)])
        trees.append(('#%02d' % k, t))
    if not fit:
        used = set().union(*[E.symbols_of(t) for _, t in trees])
        trees[-1] = (trees[-1][0], E.cover(rng, trees[-1][1], [s for s in params + indep if s not in used]))
    x, _ = gen.rand_shape_values(ctx, indep, rng.choice(['vec', 'scalar', 'vec']) if not fit else 'vec')
    vals = {p: gen.rand_param_value(rng) for p in params}
    if len({str(t) for _, t in trees}) < n:
        raise Skip('repeated component')
    want, jac = [], []
    from ..gen import Spec
    spec = Spec(indep, params, dict(trees))
    jets = spec.jets(dict(x, **vals), sorted(params))
    if not np.isfinite(Track.m) or Track.m > 1e4:
        raise Skip('ill-conditioned')
    mag = Track.m
    cls = rng.choice(['Model', 'Model', 'CallableModel', 'GradientModel'])
    d = dict(do='unnamed', params={p: dict(value=vals[p]) for p in params}, indep=indep, comps=trees, cls=cls, points=[dict(x, **vals)],
             tuple=rng.random() < 0.3)
    truth = None
    if fit:
        truth = {p: round(rng.uniform(-2, 2), 3) for p in params}
        xs = np.round(np.linspace(-1.5, 2, 9), 3)
        f = spec.values(dict({indep[0]: xs}, **truth))
        ys = [np.round(f[c], 8) for c, _ in trees]
        d['fit'] = {indep[0]: xs, 'ys': ys}
    ctx.describe(what='unnamed', cls=cls, model=[E.to_text(t) for _, t in trees], values=vals, x=x, fit=truth)
    ctx.tag('unnamed:%d' % n, 'unnamed fit' if fit else 'unnamed evaluation')
    m = mapping(ctx, params, indep)
    g = lambda q: m.get(q, q)
    d2 = dict(d, params={g(p): a for p, a in d['params'].items()}, indep=[g(v) for v in indep], comps=[(c, variants.rename(t, m)) for c, t in trees],
              points=[{g(k): v for k, v in d['points'][0].items()}], order=rng.randrange(10 ** 6))
    if fit:
        d2['fit'] = {g(indep[0]): xs, 'ys': ys}
    P = sorted(params)
    for label, dd, mm, k in (('as written', d, {}, 0), ('renamed', d2, m, rng.choice([1, 2]))):
        r = server(k, ctx).ask('symmon.variants:do', dd)
        if 'error' in r:
            ctx.check('unnamed-works', False, variant=label, error=r['error'], where=r['where'])
            continue
        r = r['value']
        if not ctx.check('unnamed-count', len(r['value0']) == n, got=len(r['value0']), want=n):
            continue
        for i, (c, t) in enumerate(trees):
            j = jets[c]
            tol = 1e-9 + 1e-11 * mag ** 2
            ctx.close('unnamed-value-in-order', np.broadcast_to(r['value0'][i], np.shape(j.v)) if np.size(r['value0'][i]) == 1 else r['value0'][i], j.v, rtol=1e-9, atol=tol,
                      index=i, variant=label, names=mm)
            if 'jacobian0' in r:
                gr = j.grad(len(P))
                for q, p in enumerate(P):
                    got = r['jacobian0'][i][mm.get(p, p)]
                    ctx.close('unnamed-jacobian-in-order', np.broadcast_to(got, np.shape(gr[q])) if np.size(got) == 1 else got, gr[q], rtol=1e-8, atol=1e-8 + 1e-10 * mag ** 2,
                              index=i, p=p, variant=label, names=mm)
        if fit:
            for i, y in enumerate(ys):
                ctx.close('unnamed-data-in-order', r['bound'][i], y, rtol=0, atol=0, index=i, variant=label)
            ctx.close('unnamed-fit', [r['params'][mm.get(p, p)] for p in P], [truth[p] for p in P], rtol=1e-3, atol=1e-3, variant=label, names=mm)


def ode(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3])
    pn = gen.names(rng, gen.PARAM_NAMES, rng.randint(2, 4))
    dn = gen.names(rng, gen.COMP_NAMES, n, pn)
    tn = gen.names(rng, gen.VAR_NAMES, 1, pn + dn)[0]
    comps, params = {}, {p: dict(value=round(rng.choice([-1, 1]) * rng.uniform(0.3, 1.2), 3)) for p in pn}
    for i, c in enumerate(dn):
        terms = [mul(c_(-round(rng.uniform(0.2, 1), 2)), s_(c)), mul(s_(pn[i % len(pn)]), fun('cos', s_(rng.choice(dn))))]
        if rng.random() < 0.6:
            terms.append(rng.choice([mul(s_(rng.choice(pn)), fun('sin', s_(tn))), s_(rng.choice(pn)), mul(s_(rng.choice(pn)), fun('tanh', s_(rng.choice(dn))))]))
        comps[c] = add(*terms)
    initial = {tn: rng.choice([0.0, 1.0, -0.5])}
    for c in dn:
        if rng.random() < 0.4:
            params['i_' + c] = dict(value=round(rng.uniform(-1, 1), 3))
            initial[c] = 'i_' + c
        else:
            initial[c] = round(rng.uniform(-1, 1), 3)
    used = set().union(*[E.symbols_of(t) for t in comps.values()]) | {v for v in initial.values() if isinstance(v, str)}
    params = {p: a for p, a in params.items() if p in used}
    t = initial[tn] + np.round(np.sort(ctx.np.uniform(-1, 2, rng.randint(2, 6))), 3)
    points = [dict({tn: t}, **{p: round(a['value'] * f, 3) for p, a in params.items()}) for f in (1.0, 0.8)]
    d = dict(do='evaluate', cls='ODEModel', params=params, comps=list(comps.items()), indep=[tn], initial=initial, points=points)
    ctx.describe(what='ode', model={c: E.to_text(x) for c, x in comps.items()}, initial=initial, points=points)
    ctx.tag('evaluate:ODEModel')
    out = run_all(ctx, d, 2)
    if out is None:
        return
    for label, r, m in out[1:]:
        for a, b in ((out[0][1], r),):
            ja = {k: v for k, v in a.items() if k.startswith('jac')}
            jb = {k: v for k, v in b.items() if k.startswith('jac')}
            compare(ctx, 'ode', {k: v for k, v in a.items() if k not in ja}, {k: v for k, v in b.items() if k not in jb}, 1e-6, variant=label, names=m)
            compare(ctx, 'ode', ja, jb, 1e-3, variant=label, names=m)


def case(ctx):
    r = ctx.rng.random()
    (evaluation if r < 0.27 else objective if r < 0.4 else fitting if r < 0.75 else unnamed if r < 0.9 else ode)(ctx)
