"""C18: numerical models behave like the symbolic model they encode."""
import functools

import numpy as np
from symfit import (Fit, Model, CallableModel, CallableNumericalModel, Parameter, Variable, Eq, Ge, Le)
from symfit.core.minimizers import BFGS, LBFGSB, SLSQP, NelderMead, TrustConstr, COBYLA, Powell, MINPACK, BasinHopping
from symfit.core.models import BaseModel
from symfit.core.objectives import LeastSquares, LogLikelihood, MinimizeModel

from .. import gen, fits, expr as E, record
from ..core import Skip, Inconclusive
from ..gen import Spec
from ..jet import Track
from ..fits import add, mul, fun, s_, c_
from . import c10
from .c09 import make_box


class Component(object):
    """Evaluates a tree; judges what it is called with."""
    def __init__(self, node, name, log):
        self.node, self.name, self.log = node, name, log

    def compute(self, kw):
        self.log.append((self.name, dict(kw)))
        return E.ev(self.node, kw)

    def __call__(self, **kw):
        return self.compute(kw)

    def method(self, **kw):
        return self.compute(kw)


def function(ctx, node, name, log, declared):
    """A Python callable for the tree, in one of the forms users write."""
    rng = ctx.rng
    comp = Component(node, name, log)
    args = gen.shuffled(rng, declared)
    how = rng.choice(['lambda', 'lambda', 'lambda', 'keyword-only', 'object', 'method', 'partial', 'default', 'catch all'])
    ctx.tag('callable:' + how)
    ns = {'_c': comp}
    body = '_c.compute(dict({}))'.format(', '.join('{0}={0}'.format(a) for a in args))
    if how == 'lambda':
        return eval('lambda {}: {}'.format(', '.join(args), body), ns)
    if how == 'keyword-only':
        return eval('lambda *, {}: {}'.format(', '.join(args), body), ns)
    if how == 'object':
        return comp
    if how == 'method':
        return comp.method
    if how == 'partial':
        f = eval('lambda extra_, {}: {}'.format(', '.join(args), body), ns)
        return functools.partial(f, 3.0)
    if how == 'default':
        return eval('lambda {}, extra_=3.0: {}'.format(', '.join(args), body), ns)
    return lambda **kw: comp.compute(kw)


def build(ctx, spec, syms, log, mixed=(), extra_deps=None, cls=CallableNumericalModel):
    """The numerical twin of spec."""
    rng = ctx.rng
    md, conn = {}, {}
    declared = {}
    for c in gen.shuffled(rng, spec.comps):
        if c in mixed:
            md[syms[c]] = E.to_sympy(spec.comps[c], syms)
            if {s.name for s in md[syms[c]].free_symbols} != E.symbols_of(spec.comps[c]):
                raise Skip('expression lost symbols')
            continue
        deps = set(E.symbols_of(spec.comps[c])) | set((extra_deps or {}).get(c, ()))
        declared[c] = deps
        md[syms[c]] = function(ctx, spec.comps[c], c, log, sorted(deps))
        conn[syms[c]] = {syms[s] for s in deps}
    before = {k: set(v) for k, v in conn.items()}
    m = cls(md, connectivity_mapping=conn)
    ctx.check('connectivity-not-altered', conn == before and list(conn) == list(before))
    return m, declared


def model_shape(ctx, m, spec):
    ctx.check('model-symbols', [v.name for v in m.independent_vars] == spec.indep and [p.name for p in m.params] == spec.params and
              [v.name for v in m.dependent_vars] == spec.dependent and [v.name for v in m.interdependent_vars] == spec.interdep,
              independent=m.independent_vars, params=m.params, dependent=m.dependent_vars, interdependent=m.interdependent_vars,
              want=[spec.indep, spec.params, spec.dependent, spec.interdep])


def judge_calls(ctx, log, declared, want, env):
    """Every callable got exactly what it declared, with the right values."""
    for name, kw in log:
        if not ctx.check('declared-dependencies', set(kw) == declared[name], component=name, got=sorted(kw), want=sorted(declared[name])):
            continue
        for k, v in kw.items():
            w = want[k] if k in want else env[k]
            tol = 1e-9 + 1e-11 * Track.m
            ctx.close('dependency-values', np.atleast_1d(np.asarray(v, dtype=float)), np.atleast_1d(np.asarray(w, dtype=float)), rtol=1e-9, atol=tol,
                      shape=False, component=name, argument=k)
    ctx.check('every-callable-called', {n for n, _ in log} == set(declared), got=sorted({n for n, _ in log}), want=sorted(declared))


def evaluation(ctx):
    rng = ctx.rng
    spec = gen.rand_spec(rng, n_comp=rng.choice([1, 2, 2, 3, 4, 5]), n_indep=rng.choice([0, 1, 1, 2]), n_param=rng.choice([1, 2, 3]),
                         depth=rng.choice([1, 2]), dep_prob=rng.choice([0, 0.5, 0.8]))
    if not spec.params:
        raise Skip('no parameters')
    mixed = [c for c in spec.comps if rng.random() < 0.35]
    if len(mixed) == len(spec.comps):
        mixed = mixed[1:]
    syms = spec.symbols()
    log = []
    # declaring more than the formula needs is allowed, as long as it is passed
    extra = {}
    if rng.random() < 0.3:
        for c in spec.comps:
            if c not in mixed and rng.random() < 0.5:
                extra[c] = [rng.choice(spec.params + spec.indep)]
                ctx.tag('surplus dependency')
    m, declared = build(ctx, spec, syms, log, mixed, extra)
    ctx.tag('mixed' if mixed else 'pure', 'levels:%d' % max(spec.levels().values()))
    model_shape(ctx, m, spec)
    symbolic = CallableModel(spec.model_dict(syms, gen.shuffled(rng, spec.comps)))
    for _ in range(rng.randint(1, 3)):
        env, _ = gen.rand_shape_values(ctx, spec.indep) if spec.indep else ({}, None)
        env = dict(env, **{p: gen.rand_param_value(rng) for p in spec.params})
        want = spec.values(env)
        if not np.isfinite(Track.m) or Track.m > 1e5:
            raise Skip('ill-conditioned')
        mag = Track.m
        ctx.describe(what='evaluate', model=spec.text(), mixed=mixed, env=env)
        names = spec.indep + spec.params
        how = rng.choice(['name', 'position', 'mixed'])
        del log[:]
        call = dict(name=lambda k: k(**dict(gen.shuffled(rng, list(env.items())))), position=lambda k: k(*[env[n] for n in names]),
                    mixed=lambda k: k(*[env[n] for n in names[:1]], **{n: env[n] for n in names[1:]}))[how]
        out = call(m)
        ctx.tag('call:' + how)
        seen = list(log)
        twin = call(symbolic)
        tol = 1e-9 + 1e-11 * mag
        ctx.check('output-symbols', [v.name for v in out.variables] == spec.names, got=out.variables, want=spec.names)
        for i, c in enumerate(spec.names):
            # a component which does not use the data comes out as the callable returns it
            ctx.close('value', out[i], want[c], rtol=1e-9, atol=tol, component=c)
            ctx.close('value-by-attribute', getattr(out, c), want[c], rtol=1e-9, atol=tol, component=c)
            ctx.close('same-as-symbolic', out[i], np.asarray(twin[i]), rtol=1e-9, atol=tol, component=c)
        Track.m = mag
        judge_calls(ctx, seen, declared, want, env)
        ctx.raises('missing-argument-refused', TypeError, m, **{k: v for k, v in list(env.items())[1:]})
        ctx.raises('unknown-argument-refused', TypeError, m, **dict(env, not_there=1.0))
        # negation
        if rng.random() < 0.5:
            neg = -m
            ctx.tag('negated')
            for label, k, sign in (('negated', neg, -1), ('original-after-negation', m, 1), ('twice-negated', -neg, 1)):
                r = call(k)
                for i, c in enumerate(spec.names):
                    s = sign if c in spec.dependent else 1
                    ctx.close(label, r[i], s * want[c], rtol=1e-9, atol=tol, component=c)
            ctx.check('negated-type', type(neg) is type(m), got=type(neg))
            model_shape(ctx, neg, spec)


def refusals(ctx):
    rng = ctx.rng
    spec = gen.rand_spec(rng, n_comp=rng.choice([1, 2, 3]), n_indep=1, n_param=2, depth=1, dep_prob=0.5)
    if not spec.params:
        raise Skip('no parameters')
    syms = spec.symbols()
    md = {syms[c]: record.Callable(spec.comps[c]) for c in spec.comps}
    conn = {syms[c]: {syms[s] for s in E.symbols_of(spec.comps[c])} for c in spec.comps}
    ctx.describe(what='refusal', model=spec.text())
    ctx.tag('refusal')
    ctx.raises('no-mapping-refused', TypeError, CallableNumericalModel, md)
    ctx.raises('empty-mapping-refused', TypeError, CallableNumericalModel, md, connectivity_mapping={})
    ctx.raises('none-mapping-refused', TypeError, CallableNumericalModel, md, connectivity_mapping=None)
    ctx.raises('list-refused', TypeError, CallableNumericalModel, list(md.values()), connectivity_mapping=conn)
    ctx.raises('function-refused', TypeError, CallableNumericalModel, list(md.values())[0], connectivity_mapping=conn)
    gone = rng.choice(sorted(spec.comps))
    less = {k: v for k, v in conn.items() if k.name != gone}
    if less:
        # refused when created, or else when first used
        env = {n: 0.5 for n in spec.indep + spec.params}
        ctx.raises('incomplete-mapping-refused', Exception, lambda: CallableNumericalModel(md, connectivity_mapping=less)(**env)[0])
    m = CallableNumericalModel(md, connectivity_mapping=conn)
    try:
        m.shared_parameters
        ctx.check('shared-parameters-unknown', False)
    except NotImplementedError:
        ctx.check('shared-parameters-unknown', True)
    # the deprecated form: every callable takes all variables and parameters
    log = []
    xs, ps = [syms[v] for v in spec.indep], [syms[p] for p in spec.params]
    flat = [n for n in spec.names if not E.symbols_of(spec.comps[n]) & set(spec.comps)]
    if xs and flat:
        declared = {c: set(spec.indep + spec.params) for c in flat}
        fs = {syms[c]: function(ctx, spec.comps[c], c, log, sorted(declared[c])) for c in flat}
        as_list = rng.random() < 0.5
        old = CallableNumericalModel(list(fs.values()) if as_list else fs, gen.shuffled(rng, xs), gen.shuffled(rng, ps))
        env = {v: np.round(ctx.np.uniform(-1.5, 1.5, 4), 3) for v in spec.indep}
        env.update({p: gen.rand_param_value(rng) for p in spec.params})
        want = spec.values(env)
        if not np.isfinite(Track.m) or Track.m > 1e5:
            raise Skip('ill-conditioned')
        mag = Track.m
        out = old(**env)
        ctx.check('old-form-symbols', [p.name for p in old.params] == spec.params and [v.name for v in old.independent_vars] == spec.indep,
                  got=[old.params, old.independent_vars])
        got = dict(zip(flat, out)) if as_list else {v.name: o for v, o in zip(out.variables, out)}
        for c in flat:
            ctx.close('old-form-value', got[c], want[c], rtol=1e-9, atol=1e-9 + 1e-11 * mag, component=c, as_list=as_list)
        Track.m = mag
        judge_calls(ctx, log, declared, want, env)


MINI = [None, None, None, BFGS, LBFGSB, SLSQP, NelderMead, Powell, COBYLA, MINPACK, TrustConstr, 'BasinHopping', [NelderMead, BFGS], [LBFGSB, NelderMead]]
TOL = {'auto': 3e-6, 'BFGS': 3e-6, 'LBFGSB': 1e-5, 'SLSQP': 1e-5, 'NelderMead': 1e-5, 'Powell': 1e-4, 'COBYLA': 1e-3, 'MINPACK': 1e-5,
       'TrustConstr': 1e-3, 'BasinHopping': 1e-5, 'NelderMead+BFGS': 1e-5, 'LBFGSB+NelderMead': 1e-5}


def label(m):
    return m if isinstance(m, str) else 'auto' if m is None else m.__name__ if not isinstance(m, list) else '+'.join(k.__name__ for k in m)


def execute(make, choice, rng):
    opts, mini = {}, choice
    if choice == 'BasinHopping':
        mini, opts = BasinHopping, dict(niter=2, seed=rng.randrange(99))
    elif choice is NelderMead:
        opts = dict(options=dict(maxiter=6000, maxfev=6000))
    elif choice is COBYLA:
        opts = dict(options=dict(maxiter=10000))
    fit = make(mini)
    return fit, fit.execute(**opts)


def least_squares(ctx):
    rng = ctx.rng
    pr = fits.ls_problem(ctx, fixed_p=0.15)
    best, best_v, H, G = pr.solve()
    choice = rng.choice(MINI)
    if choice is MINPACK and (len({pr.y[c].shape for c in pr.alive}) > 1 or len(pr.alive) < len(pr.spec.dependent)):
        choice = None
    boxed = pr.kind == 'lin' and rng.random() < 0.3
    if boxed:
        pr.bounds, start = make_box(ctx, pr.free, best, False)
        pr.start.update(start)
        choice = rng.choice([None, LBFGSB, SLSQP])
        Hq, g0, _ = fits.quadratic_form(pr)
        x = fits.qp(Hq, g0, fits.box_rows(pr))
        if x is None:
            raise Skip('oracle')
        best = dict(zip(pr.free, x.tolist()))
        best_v = pr.S(best)
    spec, lab = pr.spec, label(choice)
    syms = pr.symbols()
    mixed = [c for c in spec.comps if rng.random() < 0.3]
    if len(mixed) == len(spec.comps):
        mixed = mixed[1:]
    log = []
    m, declared = build(ctx, spec, syms, log, mixed)
    ctx.describe(what='fit', minimizer=lab, mixed=mixed, **pr.text())
    ctx.tag('fit:' + pr.kind, 'minimizer:' + lab, 'mixed' if mixed else 'pure', 'boxed' if boxed else 'free')
    run = lambda: execute(lambda mini: Fit(m, minimizer=mini, **pr.data()), choice, rng)
    fit, res = run()
    for name, kw in log[:3] + log[-3:]:
        ctx.check('declared-dependencies', set(kw) == declared[name], component=name, got=sorted(kw), want=sorted(declared[name]))
    moved = {p for _, kw in log for p in pr.fixed if p in kw and np.any(np.asarray(kw[p]) != pr.start[p])}
    ctx.check('fixed-never-moves', not moved, moved=sorted(moved))
    ctx.check('all-reported', list(res.params) == spec.params, got=list(res.params))
    for p in pr.fixed:
        ctx.check('fixed-kept', res.params[p] == pr.start[p], p=p, got=res.params[p])
    found = {p: float(res.params[p]) for p in pr.free}
    tol = TOL.get(lab, 1e-5)
    S, limit = pr.S(found), best_v + tol * (1 + abs(best_v))
    if not S <= limit:
        if not res.minimizer_output.get('success', True):
            raise Inconclusive('minimizer reports failure')
        if fits.second_chance(rng, syms, pr.free, pr.bounds, pr.start, found, lambda: run()[1], lambda q: pr.S({p: float(q.params[p]) for p in pr.free}), limit):
            raise Inconclusive('missed by chance')
        if fits.struggles(pr, lab.split('+') if lab != 'auto' else ['BFGS', 'LBFGSB'], best_v, tol / 2, found):
            raise Inconclusive('scipy struggles as well')
    ctx.check('optimum', S <= limit, minimizer=lab, got=S, want=best_v, found=found, best=best)
    if lab != 'MINPACK':
        ctx.close('objective-value', float(np.ravel(res.objective_value)[0]), S, rtol=1e-8, atol=1e-9 + 1e-11 * Track.m)
    f = pr.f(pr.full(found))
    sst = sum(np.sum((pr.y[c] - np.mean(pr.y[c])) ** 2) for c in pr.alive)
    sse = sum(np.sum((pr.y[c] - np.broadcast_to(f[c], pr.y[c].shape)) ** 2) for c in pr.alive)
    if len(spec.names) == len(spec.alive if hasattr(spec, 'alive') else pr.alive) == 1 and sst > 1e-6:
        ctx.close('r-squared', float(res.r_squared), 1 - sse / sst, rtol=1e-6, atol=1e-6)
    out = m(**dict({v: pr.indep[v] for v in spec.indep}, **{k: float(v) for k, v in res.params.items()}))
    for v, o in zip(out.variables, out):
        ctx.close('model-at-optimum', o, f[v.name], rtol=1e-9, atol=1e-9 + 1e-10 * max(1, np.max(np.abs(f[v.name]))), component=v.name)
    C = res.covariance_matrix
    ctx.check('no-uncertainties-without-derivatives', C is None and all(res.stdev(syms[p]) is None for p in spec.params), covariance=C)


def likelihood(ctx):
    rng = ctx.rng
    pr = fits.like_problem(ctx, kinds=('exponential', 'gaussian', 'rayleigh', 'mixed', 'interdep'))
    best, best_v, H = pr.solve()
    syms = pr.symbols()
    log = []
    m, declared = build(ctx, pr.spec, syms, log)
    choice = rng.choice([None, LBFGSB, SLSQP, NelderMead])
    lab = label(choice)
    ctx.describe(what='likelihood', minimizer=lab, **pr.text())
    ctx.tag('likelihood', 'minimizer:' + lab)
    run = lambda: execute(lambda mini: Fit(m, minimizer=mini, objective=LogLikelihood, **pr.data()), choice, rng)
    fit, res = run()
    found = {p: float(res.params[p]) for p in pr.free}
    v = -pr.logL(found)
    limit = best_v + 2e-5 * (1 + abs(best_v))
    if not v <= limit and (not res.minimizer_output.get('success', True) or
                           fits.second_chance(rng, syms, pr.free, {p: (pr.lower[p], None) for p in pr.lower}, pr.start, found, lambda: run()[1],
                                              lambda q: -pr.logL({p: float(q.params[p]) for p in pr.free}), limit)):
        raise Inconclusive('missed')
    ctx.check('optimum', v <= limit, minimizer=lab, got=v, want=best_v, found=found, best=best)
    ctx.close('objective-value', float(np.ravel(res.objective_value)[0]), v, rtol=1e-8, atol=1e-8)
    for p in pr.fixed:
        ctx.check('fixed-kept', res.params[p] == pr.start[p], p=p)


def constrained(ctx):
    """Linear constraints on a numerical quadratic, or on numerical least squares."""
    rng = ctx.rng
    minimise = rng.random() < 0.4
    if minimise:
        spec, H, cen, off, quart = fits.convex_problem(ctx, rng.choice([2, 3, 4]))
        if quart:
            raise Skip('quartic')
        free, fixed = spec.params, []
        start = {p: round(rng.uniform(-1, 1), 3) for p in free}
        cv = np.array([cen[p] for p in free])
        g0 = H @ cv
        const = off + 0.5 * cv @ H @ cv
        S = lambda v: float(spec.values(v)[list(spec.comps)[0]][0])
        best, data = dict(cen), {}
        bounds = {}
    else:
        pr = fits.ls_problem(ctx, kind='lin', fixed_p=0.2)
        best, best_v, _, _ = pr.solve()
        spec, free, fixed, start, S, data = pr.spec, pr.free, pr.fixed, pr.start, pr.S, pr.data()
        H, g0, const = fits.quadratic_form(pr)
        bounds = {}
    if len(free) < 2:
        raise Skip('one parameter')
    feas = {p: best[p] + rng.uniform(-0.6, 0.6) for p in free}
    rows = c10.make_rows(ctx, free, fixed, start, feas, allow_eq=True)
    ineq, eq = c10.oracle_rows(rows, free, start)
    x = fits.qp(H, g0, ineq, eq)
    if x is None:
        raise Skip('oracle')
    want = dict(zip(free, x.tolist()))
    syms = spec.symbols(values=start, **{p: dict(fixed=True) for p in fixed})
    log, clog = [], []
    m, declared = build(ctx, spec, syms, log)
    cons, cdecl = [], {}
    forms = []
    taken = spec.params + spec.indep + spec.names
    free_names = [n for n in gen.COMP_NAMES if n not in taken]
    for i, (coef, rel, b) in enumerate(rows):
        how = rng.choice(['symbolic', 'symbolic', 'numerical', 'model'])
        forms.append(how)
        e = c10.linear_expr(coef, syms, rng)
        if how == 'symbolic':
            cons.append({'>=': Ge, '<=': Le, '==': Eq}[rel](e, b) if rng.random() < 0.7 else {'>=': Le, '<=': Ge, '==': Eq}[rel](b, e))
        elif how == 'model':
            cons.append(CallableModel.as_constraint({'>=': Ge, '<=': Le, '==': Eq}[rel](e, b), m))
        else:
            Y = Variable(free_names[i])
            node = add(*[mul(c_(float(k)), s_(p)) for p, k in coef.items()] + [c_(-b)])
            cdecl[Y.name] = set(coef)
            f = function(ctx, node, Y.name, clog, sorted(coef))
            cons.append(CallableNumericalModel.as_constraint({Y: f}, m, connectivity_mapping={Y: {syms[p] for p in coef}}, constraint_type=c10.CLS[rel]))
    choice = rng.choice([None, None, SLSQP, TrustConstr, [SLSQP, SLSQP]])
    lab = label(choice)
    ctx.describe(what='constrained', minimise=minimise, rows=rows, forms=forms, minimizer=lab, model=spec.text(), start=start, fixed=fixed, data=data)
    ctx.tag('constrained', 'minimizer:' + lab, *['constraint:' + h for h in forms])
    run = lambda: Fit(m, minimizer=choice, constraints=cons, **data).execute()
    res = run()
    if not res.minimizer_output.get('success', True):
        raise Inconclusive('minimizer reports failure')
    for name, kw in clog[:3] + clog[-3:]:
        ctx.check('constraint-dependencies', set(kw) == cdecl[name], component=name, got=sorted(kw), want=sorted(cdecl[name]))
    last = lab.split('+')[-1]
    if last == 'TrustConstr' and float(res.minimizer_output.get('constr_violation', 0)) > 1e-6:
        raise Inconclusive('stopped while infeasible')
    slack = c10.SLACK[last]
    found = {p: float(res.params[p]) for p in free}
    for p in fixed:
        ctx.check('fixed-kept', res.params[p] == start[p], p=p)
    allv = dict(start, **found)
    worst = 0
    for coef, rel, b in rows:
        d = sum(k * allv[p] for p, k in coef.items()) - b
        d = abs(d) if rel == '==' else max(0, -d) if rel == '>=' else max(0, d)
        ctx.check('constraint-holds', d <= slack * (1 + abs(b) + sum(abs(k) for k in coef.values())), violation=d, relation=rel, coef=coef, b=b, minimizer=lab, forms=forms)
        worst = max(worst, d)
    grad = H @ x - g0
    v, v0 = S(found), S(want)
    limit = v0 + c10.TOL[last] * (1 + abs(v0)) + 4 * (slack + worst) * float(np.sum(np.abs(grad)))
    if v > limit and fits.second_chance(rng, syms, free, {}, start, found, run, lambda q: S({p: float(q.params[p]) for p in free}), limit):
        raise Inconclusive('missed by chance')
    ctx.check('constrained-optimum', v <= limit, got=v, want=v0, found=found, best=want, minimizer=lab, forms=forms)


def direct(ctx):
    """Minimizers given a plain function and parameters."""
    rng = ctx.rng
    spec, H, cen, off, quart = fits.convex_problem(ctx, rng.choice([1, 2, 3, 4]))
    P = spec.params
    node = list(spec.comps.values())[0]
    fixed = [p for p in P if rng.random() < 0.2]
    free = [p for p in P if p not in fixed]
    if not free or quart and fixed:
        raise Skip('nothing free')
    start = {p: round(rng.uniform(-1.5, 1.5), 3) for p in P}
    syms = {p: Parameter(p, value=start[p], fixed=p in fixed) for p in P}
    order = gen.shuffled(rng, P)
    log = []
    f = function(ctx, node, 'f', log, order)
    cv = np.array([cen[p] for p in P])
    i = [P.index(p) for p in free]
    j = [P.index(p) for p in fixed]
    best = dict(cen)
    best.update({p: start[p] for p in fixed})
    if fixed:
        x = cv[i] - np.linalg.solve(H[np.ix_(i, i)], H[np.ix_(i, j)] @ (np.array([start[p] for p in fixed]) - cv[j]))
        best.update(dict(zip(free, x.tolist())))
    S = lambda v: float(spec.values(v)[list(spec.comps)[0]][0])
    cls = rng.choice([BFGS, BFGS, LBFGSB, SLSQP, NelderMead, Powell, COBYLA, TrustConstr, 'BasinHopping'])
    kw, lab = {}, label(cls)
    if cls in (BFGS, LBFGSB, SLSQP, TrustConstr) and rng.random() < 0.5:
        # a gradient function of the user's, in the order of the parameters given
        def grad(**v):
            g = spec.jets(v, order)[list(spec.comps)[0]].grad(len(order)).ravel()
            return g
        kw['jacobian'] = grad
        if cls is TrustConstr:
            kw['hessian'] = lambda **v: spec.jets(v, order)[list(spec.comps)[0]].hess(len(order)).reshape(len(order), len(order))
    bounds = {}
    if cls in (LBFGSB, SLSQP) and not fixed and not quart and rng.random() < 0.4:
        bounds, st = make_box(ctx, free, best, False)
        for p in free:
            lo, hi = bounds.get(p, (None, None))
            syms[p].min, syms[p].max, syms[p].value = lo, hi, st[p]
            start[p] = st[p]
        rows = []
        for q, p in enumerate(free):
            lo, hi = bounds.get(p, (None, None))
            e = np.eye(len(free))[q]
            if lo is not None:
                rows.append((e, lo))
            if hi is not None:
                rows.append((-e, -hi))
        x = fits.qp(H, H @ cv, rows)
        if x is None:
            raise Skip('oracle')
        best = dict(zip(free, x.tolist()))
    ctx.describe(what='direct', minimizer=lab, f=E.to_text(node), order=order, start=start, fixed=fixed, gradient='jacobian' in kw, bounds=bounds)
    ctx.tag('direct', 'minimizer:' + lab, 'sorted' if order == P else 'other order', 'gradient' if kw else 'no gradient')
    opts = {}
    if cls == 'BasinHopping':
        mini = BasinHopping(f, [syms[p] for p in order])
        opts = dict(niter=2, seed=rng.randrange(99))
    else:
        mini = cls(f, [syms[p] for p in order], **kw)
        if cls is NelderMead:
            opts = dict(options=dict(maxiter=6000, maxfev=6000))
        if cls is COBYLA:
            opts = dict(options=dict(maxiter=10000))
    res = mini.execute(**opts)
    for name, k in log[:3] + log[-3:]:
        ctx.check('function-gets-its-parameters', set(k) == set(P), got=sorted(k), want=P)
    first = {p: float(log[0][1][p]) for p in P}
    if cls not in (COBYLA,) and not (cls is TrustConstr and bounds):
        ctx.check('starts-at-the-start', all(abs(first[p] - start[p]) <= 1e-7 for p in P), got=first, want=start, minimizer=lab)
    ctx.check('fixed-never-moves', all(k[p] == start[p] for _, k in log for p in fixed))
    found = {p: float(res.params[p]) for p in P}
    ctx.check('all-reported', set(res.params) == set(P), got=list(res.params))
    for p in fixed:
        ctx.check('fixed-kept', found[p] == start[p], p=p, got=found[p])
    for p in P:
        ctx.check('value-lookup', float(res.value(syms[p])) == found[p], p=p)
    v, v0 = S(found), S(best)
    tol = TOL[lab]
    if v > v0 + tol * (1 + abs(v0)) and not res.minimizer_output.get('success', True):
        raise Inconclusive('minimizer reports failure')
    ctx.check('optimum', v <= v0 + tol * (1 + abs(v0)), minimizer=lab, got=v, want=v0, found=found, best=best, order=order)
    ctx.close('objective-value', float(np.ravel(res.objective_value)[0]), v, rtol=1e-8, atol=1e-8)


def case(ctx):
    r = ctx.rng.random()
    (evaluation if r < 0.4 else refusals if r < 0.5 else least_squares if r < 0.67 else likelihood if r < 0.74 else constrained if r < 0.86 else direct)(ctx)
