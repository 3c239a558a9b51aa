"""C16: ODE models return the solution of the initial value problem."""
import sys

import numpy as np
import scipy.integrate
import sympy
from scipy.integrate import solve_ivp
from symfit import Fit, ODEModel, Parameter, Variable, D
from symfit.core.models import ODEError
from symfit.core.minimizers import BFGS, LBFGSB, SLSQP, NelderMead, MINPACK

from .. import gen, fits, odes, expr as E
from ..core import Skip, Inconclusive
from ..fits import add, mul, fun, s_, c_

METHODS = [{}, {}, {}, {}, dict(rtol=1e-9, atol=1e-10), dict(method='RK45', rtol=1e-8, atol=1e-9), dict(method='DOP853', rtol=1e-8, atol=1e-9),
           dict(method='Radau', rtol=1e-7, atol=1e-8), dict(method='BDF', rtol=1e-8, atol=1e-10), dict(method='LSODA'), dict(rtol=1e-10)]


def wanted_times(ctx, t0, lo=-1.2, hi=2.0):
    """Times around t0, as awkwardly as users ask for them."""
    rng = ctx.rng
    kind = rng.choice(['after', 'before', 'both', 'both', 'only initial', 'scalar', 'scalar initial', 'single', 'unsorted', 'repeated',
                       'descending', 'list', 'close', 'integers', 'float32'])
    n = rng.randint(2, 9)
    a, b = {'after': (0.05, hi), 'before': (lo, -0.05)}.get(kind, (lo, hi))
    if kind in ('list', 'repeated', 'unsorted', 'descending'):
        a, b = rng.choice([(lo, hi), (0.0, hi), (lo, 0.0)])
    t = np.sort(t0 + np.round(ctx.np.uniform(a, b, n), 4))
    if kind == 'only initial':
        t = np.full(rng.randint(1, 3), t0)
    elif kind == 'scalar':
        t = rng.choice([float(t[0]), np.float64(t[0]), float(t[-1])])
    elif kind == 'scalar initial':
        t = rng.choice([t0, float(t0), np.float64(t0)])
    elif kind == 'single':
        t = np.array([t[0]])
    elif kind == 'unsorted':
        ctx.np.shuffle(t)
    elif kind == 'repeated':
        t = np.concatenate([t, t[:2], t[-1:]])
        if rng.random() < 0.5:
            ctx.np.shuffle(t)
    elif kind == 'descending':
        t = t[::-1].copy()
    elif kind == 'close':
        t = np.array([t0 + 1e-9, t0 + 1.0, t0 + 1.0 + 1e-10, t0 - 1e-9])
        if rng.random() < 0.5:
            t = np.sort(t)
    elif kind == 'integers':
        t = np.arange(int(np.floor(t0)) - 1, int(np.floor(t0)) + 3)
    elif kind == 'float32':
        t = t.astype(np.float32)
    if isinstance(t, np.ndarray) and kind not in ('integers', 'float32', 'close') and rng.random() < 0.5 and len(t) > 1:
        t[rng.randrange(len(t))] = t0
    ctx.tag('times:' + kind, 'initial time asked' if np.any(np.asarray(t) == t0) else 'initial time not asked')
    if kind == 'list':
        t = t.tolist()
    return kind, t


def ask(ctx, model, tname, params, t, values):
    """Call the model positionally or by name."""
    how = ctx.rng.choice(['name', 'position', 'mixed'])
    ctx.tag('call:' + how)
    given = t.copy() if isinstance(t, np.ndarray) else list(t) if isinstance(t, list) else t
    if how == 'name':
        items = gen.shuffled(ctx.rng, [(tname, given)] + [(p, values[p]) for p in params])
        out = model(**dict(items))
    elif how == 'position':
        out = model(given, *[values[p] for p in params])
    else:
        out = model(given, **{p: values[p] for p in params})
    if isinstance(t, np.ndarray):
        ctx.check('times-not-altered', np.array_equal(given, t))
    return out


def judge(ctx, out, deps, t, want, rtol, label='solution', **info):
    shape = np.shape(np.atleast_1d(np.asarray(t, dtype=float)))
    got = {}
    names = [v.name for v in out.variables]
    ctx.check(label + '-variables', names == deps, got=names, want=deps)
    for i, d in enumerate(deps):
        w = np.broadcast_to(np.asarray(want[d], dtype=float), shape)
        scale = max(1.0, float(np.max(np.abs(w))))
        for how, g in (('position', out[i]), ('attribute', getattr(out, d))):
            ctx.close('{}-by-{}'.format(label, how), g, w, rtol=rtol, atol=rtol * scale, component=d, t=t, **info)


def closed(ctx):
    rng = ctx.rng
    pr = odes.ode_problem(ctx, fixed_initial=rng.random() < 0.3)
    kw = dict(rng.choice(METHODS))
    model = ODEModel(dict(pr.model_dict), dict(pr.initial), **kw)
    # where the closed form of a logistic blows up is no place to integrate to
    lo = -0.8 if pr.kind in ('logistic', 'power') else -1.2
    ctx.tag('kind:' + pr.kind, 'method:' + kw.get('method', 'default'))
    ctx.check('parameters', [p.name for p in model.params] == pr.params, got=[p.name for p in model.params], want=pr.params)
    ctx.check('dependents', [v.name for v in model.dependent_vars] == pr.deps and [v.name for v in model.independent_vars] == [pr.tname])
    rtol = 2e-5 if kw.get('method', 'LSODA') == 'LSODA' else 1e-5
    for _ in range(rng.randint(2, 4)):
        kind, t = wanted_times(ctx, pr.t0, lo)
        values = {p: round(v * rng.uniform(0.8, 1.2), 4) for p, v in pr.values.items()}
        if rng.random() < 0.3:
            values = dict(pr.values)
        ctx.describe(kind=pr.kind, model=str(pr.model_dict), initial=str(pr.initial), kw=kw, t=t, values=values)
        want = pr.solution(np.asarray(t, dtype=float), values)
        if not all(np.all(np.isfinite(want[d])) and np.max(np.abs(want[d])) < 1e4 for d in pr.deps):
            continue
        out = ask(ctx, model, pr.tname, pr.params, t, values)
        judge(ctx, out, pr.deps, t, want, rtol, times=kind)


def random_system(ctx):
    """Random nonlinear systems against an independent high-order integration."""
    rng = ctx.rng
    n = rng.randint(1, 3)
    pn = gen.names(rng, gen.PARAM_NAMES, rng.randint(1, 4))
    dn = gen.names(rng, gen.COMP_NAMES, n, pn)
    tn = gen.names(rng, gen.VAR_NAMES, 1, pn + dn)[0]
    comps = {}
    used = set()
    for i, d in enumerate(dn):
        terms = [mul(c_(-round(rng.uniform(0.2, 1), 2)), s_(d))]
        for _ in range(rng.randint(1, 3)):
            p = s_(rng.choice(pn))
            other = s_(rng.choice(dn))
            terms.append(rng.choice([
                mul(p, fun('sin', other)), mul(p, fun('cos', s_(tn))), mul(p, fun('tanh', other)), p, mul(c_(0.3), p, s_(tn)),
                mul(p, ('/', other, add(c_(1.0), ('^', other, 2)))), mul(p, fun('exp', ('-', ('^', other, 2))))]))
        comps[d] = add(*terms)
        used |= E.symbols_of(comps[d]) & set(pn)
    syms = {v: Variable(v) for v in dn + [tn]}
    syms.update({p: Parameter(p, value=1.0) for p in pn})
    values = {p: round(rng.uniform(-1.2, 1.2), 3) for p in pn}
    t0 = rng.choice([0.0, 0, 1, -0.5, 2.0])
    initial, start = {syms[tn]: t0}, {}
    shared = None
    for d in dn:
        how = rng.choice(['number', 'integer', 'parameter', 'own parameter', 'shared'])
        if how == 'number':
            start[d] = initial[syms[d]] = round(rng.uniform(-1, 1), 3)
        elif how == 'integer':
            start[d] = initial[syms[d]] = rng.choice([0, 1, -1])
        elif how == 'own parameter':
            p = 'i_' + d
            values[p] = round(rng.uniform(-1, 1), 3)
            syms[p] = Parameter(p, value=0.5, fixed=rng.random() < 0.5)
            initial[syms[d]], start[d] = syms[p], p
            used.add(p)
        else:       # a parameter of the equations, or of another variable, again
            p = shared or rng.choice(pn)
            shared = p if how == 'shared' else shared
            initial[syms[d]], start[d] = syms[p], p
            used.add(p)
        ctx.tag('initial:' + how)
    params = sorted(used)
    md = {D(syms[d], syms[tn]): E.to_sympy(comps[d], syms) for d in gen.shuffled(rng, dn)}
    if any(not isinstance(v, sympy.Basic) or not v.free_symbols for v in md.values()):
        raise Skip('constant')
    free = {s.name for v in md.values() for s in v.free_symbols} | {v.name for v in initial.values() if isinstance(v, Parameter)}
    params = [p for p in params if p in free]
    kw = dict(rng.choice(METHODS))
    model = ODEModel(md, dict(gen.shuffled(rng, list(initial.items()))), **kw)
    deps = sorted(dn)
    ctx.check('parameters', [p.name for p in model.params] == params, got=[p.name for p in model.params], want=params)

    def reference(t, vals):
        y0 = [vals[start[d]] if isinstance(start[d], str) else start[d] for d in deps]
        f = lambda s, y: [float(E.ev(comps[d], dict(vals, **{tn: s}, **dict(zip(deps, y))))) for d in deps]
        out = {d: np.zeros(len(t)) for d in deps}
        for side in (1, -1):
            idx = [i for i, s in enumerate(t) if (s - t0) * side > 0]
            if not idx:
                continue
            ts = sorted({t[i] for i in idx}, reverse=side < 0)
            sol = solve_ivp(f, (t0, ts[-1]), y0, t_eval=ts, method='DOP853', rtol=1e-10, atol=1e-11)
            if not sol.success:
                raise Skip('reference')
            for i in idx:
                for k, d in enumerate(deps):
                    out[d][i] = sol.y[k][ts.index(t[i])]
        for i, s in enumerate(t):
            if s == t0:
                for k, d in enumerate(deps):
                    out[d][i] = y0[k]
        return out
    ctx.tag('system of %d' % n, 'method:' + kw.get('method', 'default'))
    for _ in range(2):
        kind, t = wanted_times(ctx, t0, -1.0, 2.0)
        vals = {p: round(values[p] * rng.uniform(0.8, 1.2), 4) for p in values}
        ctx.describe(what='system', model=str(md), initial=str(initial), kw=kw, t=t, values=vals)
        want = reference([float(s) for s in np.atleast_1d(np.asarray(t, dtype=float))], vals)
        if any(np.max(np.abs(w)) > 100 for w in want.values()):
            raise Skip('blows up')
        out = ask(ctx, model, tn, params, t, vals)
        judge(ctx, out, deps, t, want, 3e-5, times=kind)


def fitting(ctx):
    """Fits recover the parameters, with Gauss-Newton uncertainties."""
    rng = ctx.rng
    fixed_initial = rng.random() < 0.4
    pr = odes.ode_problem(ctx, fixed_initial=fixed_initial)
    syms = {}
    model = ODEModel(dict(pr.model_dict), dict(pr.initial))
    syms = {p.name: p for p in model.params}
    fixed = [p for p in pr.params if syms[p].fixed]
    if rng.random() < 0.25 and len(pr.params) - len(fixed) > 1:
        p = rng.choice([q for q in pr.params if q not in fixed])
        syms[p].fixed = True
        fixed.append(p)
    free = [p for p in pr.params if p not in fixed]
    if not free:
        raise Skip('nothing free')
    t = pr.t0 + np.round(np.linspace(rng.choice([-0.5, 0.0, 0.1]), 2.0, rng.randint(12, 18)), 4)
    if rng.random() < 0.3:
        ctx.np.shuffle(t)
    noise = rng.choice([0.0, 0.02])
    truth = dict(pr.values)
    sol = pr.solution(t, truth)
    data = {pr.tname: t}
    given = list(pr.deps)
    if len(given) > 1 and rng.random() < 0.25:
        given.remove(rng.choice(given))
    sig = {}
    for d in pr.deps:
        data[d] = np.round(sol[d] + noise * ctx.np.normal(size=t.shape), 6) if d in given else None
        if d in given and rng.random() < 0.3:
            sig[d] = round(rng.uniform(0.05, 0.3), 3)
            data['sigma_' + d] = sig[d]
    for p in free:
        syms[p].value = round(truth[p] * rng.uniform(0.93, 1.07), 4)
    if max(np.max(np.abs(v)) for v in sol.values()) > 15:
        raise Skip('grows too far')
    J = pr.jacobian(t, truth)
    w = {d: 1 / sig.get(d, 1.0) ** 2 for d in given}
    idx = [pr.params.index(p) for p in free]
    G = sum(w[d] * J[d][idx] @ J[d][idx].T for d in given)
    scale = np.sqrt(np.diag(G))
    if np.any(scale == 0) or np.linalg.eigvalsh(G / np.outer(scale, scale))[0] < 3e-3:
        raise Skip('badly determined')
    name = rng.choice(['auto', 'auto', 'LBFGSB', 'SLSQP', 'MINPACK', 'NelderMead+BFGS', 'bounded'])
    mini = {'auto': None, 'LBFGSB': LBFGSB, 'SLSQP': SLSQP, 'MINPACK': MINPACK, 'NelderMead+BFGS': [NelderMead, BFGS], 'bounded': None}[name]
    if name == 'bounded':
        for p in free:
            syms[p].min, syms[p].max = truth[p] - 1.0, truth[p] + 1.0
    if name == 'MINPACK' and len(given) < len(pr.deps):
        name, mini = 'auto', None
    ctx.describe(what='fit', kind=pr.kind, model=str(pr.model_dict), initial=str(pr.initial), t=t, truth=truth, fixed=fixed, noise=noise, given=given,
                 sigma=sig, minimizer=name)
    ctx.tag('fit:' + pr.kind, 'minimizer:' + name, 'noise' if noise else 'exact', 'fixed' if fixed else 'free')
    try:
        res = Fit(model, minimizer=mini, **data).execute()
    except ODEError as err:
        raise Inconclusive('integration failed on the way: %s' % err)
    found = {p: float(res.params[p]) for p in pr.params}
    for p in fixed:
        ctx.check('fixed-kept', found[p] == truth[p], p=p, got=found[p], want=truth[p])
    # independent optimum: Gauss-Newton from the truth with the closed form
    x = dict(truth)
    for _ in range(30):
        s, Jx = pr.solution(t, x), pr.jacobian(t, x)
        g = sum(w[d] * Jx[d][idx] @ (np.broadcast_to(s[d], t.shape) - data[d]) for d in given)
        G = sum(w[d] * Jx[d][idx] @ Jx[d][idx].T for d in given)
        step = -np.linalg.solve(G, g)
        for p, k in zip(free, step):
            x[p] += k
        if np.max(np.abs(step)) < 1e-11:
            break
    else:
        raise Skip('oracle')
    S = lambda v: 0.5 * sum(w[d] * np.sum((np.broadcast_to(pr.solution(t, v)[d], t.shape) - data[d]) ** 2) for d in given)
    got, best = S(found), S(x)
    ok = res.minimizer_output.get('success', True)
    if not ok and got - best > 1e-4 * (1 + best):
        raise Inconclusive('minimizer reports failure')
    dist = np.sqrt(max(0, (np.array([found[p] - x[p] for p in free])) @ G @ (np.array([found[p] - x[p] for p in free]))))
    limit = 3e-3 if name == 'SLSQP' else 1e-3
    if dist > limit + 0.02 * np.sqrt(2 * best) and got - best < 1e-5:
        raise Inconclusive('stopped in the noise of the integrator')
    ctx.check('recovers-parameters', got - best <= 2e-5 * (1 + best), got=found, want=x, excess=got - best, truth=truth, minimizer=name, status=str(res.status_message))
    if got - best > 1e-6 * (1 + best):
        return
    # uncertainties: Gauss-Newton at the reported parameters
    Jf = pr.jacobian(t, found)
    G = sum(w[d] * Jf[d][idx] @ Jf[d][idx].T for d in given)
    C = np.linalg.inv(G)
    if not sig:
        if len(given) > 1:
            return              # K-dof
        C = C * 2 * got / (len(t) * len(given) - len(free))
    if np.linalg.cond(G) > 1e7 or best < 1e-8 and not sig:
        return
    sd = [res.stdev(syms[p]) for p in free]
    if any(s is None for s in sd):
        ctx.check('uncertainties', False, stdev=sd)
        return
    ctx.close('uncertainties', np.array(sd, dtype=float), np.sqrt(np.diag(C)), rtol=2e-2, atol=1e-9, minimizer=name)
    for p in fixed:
        ctx.check('fixed-has-no-uncertainty', res.stdev(syms[p]) in (0, None), p=p, got=res.stdev(syms[p]))


class Border(object):
    """Within the context, everything handed to scipy's integrators is recorded."""
    def __init__(self):
        self.calls = []

    def __enter__(self):
        real = scipy.integrate.solve_ivp

        def entry(fun, t_span, y0, *args, **kwargs):
            if len(self.calls) < 40:
                self.calls.append((fun, t_span, y0, kwargs))
            return real(fun, t_span, y0, *args, **kwargs)
        self.undo = []
        for name, m in list(sys.modules.items()):
            if (name == 'scipy.integrate' or name.split('.')[0] == 'symfit') and getattr(m, 'solve_ivp', None) is real:
                self.undo.append((m, real))
                m.solve_ivp = entry
        return self

    def __exit__(self, *exc):
        for m, real in self.undo:
            m.solve_ivp = real

    def judge(self, ctx):
        """The derivatives handed over are those of the system handed over."""
        for fun, t_span, y0, kw in ctx.rng.sample(self.calls, min(2, len(self.calls))):
            jac, args = kw.get('jac'), kw.get('args') or ()
            if not callable(jac):
                continue
            y = np.asarray(y0, dtype=float) + ctx.np.uniform(-.3, .3, len(y0))
            t = float(np.mean(t_span))
            got = np.asarray(jac(t, y, *args), dtype=float)
            want = np.zeros((len(y), len(y)))
            for j in range(len(y)):
                z = y.astype(complex)
                z[j] += 1e-30j
                want[:, j] = [np.imag(v) / 1e-30 for v in fun(t, z, *args)]
            ctx.tag('derivatives handed to the integrator')
            ctx.close('derivatives-handed-to-the-integrator', got, want, rtol=1e-8, atol=1e-8 * max(1.0, float(np.max(np.abs(want)))), y=y, t=t)


def case(ctx):
    with Border() as border:
        choose(ctx)
    border.judge(ctx)


def choose(ctx):
    r = ctx.rng.random()
    if r < 0.4:
        closed(ctx)
    elif r < 0.72:
        random_system(ctx)
    else:
        fitting(ctx)
