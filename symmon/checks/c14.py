"""C14: fitting has no side effects and is repeatable."""
import copy
import pickle

import numpy as np
import sympy
from symfit import (Fit, Model, CallableModel, GradientModel, CallableNumericalModel, ODEModel, D, Eq, Ge, Le, Variable, Parameter)
from symfit.core.minimizers import (BFGS, LBFGSB, SLSQP, NelderMead, Powell, TrustConstr, MINPACK, DifferentialEvolution, BasinHopping, COBYLA)
from symfit.core.objectives import LeastSquares, LogLikelihood, VectorLeastSquares

from .. import gen, fits, expr as E, record
from ..core import Skip, Inconclusive
from ..fits import add, mul, fun, s_, c_

LOOSE = ('NelderMead', 'Powell', 'COBYLA', 'DE', 'BasinHopping', 'TrustConstr')


# -- snapshots ---------------------------------------------------------------------------

def freeze(obj, depth=0):
    """Everything observable about an object the user owns, as comparable plain data."""
    if isinstance(obj, np.ndarray):
        return ('array', obj.dtype.str, obj.shape, obj.tobytes())
    if isinstance(obj, Parameter):
        return ('parameter', obj.name, repr(obj.value), repr(obj.min), repr(obj.max), bool(obj.fixed))
    if isinstance(obj, sympy.Basic):
        return ('sympy', type(obj).__name__, sympy.srepr(obj))
    if isinstance(obj, dict):
        return ('dict', tuple((freeze(k, depth + 1), freeze(v, depth + 1)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(freeze(v, depth + 1) for v in obj))
    if isinstance(obj, (set, frozenset)):
        return ('set', frozenset(freeze(v, depth + 1) for v in obj))
    if isinstance(obj, (int, float, str, bool, complex, np.generic)) or obj is None:
        return (type(obj).__name__, repr(obj))
    return ('object', id(obj))


class Watch(object):
    """Monitor of everything the user owns."""
    def __init__(self, ctx):
        self.ctx, self.things = ctx, {}

    def add(self, label, obj):
        self.things[label] = [obj, freeze(obj)]
        return obj

    def refresh(self, *labels):
        for lab in labels or list(self.things):
            self.things[lab][1] = freeze(self.things[lab][0])

    def look(self, after):
        for lab, (obj, was) in self.things.items():
            now = freeze(obj)
            kind = lab.split(':')[0]
            if not self.ctx.check('unchanged-' + kind, now == was, what=lab, after=after, was=str(was)[:250], now=str(now)[:250]):
                self.things[lab][1] = now


def outcome(res):
    cov = res.covariance_matrix
    return dict(params={k: float(v) for k, v in res.params.items()}, objective=float(np.linalg.norm(res.objective_value)),
                cov=None if cov is None else np.array(cov, dtype=float), iterations=res.iterations)


def same(ctx, label, a, b, loose, **info):
    rt = 1e-3 if loose else 1e-6
    ok = list(a['params']) == list(b['params']) and all(
        abs(a['params'][k] - b['params'][k]) <= rt * (1 + abs(a['params'][k])) for k in a['params'])
    ok = ok and abs(a['objective'] - b['objective']) <= rt * (1 + abs(a['objective']))
    if (a['cov'] is None) != (b['cov'] is None):
        ok = False
    elif a['cov'] is not None and not loose:
        ok = ok and a['cov'].shape == b['cov'].shape and np.allclose(a['cov'], b['cov'], rtol=1e-4, atol=1e-8 + 1e-6 * np.nanmax(np.abs(a['cov'])), equal_nan=True)
    ctx.check(label, ok, first=a, second=b, **info)


# -- fits sharing everything ------------------------------------------------------------------

class Config(object):
    """One way of fitting; keeps what the user would keep between fits."""
    def __init__(self, ctx, name, pr, syms, watch, con_ok):
        rng = ctx.rng
        self.name, self.minimizer, self.opts, self.cons = name, None, {}, None
        ns = dict(BFGS=BFGS, LBFGSB=LBFGSB, SLSQP=SLSQP, NelderMead=NelderMead, Powell=Powell, TrustConstr=TrustConstr, MINPACK=MINPACK,
                  DE=DifferentialEvolution, BasinHopping=BasinHopping, COBYLA=COBYLA)
        if name == 'auto':
            pass
        elif name == 'DE':
            self.minimizer = DifferentialEvolution
            self.opts = dict(seed=rng.randrange(99), maxiter=15, popsize=5)
        elif name == 'BasinHopping':
            self.minimizer = BasinHopping
            self.opts = dict(niter=2, seed=rng.randrange(99))
            if rng.random() < 0.5:
                self.opts['minimizer_kwargs'] = dict(tol=1e-8)
            if rng.random() < 0.3:
                self.opts['minimizer_kwargs'] = dict(method='L-BFGS-B', options=dict(maxiter=200))
        elif '+' in name:
            self.minimizer = [ns[n] for n in name.split('+')]
            parts = name.split('+')
            for n in parts:
                key = {'DE': 'DifferentialEvolution'}.get(n, n)
                if parts.count(n) > 1:
                    key = n + '_2'
                if n == 'DE':
                    self.opts[key] = dict(seed=3, maxiter=8, popsize=5)
                elif rng.random() < 0.6:
                    self.opts[key] = rng.choice([dict(tol=1e-6), dict(options=dict(maxiter=300)), {}])
        else:
            self.minimizer = ns[name]
            if name == 'TrustConstr':
                self.opts = rng.choice([dict(options=dict(maxiter=500)), {}, dict(options={})])
            elif name == 'MINPACK':
                self.opts = rng.choice([dict(ftol=1e-10), {}])
            else:
                self.opts = rng.choice([dict(tol=1e-8), dict(options=dict(maxiter=500)), {}])
        if con_ok and (name in ('SLSQP', 'auto', 'COBYLA') and rng.random() < 0.5):
            ps = rng.sample(pr.free, min(len(pr.free), 2))
            L = sum(round(rng.uniform(0.5, 2), 2) * syms[p] for p in ps)
            at = float(L.subs({syms[p]: pr.start[p] for p in ps}))
            self.cons = [rng.choice([Ge(L, at - 0.5), Le(L, at + 0.5), Ge(-L, -at - 0.2), Le(0, L - at + 1)])]
        watch.add('options:' + name, self.opts)
        watch.add('minimizers:' + name, self.minimizer)
        watch.add('constraints:' + name, self.cons)

    def fit(self, model, data):
        kw = {}
        if self.cons is not None:
            kw['constraints'] = self.cons
        return Fit(model, minimizer=self.minimizer, **dict(data, **kw))


def exercise(ctx, model, res, data, pr, syms, watch):
    """Other things users do with models and results."""
    rng = ctx.rng
    for what in gen.shuffled(rng, ['str', 'eval', 'jac', 'hess', 'neg', 'stats', 'pickle', 'constraint', 'fd', 'eq'])[:rng.randint(2, 6)]:
        x = {k: np.asarray(v) for k, v in data.items() if k in pr.spec.indep}
        kw = dict(x, **{p: float(res.params[p]) for p in pr.spec.params})
        if what == 'str':
            str(res), repr(res), str(model), model.latex if hasattr(model, 'latex') else None
        elif what == 'eval':
            model(**kw)
        elif what == 'jac' and hasattr(model, 'eval_jacobian'):
            model.eval_jacobian(**kw)
        elif what == 'hess' and hasattr(model, 'eval_hessian'):
            model.eval_hessian(**kw)
        elif what == 'neg':
            (-model)(**kw)
        elif what == 'stats':
            [res.stdev(syms[p]) for p in pr.spec.params], res.chi_squared, res.r_squared
        elif what == 'pickle' and type(model) in (Model, CallableModel, GradientModel):
            pickle.loads(pickle.dumps([a for a in (model,)]))
        elif what == 'constraint':
            rng.choice([CallableModel, Model]).as_constraint(Ge(syms[pr.free[0]], 0), model)
        elif what == 'fd' and hasattr(model, 'finite_difference'):
            model.finite_difference(**kw)
        elif what == 'eq':
            model == Model({Variable('q_q'): syms[pr.free[0]] * 2})
        watch.look(what)


def history(ctx):
    rng = ctx.rng
    pr = fits.ls_problem(ctx, fixed_p=0.2, n_comp=rng.choice([1, 1, 2]))
    best, _, _, _ = pr.solve(dict(pr.start, **{p: pr.truth[p] for p in pr.free}) if pr.kind == 'nonlin' else None)
    bounded = rng.random() < 0.5
    if bounded:
        for p in pr.free:
            pr.bounds[p] = (round(min(best[p], pr.start[p]) - rng.uniform(.5, 1.5), 3), round(max(best[p], pr.start[p]) + rng.uniform(.5, 1.5), 3))
    outside = bounded and pr.kind == 'lin' and rng.random() < 0.4
    if outside:
        # the initial value of a parameter may lie outside its bounds
        p = rng.choice(pr.free)
        lo, hi = pr.bounds[p]
        pr.start[p] = round(rng.choice([lo - rng.uniform(.2, 1), hi + rng.uniform(.2, 1)]), 3)
        ctx.tag('starts outside')
    syms = pr.symbols()
    watch = Watch(ctx)
    for p in pr.spec.params:
        watch.add('parameter:' + p, syms[p])
    data = pr.data()
    readonly = rng.random() < 0.5
    for k, v in data.items():
        if isinstance(v, np.ndarray) and readonly:
            v.setflags(write=False)
        if isinstance(v, np.ndarray) and not readonly and rng.random() < 0.15:
            data[k] = v.tolist()
    for k, v in data.items():
        watch.add('data:' + k, v)
    cls = rng.choice([Model, Model, Model, GradientModel, CallableModel, 'numeric'])
    md = pr.spec.model_dict(syms, gen.shuffled(rng, pr.spec.comps))
    log = []
    if cls == 'numeric':
        md, conn = {}, {}
        for c in pr.spec.comps:
            md[syms[c]] = record.Callable(pr.spec.comps[c])
            conn[syms[c]] = {syms[s] for s in E.symbols_of(pr.spec.comps[c])}
        watch.add('connectivity:map', conn)
        watch.add('model dict:', md)
        model = record.recording(CallableNumericalModel, log)(md, connectivity_mapping=conn)
    else:
        watch.add('model dict:', md)
        model = record.recording(cls, log)(md)
    watch.look('model creation')
    names = ['auto', 'BFGS', 'LBFGSB', 'SLSQP', 'NelderMead', 'Powell', 'BasinHopping', 'COBYLA', 'BFGS+NelderMead', 'LBFGSB+LBFGSB',
             'NelderMead+BFGS',
             'BFGS+NelderMead+BFGS']
    shapes = {pr.y[c].shape for c in pr.alive}
    if cls != 'numeric':
        names += ['TrustConstr'] * (cls is Model and not outside)
        if len(shapes) == 1 and not outside:
            names += ['MINPACK']
    if bounded:
        names += ['DE', 'DE+LBFGSB']
    k = rng.randint(2, 4)
    configs = [Config(ctx, n, pr, syms, watch, con_ok=True) for n in rng.sample(names, k)]
    ctx.describe(cls=cls if isinstance(cls, str) else cls.__name__, fits=[c.name for c in configs], opts=[str(c.opts) for c in configs],
                 cons=[str(c.cons) for c in configs], readonly=readonly, **pr.text())
    ctx.tag(*['fit:' + c.name for c in configs])
    ctx.tag('readonly' if readonly else 'writable', 'cls:%s' % (cls if isinstance(cls, str) else cls.__name__))
    first, starts, alive = {}, {}, {}
    plan = [c for c in configs for _ in range(2)]
    rng.shuffle(plan)
    for step, c in enumerate(plan):
        how = 'again' if c.name in alive and rng.random() < 0.5 else 'new'
        if how == 'new':
            fit = c.fit(model, data)
            watch.look('building a fit with ' + c.name)
            alive[c.name] = fit
        fit = alive[c.name]
        del log[:]
        res = fit.execute(**c.opts)
        watch.look('executing ' + c.name)
        out = outcome(res)
        start = [e for e in log[:1]]
        if c.name not in first:
            first[c.name], starts[c.name] = out, start
        else:
            ctx.tag('repeat:' + how)
            same(ctx, 'repeat-gives-the-same:' + how, first[c.name], out, any(l in c.name for l in LOOSE), fit=c.name, step=step)
            if start and starts[c.name]:
                ok = start[0][0] == starts[c.name][0][0] and all(
                    abs(start[0][1][p] - v) <= 1e-9 * (1 + abs(v)) for p, v in starts[c.name][0][1].items())
                ctx.check('repeat-starts-the-same:' + how, ok, first=starts[c.name][0], second=start[0], fit=c.name)
        if rng.random() < 0.5:
            exercise(ctx, model, res, data, pr, syms, watch)


def changes(ctx):
    """Changes the user makes between fits are honoured by the next fit."""
    rng = ctx.rng
    pr = fits.ls_problem(ctx, kind='lin', fixed_p=0.15, n_comp=rng.choice([1, 1, 2]), none_ok=False, interdep=rng.random() < 0.3)
    pr.solve()
    syms = pr.symbols()
    data = pr.data()
    log = []
    cls = rng.choice([Model, Model, GradientModel, CallableModel])
    model = record.recording(cls, log)(pr.spec.model_dict(syms))
    ctx.describe(what='changes', cls=cls.__name__, **pr.text())
    watch = Watch(ctx)
    done = []
    for step in range(rng.randint(3, 5)):
        for p in pr.spec.params:
            watch.add('parameter:' + p, syms[p])
        for k, v in data.items():
            watch.add('data:' + k, v)
        mini = rng.choice([None, None, LBFGSB, SLSQP] + ([] if pr.bounds else [BFGS, [BFGS, LBFGSB]]))
        fit = Fit(model, minimizer=mini, **data)
        watch.look('building')
        del log[:]
        res = fit.execute()
        watch.look('executing')
        H, g0, const = fits.quadratic_form(pr)
        if np.linalg.cond(H) > 1e6:
            raise Skip('badly determined')
        x = fits.qp(H, g0, fits.box_rows(pr))
        want = dict(zip(pr.free, x))
        found = {p: float(res.params[p]) for p in pr.spec.params}
        starts = [e for e in log if e[0] == 'value'][:1]
        if starts:
            ctx.check('starts-at-the-values', all(abs(v - pr.start[p]) <= 1e-9 for p, v in starts[0][1].items()), start=pr.start,
                      first=starts[0][1], after=done)
        for p in pr.fixed:
            ctx.check('fixed-honoured', found[p] == pr.start[p], p=p, got=found[p], want=pr.start[p], after=done)
        for p, (lo, hi) in pr.bounds.items():
            ctx.check('bounds-honoured', (lo is None or found[p] >= lo - 1e-8) and (hi is None or found[p] <= hi + 1e-8), p=p, got=found[p],
                      bounds=(lo, hi), after=done)
        S, S0 = pr.S({p: found[p] for p in pr.free}), pr.S(want)
        if S - S0 > 1e-5 * (1 + abs(S0)) and (not res.minimizer_output.get('success', True) or fits.struggles(
                pr, ['LBFGSB', 'SLSQP'], S0, 1e-5, found)):
            raise Inconclusive('numerical trouble')
        ctx.check('change-honoured', abs(S - S0) <= 1e-5 * (1 + abs(S0)), after=done, got=S, want=S0, found=found, best=want)
        # now change something
        for _ in range(rng.randint(1, 2)):
            kind = rng.choice(['value', 'fix', 'free', 'bounds', 'unbound', 'data inplace', 'data new', 'sigma', 'x inplace'])
            done.append(kind)
            ctx.tag('change:' + kind)
            p = rng.choice(pr.spec.params)
            if kind == 'value':
                lo, hi = pr.bounds.get(p, (None, None))
                v = round(rng.uniform(-2, 2), 3)
                v = v if lo is None else max(v, lo)
                pr.start[p] = float(v if hi is None else min(v, hi))
                syms[p].value = pr.start[p]
            elif kind == 'fix' and p not in pr.fixed and len(pr.free) > 1:
                pr.fixed.append(p)
                pr.bounds.pop(p, None)
                syms[p].min = syms[p].max = None
                syms[p].fixed = True
            elif kind == 'free' and p in pr.fixed:
                pr.fixed.remove(p)
                syms[p].fixed = False
            elif kind == 'bounds' and p not in pr.fixed:
                lo, hi = round(pr.start[p] - rng.uniform(0.05, 1), 3), round(pr.start[p] + rng.uniform(0.05, 1), 3)
                lo, hi = rng.choice([(lo, hi), (lo, None), (None, hi)])
                syms[p].min = syms[p].max = None
                syms[p].min, syms[p].max = lo, hi
                pr.bounds[p] = (lo, hi)
            elif kind == 'unbound' and pr.bounds:
                p = rng.choice(sorted(pr.bounds))
                del pr.bounds[p]
                syms[p].min = syms[p].max = None
            elif kind in ('data inplace', 'data new'):
                c = rng.choice(pr.alive)
                pr.y[c] = np.round(pr.y[c] + ctx.np.normal(size=pr.y[c].shape), 4)
                if kind == 'data inplace':
                    data[c][...] = pr.y[c]
                else:
                    data[c] = np.array(pr.y[c])
            elif kind == 'x inplace':
                v = rng.choice(pr.spec.indep)
                pr.indep[v] = np.round(pr.indep[v] * 1.1 + 0.05, 4)
                data[v][...] = pr.indep[v]
            elif kind == 'sigma':
                c = rng.choice(pr.alive)
                pr.s[c] = np.round(ctx.np.uniform(0.3, 1.5, pr.y[c].shape), 3)
                data['sigma_' + c] = np.array(pr.s[c])


def ode(ctx):
    rng = ctx.rng
    a, b, y0 = Parameter('a', value=round(rng.uniform(0.3, 1.2), 3)), Parameter('b', value=round(rng.uniform(0.5, 1.5), 3)), \
        Parameter('y0', value=round(rng.uniform(0.5, 2), 3))
    t, y = Variable('t'), Variable('y')
    if rng.random() < 0.5:
        b.fixed = True
    md = {D(y, t): b - a * y}
    init = {t: rng.choice([0.0, 1.0, -1.0]), y: rng.choice([y0, 1.3])}
    kw = rng.choice([{}, dict(rtol=1e-9, atol=1e-9)])
    watch = Watch(ctx)
    for p in (a, b, y0):
        watch.add('parameter:' + p.name, p)
    watch.add('model dict:', md)
    watch.add('initial:', init)
    watch.add('options:integrator', kw)
    model = ODEModel(md, initial=init, **kw)
    watch.look('creation')
    times = np.round(np.linspace(0, 4, rng.choice([6, 9])) + init[t], 4)
    if rng.random() < 0.3:
        times = times[::-1].copy()
    watch.add('data:t', times)
    pars = {p.name: p.value for p in model.params}
    ctx.describe(what='ode', pars=pars, init=str(init), times=times, kw=kw)
    ctx.tag('ode')
    y1 = np.array(model(t=times, **pars)[0])
    model(t=np.array([init[t] + 0.3]), **{k: v * 1.1 for k, v in pars.items()})
    if rng.random() < 0.5:
        model.eval_jacobian(t=times, **pars)
    y2 = np.array(model(t=times, **pars)[0])
    watch.look('evaluation')
    ctx.close('repeat-evaluation', y2, y1, rtol=1e-12, atol=1e-12)
    ydata = np.round(y1 + 0.02 * ctx.np.normal(size=y1.shape), 5)
    watch.add('data:y', ydata)
    mini = rng.choice([None, LBFGSB, SLSQP])
    fit = Fit(model, minimizer=mini, t=times, y=ydata)
    watch.look('building')
    one = outcome(fit.execute())
    watch.look('executing')
    two = outcome(fit.execute() if rng.random() < 0.5 else Fit(model, minimizer=mini, t=times, y=ydata).execute())
    watch.look('executing again')
    same(ctx, 'repeat-gives-the-same:ode', one, two, False)


def likelihood(ctx):
    rng = ctx.rng
    pr = fits.like_problem(ctx)
    syms = pr.symbols()
    watch = Watch(ctx)
    for p in pr.spec.params:
        watch.add('parameter:' + p, syms[p])
    data = pr.data()
    for k, v in data.items():
        v.setflags(write=False)
        watch.add('data:' + k, v)
    md = pr.spec.model_dict(syms)
    watch.add('model dict:', md)
    model = Model(md)
    ctx.describe(**pr.text())
    ctx.tag('likelihood')
    mini = rng.choice([None, LBFGSB, SLSQP, NelderMead, [NelderMead, LBFGSB]])
    fit = Fit(model, objective=LogLikelihood, minimizer=mini, **data)
    watch.look('building')
    r1 = fit.execute()
    one = outcome(r1)
    str(r1)
    watch.look('executing')
    if rng.random() < 0.5:
        Fit(model, objective=LogLikelihood, minimizer=SLSQP, **data).execute()
    two = outcome(fit.execute() if rng.random() < 0.5 else Fit(model, objective=LogLikelihood, minimizer=mini, **data).execute())
    watch.look('executing again')
    same(ctx, 'repeat-gives-the-same:likelihood', one, two, mini is NelderMead)


def case(ctx):
    r = ctx.rng.random()
    if r < 0.55:
        history(ctx)
    elif r < 0.8:
        changes(ctx)
    elif r < 0.9:
        ode(ctx)
    else:
        likelihood(ctx)
