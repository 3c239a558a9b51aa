"""C10: constrained fits satisfy the relations as written, and find the constrained optimum."""
import operator

import numpy as np
import scipy.optimize
import sympy
from symfit import (Fit, Model, CallableModel, GradientModel, CallableNumericalModel, ODEModel, Parameter, Variable, Eq, Ge, Le, Gt, Lt, Ne,
                    ModelError)
from symfit.core.models import ODEError
from symfit.core.minimizers import BFGS, LBFGSB, SLSQP, NelderMead, TrustConstr, COBYLA, BasinHopping
from symfit.core.objectives import LeastSquares, MinimizeModel
from symfit.core.fit_results import FitResults

from .. import gen, fits, odes, expr as E, record
from ..core import Skip, Inconclusive
from ..gen import Spec
from ..fits import add, mul, fun, s_, c_
from .c09 import make_box

MINI = ['auto', 'auto', 'auto', 'SLSQP', 'TrustConstr', 'COBYLA', 'BasinHopping', 'SLSQP+TrustConstr', 'COBYLA+SLSQP', 'BFGS+SLSQP',
        'SLSQP+SLSQP', 'direct SLSQP', 'direct TrustConstr', 'direct COBYLA']
NS = dict(BFGS=BFGS, SLSQP=SLSQP, TrustConstr=TrustConstr, COBYLA=COBYLA, NelderMead=NelderMead)
TOL = {'SLSQP': 1e-4, 'auto': 1e-4, 'TrustConstr': 3e-3, 'COBYLA': 5e-3, 'BasinHopping': 1e-4}
SLACK = {'SLSQP': 1e-4, 'auto': 1e-4, 'TrustConstr': 5e-4, 'COBYLA': 1e-3, 'BasinHopping': 1e-4}
CLS = {'>=': Ge, '<=': Le, '==': Eq}
FLIP = {'>=': '<=', '<=': '>=', '==': '=='}


def make(name, rng):
    if name == 'auto':
        return None, {}
    if name == 'BasinHopping':
        return BasinHopping, dict(niter=2, seed=rng.randrange(99))
    parts = [NS[p] for p in name.split('+')]
    opts = {}
    if name == 'COBYLA':
        opts = dict(options=dict(maxiter=20000), tol=1e-6)
    elif name == 'COBYLA+SLSQP':
        opts = dict(COBYLA=dict(options=dict(maxiter=300)))
    return (parts if len(parts) > 1 else parts[0]), opts


def make_rows(ctx, free, fixed, start, feas, allow_eq):
    """Linear rows (coefficients by name, relation, right side), all satisfied at the point `feas`."""
    rng = ctx.rng
    n = len(free)
    kinds = [rng.choice(['>=', '<=', '==']) if allow_eq else rng.choice(['>=', '<=']) for _ in range(rng.choice([1, 1, 2, 3]))]
    rows = []
    for rel in kinds[:max(1, n - 1) if '==' in kinds else 3]:
        used = rng.sample(free, rng.randint(1, min(n, 3)))
        coef = {p: rng.choice([1.0, -1.0, 2.0, round(rng.uniform(0.4, 2), 2), -round(rng.uniform(0.4, 2), 2)]) for p in used}
        for p in fixed:
            if rng.random() < 0.5:
                coef[p] = rng.choice([1.0, -0.5, round(rng.uniform(0.4, 2), 2)])
        at = sum(k * feas.get(p, start.get(p)) for p, k in coef.items())
        slack = 0.0 if rel == '==' else round(rng.uniform(0.05, 1.0), 3)
        b = at - slack if rel == '>=' else at + slack
        b = round(b, 4) if rel != '==' else b
        if rng.random() < 0.15 and rel != '==':
            # a right hand side of zero
            if (rel == '>=' and at > 0.02) or (rel == '<=' and at < -0.02):
                b = 0.0
        rows.append((coef, rel, float(b)))
    A = np.array([[c.get(p, 0.0) for p in free] for c, r, b in rows])
    eqs = [i for i, r in enumerate(rows) if r[1] == '==']
    for i in range(len(rows)):
        for j in range(i):
            if abs(A[i] @ A[j]) > 0.98 * np.linalg.norm(A[i]) * np.linalg.norm(A[j]):
                raise Skip('parallel rows')
    if len(rows) <= n:
        if np.linalg.svd(A / np.linalg.norm(A, axis=1, keepdims=True))[1][-1] < 0.1:
            raise Skip('dependent rows')
    elif eqs:
        raise Skip('too many rows')
    return rows


def oracle_rows(rows, free, start):
    ineq, eq = [], []
    for coef, rel, b in rows:
        a = np.array([coef.get(p, 0.0) for p in free])
        r = b - sum(k * start[p] for p, k in coef.items() if p not in free)
        if rel == '==':
            eq.append((a, r))
        elif rel == '>=':
            ineq.append((a, r))
        else:
            ineq.append((-a, -r))
    return ineq, eq


def linear_expr(coef, syms, rng):
    e = 0
    for p in gen.shuffled(rng, coef):
        k = coef[p]
        k = int(k) if k == int(k) and rng.random() < 0.5 else k
        e = e + k * syms[p]
    return e


def build(rel, lhs, rhs, rng):
    """The relation lhs rel rhs, written in one of the ways sympy offers."""
    if rel == '==':
        return Eq(lhs, rhs)
    how = rng.choice(['class', 'operator', 'kind'])
    lhs, rhs = sympy.sympify(lhs), sympy.sympify(rhs)
    if how == 'class':
        return CLS[rel](lhs, rhs)
    if how == 'operator' and (isinstance(lhs, sympy.Basic) or isinstance(rhs, sympy.Basic)):
        return lhs >= rhs if rel == '>=' else lhs <= rhs
    return sympy.Rel(lhs, rhs, rel)


def write(ctx, row, syms, model, extra, comp=None, data_ok=True, obj_cls=None):
    """The row as the user might write it."""
    rng = ctx.rng
    coef, rel, b = row
    how = rng.choice(['plain', 'plain', 'split', 'zero', 'scaled', 'negated', 'exp', 'data', 'data2', 'numeric', 'numeric data', 'model',
                      'model expr', 'ratio data', 'ratio data', 'ratio'])
    if not data_ok and 'data' in how:
        how = 'plain'
    if comp is not None and set(comp[1]) <= set(coef) and coef[comp[1][0]] * comp[2] == coef[comp[1][1]] and rng.random() < 0.8:
        # through the component  s = p + w * q
        s, (p, q), w = comp
        rest = {k: v for k, v in coef.items() if k not in (p, q)}
        L = coef[p] * syms[s] + linear_expr(rest, syms, rng)
        ctx.tag('via component')
        how = rng.choice(['plain', 'zero', 'scaled', 'negated', 'exp', 'model expr', 'ratio'])
    else:
        L = linear_expr(coef, syms, rng)
    ctx.tag('form:' + how, 'relation:' + rel)
    flip = rng.random() < 0.5
    if how == 'plain':
        l, r = L, b
    elif how == 'split':
        l, r = L, b
        for p in coef:
            if rng.random() < 0.5:
                l, r = l - coef[p] * syms[p], r - coef[p] * syms[p]
        if l == 0:
            l, r, rel = -r, 0, FLIP[rel]
            rel = FLIP[rel]
    elif how == 'zero':
        l, r = L - b, 0
    elif how == 'scaled':
        k = rng.choice([2, 0.5, 3.0])
        l, r = sympy.expand(k * L), k * b
    elif how == 'negated':
        l, r, rel = sympy.expand(-L), -b, FLIP[rel]
    elif how == 'exp' and abs(b) < 2:
        l, r = sympy.exp(L), float(np.exp(b))
    elif how == 'data':
        X = extra.new(b)
        l, r = rng.choice([(L, X), (L - X, 0), (X - L, 0)])
        if l.has(X) and l.coeff(X) == 1:
            rel = FLIP[rel]
    elif how == 'data2':
        p = rng.choice(sorted(coef))
        X, Z = extra.new(coef[p]), extra.new(b)
        l, r = L - coef[p] * syms[p] + X * syms[p], Z
    elif how == 'ratio data':
        # divided by a measured number, which may be negative
        k = rng.choice([-1.0, -2.0, 0.5, -0.7, 2.5])
        X = extra.new(k)
        l, r = rng.choice([(L / X, b / X), (L / X - b / X, 0), (L / X, b / k), ((L - b) / X, 0)])
        if k < 0:
            rel = FLIP[rel]
    elif how == 'ratio':
        # divided by an expression of one sign
        q = syms[rng.choice(sorted(coef))]
        k = rng.choice([-1, 1]) * (1 + q ** 2 / 8)
        l, r = rng.choice([(L / k, b / k), ((L - b) / k, 0), (0, (b - L) / k)])
        if k.subs(q, 0) < 0:
            rel = FLIP[rel]
    elif how in ('numeric', 'numeric data'):
        node = add(*[mul(c_(k), s_(p)) for p, k in coef.items()])
        deps = {syms[p] for p in coef}
        if how == 'numeric data':
            X = extra.new(b)
            node = add(node, ('-', s_(X.name)))
            deps.add(X)
        else:
            node = add(node, c_(-b))
        Y = Variable(extra.name())
        ctype = CLS[rel]
        log = []
        con = CallableNumericalModel.as_constraint({Y: record.Callable(node, log, 'con')}, model, connectivity_mapping={Y: deps},
                                                   constraint_type=ctype)
        return con, how
    elif how == 'model':
        kind = obj_cls if rng.random() < 0.4 else rng.choice([CallableModel, Model, GradientModel])
        return kind.as_constraint(build(rel, L, b, rng), model), how
    elif how == 'model expr':
        kind = obj_cls if rng.random() < 0.4 else rng.choice([CallableModel, Model, GradientModel])
        if rng.random() < 0.5:
            return kind.as_constraint(L - b, model, constraint_type=CLS[rel]), how
        return kind.as_constraint({Variable(extra.name()): L - b}, model, constraint_type=CLS[rel]), how
    else:
        l, r = L, b
    if flip:
        l, r, rel = r, l, FLIP[rel]
    con = build(rel, l, r, rng)
    if not isinstance(con, sympy.core.relational.Relational):
        raise Skip('relation decided')
    return con, how


class Extra(object):
    """Variables only constraints use, with their data."""
    def __init__(self, rng, taken):
        self.pool = gen.shuffled(rng, [n for n in gen.VAR_NAMES + gen.COMP_NAMES if n not in taken])
        self.data = {}

    def name(self):
        return self.pool.pop()

    def new(self, value):
        n = self.name()
        self.data[n] = value
        return Variable(n)


def via_component(ctx, spec, free, feasible=True):
    """Rewrite parameter p of a model as (s - w q) with a component s = p + w q."""
    rng = ctx.rng
    if len(free) < 2 or len(spec.comps) != 1:
        return spec, None
    p, q = rng.sample(free, 2)
    w = rng.choice([1.0, -1.0, 2.0])
    pool = [n for n in gen.COMP_NAMES if n not in spec.params + spec.indep + spec.names]
    s = rng.choice(pool)
    main = spec.names[0]

    def swap(node):
        if node[0] == 's':
            return add(s_(s), mul(c_(-w), s_(q))) if node[1] == p else node
        if node[0] == 'f':
            return ('f', node[1], swap(node[2]))
        if node[0] == '^':
            return ('^', swap(node[1]), node[2])
        if node[0] == 'c':
            return node
        return (node[0],) + tuple(swap(c) for c in node[1:])
    comps = {main: swap(spec.comps[main]), s: add(s_(p), mul(c_(w), s_(q)))}
    order = gen.shuffled(rng, comps)
    return Spec(spec.indep, spec.params, {c: comps[c] for c in order}), (s, (p, q), w)


def residuals(rows, values):
    """How far each row is from holding, in units of the row's norm."""
    out = []
    for coef, rel, b in rows:
        v = sum(k * values[p] for p, k in coef.items()) - b
        v = abs(v) if rel == '==' else max(0.0, -v) if rel == '>=' else max(0.0, v)
        out.append(v / np.linalg.norm(list(coef.values())))
    return out


def problem(ctx):
    """(spec, free, fixed, start, f, grad, H, g0, data, cls) of a convex quadratic problem."""
    rng = ctx.rng
    if rng.random() < 0.5:
        spec, H, cen, off, quart = fits.convex_problem(ctx, n=rng.choice([1, 2, 3, 3, 4]))
        if quart:
            raise Skip('quartic')
        free = list(spec.params)
        fixed = []
        if len(free) > 1 and rng.random() < 0.25:
            fixed = [rng.choice(free)]
            free.remove(fixed[0])
        start = {p: round(cen[p] + rng.uniform(-1.5, 1.5), 3) for p in spec.params}
        idx = [spec.params.index(p) for p in free]
        c = np.array([cen[p] for p in spec.params])
        x0 = np.array([0.0 if p in free else start[p] for p in spec.params])
        g = (H @ (x0 - c))[idx]
        Hf = H[np.ix_(idx, idx)]
        main = spec.names[0]
        spec, comp = via_component(ctx, spec, free) if rng.random() < 0.5 else (spec, None)
        f = lambda v: float(spec.values(dict({p: start[p] for p in fixed}, **v))[main][0])
        bounds = {}
        best = dict(zip(free, np.linalg.solve(Hf, -g)))
        return spec, free, fixed, start, f, Hf, -g, {}, comp, best, main, None
    pr = fits.ls_problem(ctx, kind='lin', fixed_p=0.15, noise=rng.choice([0.0, 0.1, 0.3]), interdep=False)
    best, _, H, G = pr.solve()
    H, g0, const = fits.quadratic_form(pr)
    comp = None
    if len(pr.spec.comps) == 1 and rng.random() < 0.5:
        pr.spec, comp = via_component(ctx, pr.spec, pr.free)
    return pr.spec, pr.free, pr.fixed, dict(pr.start), pr.S, H, g0, pr.data(), comp, best, None, pr


def linear(ctx):
    rng = ctx.rng
    name = rng.choice(MINI)
    spec, free, fixed, start, f, H, g0, data, comp, best, main, pr = problem(ctx)
    direct = name.startswith('direct')
    alg = name.split()[-1]
    last = alg.split('+')[-1]
    if alg == 'COBYLA' and len(free) > 3:
        alg = last = 'SLSQP'
        name = name.replace('COBYLA', 'SLSQP')
    bounds = {}
    if 'COBYLA' not in name and not 'BFGS' in name and rng.random() < 0.3:
        bounds, inside = make_box(ctx, free, best, must_all=False)
        start.update(inside)
    feas = {p: best[p] + rng.uniform(-1.2, 1.2) for p in free}
    for p, (lo, hi) in bounds.items():
        l = lo if lo is not None else hi - 1
        h = hi if hi is not None else lo + 1
        feas[p] = l + (h - l) * rng.uniform(0.15, 0.85)
    if comp is not None and rng.random() < 0.8:
        pass
    rows = make_rows(ctx, free, fixed, start, feas, allow_eq='COBYLA' not in name)
    if comp is not None and rng.random() < 0.9:
        # make one row about the component
        s, (p, q), w = comp
        coef, rel, b = rows[0]
        coef = {k: v for k, v in coef.items() if k in fixed}
        k = rng.choice([1.0, -1.0, 2.0])
        coef.update({p: k, q: k * w})
        at = sum(v * feas.get(n, start[n]) for n, v in coef.items())
        slack = 0.0 if rel == '==' else rng.uniform(0.05, 1)
        rows = [(coef, rel, at - slack if rel == '>=' else at + slack)]
    ineq, eq = oracle_rows(rows, free, start)
    box = fits.Prob()
    box.spec, box.fixed, box.bounds = spec, fixed, bounds
    x = fits.qp(H, g0, ineq + fits.box_rows(box), eq)
    if x is None:
        raise Skip('no oracle')
    want = dict(zip(free, x))
    attrs = {p: {} for p in spec.params}
    for p in spec.params:
        if p in fixed:
            attrs[p]['fixed'] = True
        for k, v in zip(('min', 'max'), bounds.get(p, (None, None))):
            if v is not None:
                attrs[p][k] = v
    syms = spec.symbols(values=start, **attrs)
    log = []
    numeric_model = alg in ('auto', 'SLSQP') and rng.random() < 0.12 and comp is None and not direct
    obj_cls = Model
    if numeric_model:
        model = record.numerical(spec, syms, log)
    else:
        obj_cls = rng.choice([Model, Model, CallableModel, GradientModel]) if last in ('auto', 'SLSQP') else Model
        model = obj_cls(spec.model_dict(syms, gen.shuffled(rng, spec.comps)))
    extra = Extra(rng, spec.params + spec.indep + spec.names)
    cons, forms = [], []
    for row in rows:
        con, how = write(ctx, row, syms, model, extra, comp, data_ok=not direct, obj_cls=obj_cls)
        cons.append(con)
        forms.append(how)
    ctx.describe(minimizer=name, model=spec.text(), start=start, fixed=fixed, bounds=bounds, rows=rows, forms=forms, cons=[str(c) for c in cons],
                 want=want, extra=extra.data, numeric_model=numeric_model, cls=obj_cls.__name__)
    ctx.tag('minimizer:' + name, 'rows:%d' % len(rows), 'problem:' + ('minimise' if pr is None else 'least squares'))

    kw = {'objective': MinimizeModel} if len(spec.comps) > 1 and pr is None else {}

    def run():
        if direct:
            if pr is None:
                objective = model
            else:
                d = {syms[k] if k in syms else model.sigmas[syms[k[6:]]]: v for k, v in data.items()}
                for c in spec.dependent:
                    if 'sigma_' + c not in data:
                        v = data[c]
                        d[model.sigmas[syms[c]]] = None if v is None else np.ones_like(v)
                objective = LeastSquares(model, d)
            mini = NS[alg](objective, model.params, constraints=cons)
            opts = make(alg, rng)[1]
            res = mini.execute(**opts)
            return res
        mini, opts = make(alg, rng)
        return Fit(model, minimizer=mini, constraints=gen.shuffled(rng, cons) if rng.random() < .3 else cons,
                   **dict(data, **kw, **extra.data)).execute(**opts)

    res = run()
    found = {p: float(res.params[p]) for p in spec.params}
    if not res.minimizer_output.get('success', True):
        raise Inconclusive('minimizer reports failure: ' + str(res.status_message))
    out = res.minimizer_output
    if last in ('TrustConstr', 'COBYLA') and float(out.get('constr_violation', out.get('maxcv', 0)) or 0) > 1e-6:
        raise Inconclusive('stopped while infeasible')
    slack, tol = SLACK[last], TOL[last]
    for p in fixed:
        ctx.check('fixed-kept', found[p] == start[p], p=p, got=found[p], want=start[p])
    res_rows = residuals(rows, found)
    for row, how, v in zip(rows, forms, res_rows):
        ctx.check('constraint-holds', v <= slack * (1 + abs(row[2])), row=row, form=how, violation=v, found=found, minimizer=name)
    for p, (lo, hi) in bounds.items():
        ctx.check('bounds-hold', (lo is None or found[p] >= lo - slack) and (hi is None or found[p] <= hi + slack), p=p, got=found[p])
    fr = {p: found[p] for p in free}
    S, S0 = f(fr), f(want)
    scale = 1 + abs(S0)
    gn = float(np.linalg.norm(H @ x - g0))
    ctx.tag('active' if min([abs(a @ x - b) for a, b in ineq], default=1) < 1e-9 or eq else 'inactive')
    limit = S0 + tol * scale + 3 * gn * slack
    if S > limit:
        cons_s = [dict(type='ineq', fun=lambda z, a=a, b=b: a @ z - b, jac=lambda z, a=a: a) for a, b in ineq] + \
                 [dict(type='eq', fun=lambda z, a=a, b=b: a @ z - b, jac=lambda z, a=a: a) for a, b in eq]
        names = [dict(auto='SLSQP', BasinHopping='SLSQP').get(a, a) for a in alg.split('+')]
        if fits.scipy_struggles(names, lambda z: f(dict(zip(free, z))), lambda z: H @ z - g0, [[v[p] for p in free] for v in (start, found)],
                                [bounds.get(p, (None, None)) for p in free] if bounds else None, S0, tol, cons_s):
            raise Inconclusive('scipy does not solve it either')
        if fits.second_chance(rng, syms, free, bounds, start, found, run, lambda r: f({p: float(r.params[p]) for p in free}), limit):
            raise Inconclusive('missed by chance')
    ctx.check('constrained-optimum', S0 - tol * scale - 3 * gn * slack <= S <= limit, got=S, want=S0, found=found, best=want, minimizer=name, forms=forms)


def ball(ctx):
    """Distance constraints: nonlinear, convex, with the optimum known through its multiplier."""
    rng = ctx.rng
    name = rng.choice(['auto', 'auto', 'SLSQP', 'TrustConstr', 'COBYLA', 'SLSQP+TrustConstr', 'direct SLSQP', 'direct TrustConstr'])
    spec, free, fixed, start, f, H, g0, data, comp, best, main, pr = problem(ctx)
    alg = name.split()[-1]
    last = alg.split('+')[-1]
    n = len(free)
    c = np.array([round(best[p] + rng.uniform(-1.5, 1.5), 2) for p in free])
    r = round(rng.uniform(0.4, 2.5), 2)
    at = lambda lam: np.linalg.solve(H + 2 * lam * np.eye(n), g0 + 2 * lam * c)
    x = at(0.0)
    if np.linalg.norm(x - c) > r:
        lo, hi = 0.0, 1.0
        while np.linalg.norm(at(hi) - c) > r:
            hi *= 2
        for _ in range(200):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if np.linalg.norm(at(mid) - c) > r else (lo, mid)
        x = at(hi)
    active = abs(np.linalg.norm(x - c) - r) < 1e-9
    want = dict(zip(free, x))
    attrs = {p: {'fixed': True} if p in fixed else {} for p in spec.params}
    syms = spec.symbols(values=start, **attrs)
    model = Model(spec.model_dict(syms, gen.shuffled(rng, spec.comps)))
    extra = Extra(rng, spec.params + spec.indep + spec.names)
    D = sum((syms[p] - float(k)) ** 2 for p, k in zip(free, c))
    how = rng.choice(['le', 'ge', 'neg', 'data', 'split', 'eq' if active else 'le'])
    if how == 'eq' and 'COBYLA' in name:
        how = 'le'
    con = {'le': lambda: D <= r ** 2, 'ge': lambda: Ge(r ** 2, D), 'neg': lambda: Ge(-D, -r ** 2), 'eq': lambda: Eq(D, r ** 2),
           'data': lambda: Le(D, extra.new(r) ** 2) if not name.startswith('direct') else Le(D, r ** 2),
           'split': lambda: Le((syms[free[0]] - float(c[0])) ** 2, r ** 2 - sum((syms[p] - float(k)) ** 2 for p, k in list(zip(free, c))[1:]))}[how]()
    if how == 'eq' and np.linalg.norm([start[p] - k for p, k in zip(free, c)]) < 0.2:
        raise Skip('starts at the centre')
    ctx.describe(what='ball', minimizer=name, model=spec.text(), start=start, fixed=fixed, centre=c, radius=r, form=how, con=str(con), want=want)
    ctx.tag('minimizer:' + name, 'ball:' + how, 'active' if active else 'inactive')

    kw = {'objective': MinimizeModel} if len(spec.comps) > 1 and pr is None else {}

    def run():
        if name.startswith('direct') and pr is None:
            return NS[alg](model, model.params, constraints=[con]).execute()
        mini, opts = make(alg, rng)
        return Fit(model, minimizer=mini, constraints=[con], **dict(data, **kw, **extra.data)).execute(**opts)
    res = run()
    if not res.minimizer_output.get('success', True):
        raise Inconclusive('minimizer reports failure')
    out = res.minimizer_output
    if last in ('TrustConstr', 'COBYLA') and float(out.get('constr_violation', out.get('maxcv', 0)) or 0) > 1e-6:
        raise Inconclusive('stopped while infeasible')
    found = {p: float(res.params[p]) for p in free}
    dist = float(np.linalg.norm([found[p] - k for p, k in zip(free, c)]))
    slack, tol = SLACK[last], TOL[last]
    ctx.check('constraint-holds', dist <= r + slack if how != 'eq' else abs(dist - r) <= slack, distance=dist, radius=r, form=how, minimizer=name)
    S, S0 = f(found), f(want)
    limit = S0 + tol * (1 + abs(S0)) + 3 * slack * float(np.linalg.norm(H @ x - g0))
    if S > limit:
        if how == 'eq':
            raise Inconclusive('not convex')
        fun_c = lambda z: r ** 2 - np.sum((z - c) ** 2)
        con_s = [dict(type='ineq', fun=fun_c, jac=lambda z: -2 * (z - c))]
        if fits.scipy_struggles([a.replace('auto', 'SLSQP') for a in alg.split('+')], lambda z: f(dict(zip(free, z))), lambda z: H @ z - g0,
                                [[v[p] for p in free] for v in (start, found)], None, S0, tol, con_s):
            raise Inconclusive('scipy does not solve it either')
        if fits.second_chance(rng, syms, free, {}, start, found, run, lambda q: f({p: float(q.params[p]) for p in free}), limit):
            raise Inconclusive('missed by chance')
    ctx.check('constrained-optimum', 2 * S0 - limit <= S <= limit, got=S, want=S0, found=found, best=want, minimizer=name, form=how)


def functional(ctx):
    """Constraints computed from the whole data of a model: mean or weighted sum of a component over the points."""
    rng = ctx.rng
    pr = fits.ls_problem(ctx, kind='lin', n_comp=1, interdep=rng.random() < 0.3, noise=rng.choice([0.05, 0.3]), none_ok=False, fixed_p=0.1)
    best, _, _, _ = pr.solve()
    H, g0, const = fits.quadratic_form(pr)
    free = pr.free
    y, x = pr.spec.dependent[0], pr.spec.indep[0]
    jets = pr.jets(pr.full({p: 0.0 for p in free}), free)
    wts = np.round(ctx.np.uniform(0.2, 1, pr.indep[x].shape), 3)
    how = rng.choice(['mean', 'weighted', 'integral'])
    if how == 'mean':
        w = np.full(pr.indep[x].shape, 1.0 / len(pr.indep[x]))
    elif how == 'weighted':
        w = wts
    else:
        xs = pr.indep[x]
        d = np.diff(xs)
        w = np.zeros(xs.shape)
        w[:-1] += d / 2
        w[1:] += d / 2
    j = jets[y].broadcast(pr.indep[x].shape)
    a = j.grad(len(free)).reshape(len(free), -1) @ w
    off = float(np.sum(j.v * w))
    if np.linalg.norm(a) < 0.05:
        raise Skip('insensitive')
    bv = np.array([best[p] for p in free])
    target = round(float(a @ bv) + off + rng.uniform(-1, 1) * float(np.linalg.norm(a)), 3)
    rel = rng.choice(['==', '>=', '<='])
    row = (a, target - off)
    ineq, eq = ([], [row]) if rel == '==' else ([row], []) if rel == '>=' else ([(-a, -(target - off))], [])
    sol = fits.qp(H, g0, ineq, eq)
    want = dict(zip(free, sol))
    syms = pr.symbols()
    model = Model(pr.spec.model_dict(syms, gen.shuffled(rng, pr.spec.comps)))
    extra = Extra(rng, pr.spec.params + pr.spec.indep + pr.spec.names)
    Y = Variable(extra.name())
    deps = {syms[x], syms[y]}
    xn, yn = x, y
    if how == 'weighted':
        W = extra.new(wts)
        deps.add(W)
        func = lambda **kw: np.sum(kw[W.name] * kw[yn]) - target
    elif how == 'mean':
        deps = {syms[y]} if rng.random() < 0.5 else deps
        func = lambda **kw: np.mean(kw[yn]) - target
    else:
        func = lambda **kw: np.trapz(kw[yn], kw[xn]) - target
    name = rng.choice(['auto', 'SLSQP', 'TrustConstr', 'SLSQP+TrustConstr'])
    ctx.describe(what='functional', how=how, relation=rel, target=target, minimizer=name, want=want, **pr.text())
    ctx.tag('functional:' + how, 'minimizer:' + name, 'relation:' + rel)
    con = CallableNumericalModel.as_constraint({Y: func}, model, connectivity_mapping={Y: deps}, constraint_type=CLS[rel])

    def run():
        mini, opts = make(name, rng)
        return Fit(model, minimizer=mini, constraints=[con], **dict(pr.data(), **extra.data)).execute(**opts)
    res = run()
    if not res.minimizer_output.get('success', True):
        raise Inconclusive('minimizer reports failure')
    last = name.split('+')[-1]
    if last == 'TrustConstr' and float(res.minimizer_output.get('constr_violation', 0)) > 1e-6:
        raise Inconclusive('stopped while infeasible')
    slack, tol = SLACK[last] * 3, TOL[last]
    found = {p: float(res.params[p]) for p in free}
    v = float(a @ [found[p] for p in free]) + off - target
    v = abs(v) if rel == '==' else max(0, -v) if rel == '>=' else max(0, v)
    ctx.check('constraint-holds', v / np.linalg.norm(a) <= slack * (1 + abs(target)), violation=v, relation=rel, how=how, minimizer=name)
    S, S0 = pr.S(found), pr.S(want)
    limit = S0 + tol * (1 + abs(S0)) + 3 * slack * float(np.linalg.norm(H @ sol - g0)) * (1 + abs(target))
    if S > limit and fits.second_chance(rng, syms, free, {}, pr.start, found, run, lambda q: pr.S({p: float(q.params[p]) for p in free}), limit):
        raise Inconclusive('missed by chance')
    ctx.check('constrained-optimum', 2 * S0 - limit <= S <= limit, got=S, want=S0, found=found, best=want, minimizer=name, how=how)


def ode(ctx):
    """Differential equations fitted subject to relations between their parameters."""
    rng = ctx.rng
    kind = rng.choice(['driven', 'driven', 'decay', 'power'])
    pr = odes.ode_problem(ctx, kind=kind, param_initial=rng.random() < 0.7 if kind == 'driven' else False)
    free = list(pr.params)
    n = rng.randint(6, 12)
    tt = pr.t0 + np.round(np.sort(ctx.np.uniform(0.05, 2.0, n)), 4)
    noise = rng.choice([0.02, 0.1])
    c = pr.deps[0]
    y = np.round(np.real(pr.solution(tt, pr.values)[c]) + ctx.np.normal(0, noise, n), 5)
    sig = np.round(ctx.np.uniform(0.3, 1.2, n), 3) if rng.random() < 0.5 else None
    w = 1 / (sig if sig is not None else np.ones(n))
    f = lambda v: 0.5 * float(np.sum(((np.real(pr.solution(tt, v)[c]) - y) * w) ** 2))
    start = {p: round(v + rng.uniform(-.2, .2), 3) for p, v in pr.values.items()}
    syms = {p.name: p for e in list(pr.model_dict.values()) + list(pr.initial.values()) for p in getattr(e, 'free_symbols', ())
            if isinstance(p, Parameter)}
    for p in free:
        syms[p].value = start[p]
    model = ODEModel(pr.model_dict, initial=pr.initial)
    extra = Extra(rng, pr.params + pr.deps + [pr.tname])
    name = rng.choice(['auto', 'auto', 'SLSQP', 'TrustConstr', 'SLSQP+SLSQP'])
    if kind == 'driven':
        zero = {p: 0.0 for p in free}
        J = pr.jacobian(tt, zero)[c] * w
        r0 = (np.broadcast_to(np.real(pr.solution(tt, zero)[c]), tt.shape) - y) * w
        H, g0 = J @ J.T, -J @ r0
        if np.linalg.cond(H) > 1e4:
            raise Skip('ill-conditioned')
        best = dict(zip(free, np.linalg.solve(H, g0)))
        feas = {p: best[p] + rng.uniform(-1.2, 1.2) for p in free}
        rows = make_rows(ctx, free, [], start, feas, allow_eq=True)
        ineq, eq = oracle_rows(rows, free, start)
        x = fits.qp(H, g0, ineq, eq)
        if x is None:
            raise Skip('no oracle')
        want = dict(zip(free, x))
        gn = float(np.linalg.norm(H @ x - g0))
    else:
        # one parameter: the misfit has one minimum between the limits looked at
        p = free[0]
        grid = np.linspace(-0.5, 2.5, 3001)
        vals = np.array([f({p: g}) for g in grid])
        i = int(np.argmin(vals))
        if np.any(np.diff(vals[:i + 1]) > 0) or np.any(np.diff(vals[i:]) < 0) or not 100 < i < 2900:
            raise Skip('several minima')
        top = grid[i]
        side = rng.choice([1, -1])
        lim = round(top + side * rng.choice([0.3, 0.15, -0.3, 0.5]), 3)
        rows = [({p: 1.0}, '>=' if side > 0 else '<=', lim)]
        at = max(lim, top) if side > 0 else min(lim, top)
        want = {p: at}
        gn = abs(f({p: at + 1e-5}) - f({p: at - 1e-5})) / 2e-5
        start[p] = syms[p].value = round(min(max(start[p], 0.1), 1.6), 3)
        if max(f(start), f(want)) > 1e3 or f(want) * 1e4 < f(start):
            raise Skip('too steep')
    cons, forms = [], []
    for row in rows:
        con, how = write(ctx, row, syms, model, extra, data_ok=True, obj_cls=Model)
        cons.append(con)
        forms.append(how)
    ctx.describe(what='ode', kind=kind, minimizer=name, model=str(pr.model_dict), initial=str(pr.initial), start=start, rows=rows, forms=forms,
                 cons=[str(k) for k in cons], want=want, t=tt, y=y, sigma=sig)
    ctx.tag('ode:' + kind, 'minimizer:' + name)
    data = {pr.tname: tt, c: y}
    if sig is not None:
        data['sigma_' + c] = sig

    def run():
        mini, opts = make(name, rng)
        if name == 'TrustConstr':
            # the derivatives of an ODE model cannot be continued to complex numbers; users then choose the Hessian's method
            opts = dict(opts, hessian=scipy.optimize.BFGS())
        try:
            return Fit(model, minimizer=mini, constraints=cons, **dict(data, **extra.data)).execute(**opts)
        except ODEError:
            raise Inconclusive('the integrator gave up during the search')
    res = run()
    if not res.minimizer_output.get('success', True):
        raise Inconclusive('minimizer reports failure')
    last = name.split('+')[-1]
    if last == 'TrustConstr' and float(res.minimizer_output.get('constr_violation', 0)) > 1e-6:
        raise Inconclusive('stopped while infeasible')
    found = {p: float(res.params[p]) for p in free}
    slack, tol = SLACK[last], 10 * TOL[last]
    for row, how, v in zip(rows, forms, residuals(rows, found)):
        ctx.check('constraint-holds', v <= slack * (1 + abs(row[2])), row=row, form=how, violation=v, found=found, minimizer=name)
    S, S0 = f(found), f(want)
    limit = S0 + tol * (1 + abs(S0)) + 3 * slack * gn
    if S > limit and fits.second_chance(rng, syms, free, {}, start, found, run, lambda q: f({p: float(q.params[p]) for p in free}), limit):
        raise Inconclusive('missed by chance')
    ctx.check('constrained-optimum', 2 * S0 - limit <= S <= limit, got=S, want=S0, found=found, best=want, minimizer=name, forms=forms)


def refusals(ctx):
    rng = ctx.rng
    spec, free, fixed, start, f, H, g0, data, comp, best, main, pr = problem(ctx)
    syms = spec.symbols(values=start)
    cls = rng.choice([Model, CallableModel, GradientModel])
    model = cls(spec.model_dict(syms))
    p = rng.choice(spec.params)
    L = linear_expr({p: 1.5, rng.choice(spec.params): 2.0}, syms, rng)
    b = round(rng.uniform(-1, 1), 2)
    good = [rng.choice([Ge(L, b), Eq(L, b), Le(L, b)])] if rng.random() < 0.5 else []
    new = Parameter(next(n for n in gen.shuffled(rng, gen.PARAM_NAMES) if n not in spec.params + spec.indep + spec.names))
    Y, Z = [Variable(n) for n in [k for k in gen.COMP_NAMES if k not in spec.params + spec.indep + spec.names][:2]]
    bad = {'Gt': lambda: Gt(L, b), 'Lt': lambda: L < b, 'Ne': lambda: Ne(L, b), 'Gt flipped': lambda: Gt(b, L),
           'unknown parameter': lambda: rng.choice([Ge, Le, Eq])(L + new, b), 'only unknown': lambda: Eq(new, 1),
           'plain model': lambda: Model({Y: L - b}), 'plain callable model': lambda: CallableModel({Y: L - b})}
    kind = rng.choice(sorted(bad) + ['vector', 'vector dict', 'type', 'no type'])
    ctx.describe(what='refusal', kind=kind, model=spec.text(), L=str(L))
    ctx.tag('refusal:' + kind)
    if kind in bad:
        cons = good + [bad[kind]()]
        rng.shuffle(cons)
        mini = rng.choice([None, SLSQP, TrustConstr])
        ctx.raises('refused:' + kind, ModelError, lambda: Fit(model, minimizer=mini, constraints=cons, **data))
        if not kind.startswith('plain'):
            ctx.raises('as-constraint-refuses:' + kind, ModelError, lambda: cls.as_constraint(bad[kind](), model))
    elif kind == 'vector':
        ctx.raises('refused:vector', ModelError, lambda: cls.as_constraint([L - b, syms[p] - 1], model, constraint_type=rng.choice([Eq, Ge, Le])))
    elif kind == 'vector dict':
        ctx.raises('refused:vector', ModelError, lambda: cls.as_constraint({Y: L - b, Z: syms[p] - 1}, model, constraint_type=rng.choice([Eq, Ge, Le])))
    elif kind == 'type':
        t = rng.choice([Gt, Lt, Ne])
        ctx.raises('refused:type', ModelError, lambda: cls.as_constraint(L - b, model, constraint_type=t))
    else:
        ctx.raises('refused:no type', ModelError, lambda: cls.as_constraint(L - b, model))


def case(ctx):
    r = ctx.rng.random()
    if r < 0.5:
        linear(ctx)
    elif r < 0.6:
        ode(ctx)
    elif r < 0.75:
        ball(ctx)
    elif r < 0.87:
        functional(ctx)
    else:
        refusals(ctx)
