"""C20: the optimiser is handed one consistent problem."""
import numpy as np
import sympy
from scipy.optimize import Bounds, LinearConstraint, NonlinearConstraint
from symfit import (Fit, Model, CallableModel, GradientModel, CallableNumericalModel, ODEModel, Parameter, Variable, Eq, Ge, Le)
from symfit.core.minimizers import (BFGS, LBFGSB, SLSQP, NelderMead, Powell, COBYLA, TrustConstr, DifferentialEvolution, BasinHopping, MINPACK)
from symfit.core.objectives import LeastSquares, VectorLeastSquares, LogLikelihood, MinimizeModel

from .. import gen, fits, expr as E, record, odes
from ..core import Skip, Inconclusive
from ..gen import Spec
from ..jet import Jet, Track
from ..fits import add, mul, fun, s_, c_
from ..handed import Handed, scripted_result

CLS = {'>=': Ge, '<=': Le, '==': Eq}
FLIP = {'>=': '<=', '<=': '>=', '==': '=='}
BOUNDED = (LBFGSB, SLSQP, TrustConstr, DifferentialEvolution, MINPACK)
CONSTRAINED = (SLSQP, COBYLA, TrustConstr)


class Handled(object):
    """A problem and its oracle in the free parameters (alphabetical)."""
    tol = 0.0            # error of the gradient, relative to its scale
    hess_tol = 0.0
    vector = False


def scale_starts(ctx, start, free):
    """Starting values that tell the parameters apart."""
    seen = set()
    for p in free:
        while round(start[p], 9) in seen:
            start[p] = round(start[p] + ctx.rng.uniform(0.01, 0.05), 4)
        seen.add(round(start[p], 9))


def ls(ctx, force_vector=False):
    rng = ctx.rng
    pr = fits.ls_problem(ctx, fixed_p=rng.choice([0, 0.2, 0.4]))
    scale_starts(ctx, pr.start, pr.free)
    h = Handled()
    h.spec, h.free, h.fixed, h.start = pr.spec, pr.free, pr.fixed, pr.start
    h.bounds = pr.bounds
    h.value = pr.S
    h.expand = lambda v: pr.expand(v)
    h.data = pr.data()
    h.pr = pr
    kind = rng.choice(['symbolic'] * 4 + ['gradient', 'callable', 'numerical'])
    h.kind = 'ls ' + kind

    def build(syms):
        if kind == 'numerical':
            return record.numerical(h.spec, syms, [], mixed=[c for c in h.spec.comps if rng.random() < 0.2][:len(h.spec.comps) - 1])
        cls = dict(symbolic=Model, gradient=GradientModel, callable=CallableModel)[kind]
        return cls(h.spec.model_dict(syms, gen.shuffled(rng, h.spec.comps)))
    h.build = build
    if kind == 'gradient':
        h.tol = 2e-4
    h.kw = {}
    h.spread = 0.3
    # only components which exist for every data shape can be combined
    h.vector_ok = len({pr.y[c].shape for c in pr.alive}) == 1 and len(pr.alive) == len(pr.spec.dependent)
    return h


def likelihood(ctx):
    rng = ctx.rng
    pr = fits.like_problem(ctx, fixed_p=0.3)
    scale_starts(ctx, pr.start, pr.free)
    h = Handled()
    h.spec, h.free, h.fixed, h.start, h.bounds = pr.spec, pr.free, pr.fixed, pr.start, {}
    h.value = lambda v: -pr.logL(v)
    h.expand = lambda v: like_expand(pr, v)
    h.data = pr.data()
    h.kw = dict(objective=LogLikelihood)
    kind = rng.choice(['symbolic', 'symbolic', 'gradient', 'callable'])
    h.kind = 'likelihood ' + kind
    h.build = lambda syms: dict(symbolic=Model, gradient=GradientModel, callable=CallableModel)[kind](pr.spec.model_dict(syms, gen.shuffled(rng, pr.spec.comps)))
    if kind == 'gradient':
        h.tol = 2e-4
    h.spread = 0.04
    return h


def like_expand(pr, values):
    jets = pr.spec.jets(dict(pr.indep, **pr.full(values)), pr.free)
    n = len(pr.free)
    v, g, H = 0.0, np.zeros(n), np.zeros((n, n))
    for c in pr.spec.dependent:
        j = jets[c]
        j = j.broadcast(np.broadcast(j.v, np.zeros(1)).shape) if np.ndim(j.v) == 0 else j
        f = j.v.ravel()
        J = j.grad(n).reshape(n, -1)
        h = j.hess(n).reshape(n, n, -1)
        v -= np.sum(np.log(f))
        g -= J @ (1 / f)
        H -= h @ (1 / f) - (J / f) @ (J / f).T
    return v, g, H, None


def minimise(ctx):
    rng = ctx.rng
    h = Handled()
    if rng.random() < 0.5:
        spec, H, cen, off, quart = fits.convex_problem(ctx, n=rng.choice([1, 2, 3, 4]))
    else:
        n = rng.choice([1, 2, 3, 4])
        spec = gen.rand_spec(rng, n_comp=rng.choice([1, 1, 2, 3]), n_indep=0, n_param=n, depth=2, dep_prob=1.0)
        if len(spec.dependent) != 1 or not spec.params:
            raise Skip('no single value')
    h.fixed = [p for p in spec.params if rng.random() < 0.25]
    h.free = [p for p in spec.params if p not in h.fixed]
    if not h.free:
        raise Skip('nothing free')
    h.spec, h.bounds = spec, {}
    h.start = {p: round(rng.uniform(-1.5, 1.5), 3) for p in spec.params}
    scale_starts(ctx, h.start, h.free)
    main = spec.dependent[0]
    full = lambda v: dict({p: h.start[p] for p in h.fixed}, **v)
    h.value = lambda v: float(spec.values(full(v))[main])

    def expand(v):
        j = spec.jets(full(v), h.free)[main]
        n = len(h.free)
        return float(np.ravel(j.v)[0]), j.grad(n).reshape(n), j.hess(n).reshape(n, n), None
    h.expand = expand
    h.data = {}
    kind = rng.choice(['symbolic', 'symbolic', 'symbolic', 'gradient', 'callable', 'numerical'])
    h.kind = 'minimise ' + kind
    h.kw = dict(objective=MinimizeModel) if len(spec.comps) > 1 or rng.random() < 0.3 else {}
    h.build = lambda syms: record.numerical(spec, syms, []) if kind == 'numerical' else \
        dict(symbolic=Model, gradient=GradientModel, callable=CallableModel)[kind](spec.model_dict(syms, gen.shuffled(rng, spec.comps)))
    if kind == 'gradient':
        h.tol = 2e-4
    h.spread = 0.5
    return h


def ode(ctx):
    rng = ctx.rng
    pr = odes.ode_problem(ctx)
    h = Handled()
    t = np.sort(pr.times(ctx, 5))
    truth = dict(pr.values)
    h.fixed = [p for p in pr.params if rng.random() < 0.2]
    h.free = [p for p in pr.params if p not in h.fixed]
    if not h.free:
        raise Skip('nothing free')
    h.start = {p: truth[p] * (1 if p in h.fixed else rng.choice([0.9, 0.95, 1.05])) for p in pr.params}
    scale_starts(ctx, h.start, h.free)
    sol = pr.solution(t, truth)
    used = [c for c in pr.deps if rng.random() < 0.8] or pr.deps[:1]
    y = {c: np.broadcast_to(sol[c], t.shape) + ctx.np.normal(0, 0.1, t.shape) for c in pr.deps}
    h.bounds = {}
    full = lambda v: dict({p: h.start[p] for p in h.fixed}, **v)

    def expand(v):
        env = full(v)
        s = pr.solution(t, env)
        J = pr.jacobian(t, env)
        r = {c: np.broadcast_to(s[c], t.shape) - y[c] for c in used}
        idx = [pr.params.index(p) for p in h.free]
        return 0.5 * sum(np.sum(r[c] ** 2) for c in used), sum(J[c][idx] @ r[c] for c in used), None, None
    h.expand = expand
    h.value = lambda v: expand(v)[0]
    h.data = {pr.tname: t}
    h.data.update({c: (y[c] if c in used else None) for c in pr.deps})
    h.kind = 'ode'
    h.ode = pr
    h.tol = 2e-2
    h.value_tol = 1e-4
    h.kw = {}
    h.spread = 0.03
    h.spec = None
    return h


# -- constraints ----------------------------------------------------------------------

class Con(object):
    """lhs rel rhs with trees over the parameters, a scalar component and extra data."""

    def g(self, env):
        """>= 0 (== 0) when it holds."""
        d = E.ev(self.lhs, env) - E.ev(self.rhs, env)
        return -d if self.rel == '<=' else d


def make_constraints(ctx, h, syms, model, n):
    """[(what the user hands over, Con)], extra data."""
    rng = ctx.rng
    taken = set(syms)
    spare = gen.shuffled(rng, [m for m in gen.VAR_NAMES + gen.COMP_NAMES if m not in taken])
    out, data = [], {}
    P = list(h.start)
    scalars = [c for c in (h.spec.comps if h.spec else ()) if not (h.data or c in h.spec.dependent)]
    for _ in range(n):
        c = Con()
        leaves = rng.sample(P, rng.randint(1, min(len(P), 3)))
        if not set(leaves) & set(h.free):
            leaves.append(rng.choice(h.free))
        kind = rng.choice(['symbolic', 'symbolic', 'symbolic', 'data', 'component', 'model', 'model expr', 'numerical'])
        if kind == 'component' and (not scalars or 'numerical' in h.kind):
            kind = 'symbolic'
        if kind == 'data':
            X = spare.pop()
            data[X] = round(rng.uniform(0.3, 1.5), 3)
            leaves.append(X)
        if kind == 'component':
            leaves.append(rng.choice(scalars))
        c.lhs = E.cover(rng, E.rand_expr(rng, leaves, rng.choice([1, 2]), E.SMOOTH, False), leaves)
        c.rel = rng.choice(['>=', '<=', '=='])
        if rng.random() < 0.3 and kind in ('symbolic', 'data'):
            more = rng.sample(P, 1)
            c.rhs = E.cover(rng, E.rand_expr(rng, more, 1, E.SMOOTH, False), more)
        else:
            c.rhs = c_(rng.choice([0.0, 1.0, round(rng.uniform(-1.5, 1.5), 2)]))
        c.kind = kind
        names = dict(syms)
        names.update({X: Variable(X) for X in data})
        if kind == 'numerical':
            node = add(c.lhs, ('-', c.rhs))
            used = E.symbols_of(node)
            Y = Variable(spare.pop())
            con = CallableNumericalModel.as_constraint({Y: record.Callable(node, [], 'con')}, model, connectivity_mapping={Y: {names[s] for s in used}},
                                                       constraint_type=CLS[c.rel])
        else:
            lhs, rhs = E.to_sympy(c.lhs, names), E.to_sympy(c.rhs, names)
            want = E.symbols_of(c.lhs) | E.symbols_of(c.rhs)
            have = {s.name for s in (sympy.sympify(lhs - rhs)).free_symbols}
            if have != want:
                raise Skip('expression lost symbols')
            if rng.random() < 0.3:
                rel = CLS[FLIP[c.rel]](rhs, lhs)
            else:
                rel = CLS[c.rel](lhs, rhs)
            if not isinstance(rel, sympy.core.relational.Relational):
                raise Skip('relation decided')
            con = rel
            if kind.startswith('model'):
                kcls = rng.choice([CallableModel, GradientModel, Model])
                if kind == 'model':
                    con = kcls.as_constraint(rel, model)
                else:
                    con = kcls.as_constraint(rng.choice([lhs - rhs, {Variable(spare.pop()): lhs - rhs}]), model, constraint_type=CLS[c.rel])
                c.fd = kcls is GradientModel
        out.append((con, c))
    return out, data


def oriented(raw):
    """Handed constraint as (kind, fun giving >=0 / ==0, jac or None, hess or None)."""
    if isinstance(raw, dict):
        jac = raw.get('jac')
        args = raw.get('args', ())
        return [('eq' if raw['type'] == 'eq' else 'ineq', lambda x: raw['fun'](x, *args), (lambda x: jac(x, *args)) if callable(jac) else None, None, 1.0)]
    if isinstance(raw, LinearConstraint):
        A = np.atleast_2d(raw.A)
        raw = NonlinearConstraint(lambda x: A @ x, raw.lb, raw.ub, jac=lambda x: A)
    if isinstance(raw, NonlinearConstraint):
        lb, ub = np.ravel(raw.lb), np.ravel(raw.ub)
        assert lb.size == 1 and ub.size == 1
        lb, ub = float(lb[0]), float(ub[0])
        jac = raw.jac if callable(raw.jac) else None
        hess = raw.hess if callable(raw.hess) else None
        if lb == ub:
            return [('eq', lambda x: np.ravel(raw.fun(x)) - lb, jac, hess, 1.0)]
        out = []
        if np.isfinite(lb):
            out.append(('ineq', lambda x: np.ravel(raw.fun(x)) - lb, jac, hess, 1.0))
        if np.isfinite(ub):
            out.append(('ineq', lambda x: ub - np.ravel(raw.fun(x)), jac, hess, -1.0))
        return out
    raise Inconclusive('unknown form of constraint')


def listed(raw):
    if raw is None:
        return []
    if isinstance(raw, (dict, LinearConstraint, NonlinearConstraint)):
        return [raw]
    return list(raw)


def bound_pairs(raw, n):
    if raw is None:
        return [(None, None)] * n
    if isinstance(raw, Bounds):
        lo, hi = np.broadcast_to(raw.lb, n), np.broadcast_to(raw.ub, n)
        pairs = list(zip(lo, hi))
    elif len(raw) == 2 and n != 2 or len(raw) == 2 and np.ndim(raw[0]) == 1 and len(raw[0]) == n and not isinstance(raw[0], tuple):
        pairs = [(a, b) for a, b in zip(*raw)]
    else:
        pairs = list(raw)
    clean = lambda v: None if v is None or not np.isfinite(v) else float(v)
    return [(clean(a), clean(b)) for a, b in pairs]


def judge_problem(ctx, h, call, cls, cons, want_bounds, label):
    rng = ctx.rng
    n = len(h.free)
    x0 = call['x0']
    if x0 is None and cls is not DifferentialEvolution:
        ctx.check('start', False, why='none', minimizer=label)
        return
    if x0 is not None:
        x0 = np.ravel(np.asarray(x0, dtype=float))
        if not ctx.check('free-parameters-only', x0.size == n, got=x0.size, want=n, minimizer=label):
            return
        # one common order, whichever it is
        order = []
        for v in x0:
            hit = [p for p in h.free if h.start[p] == v and p not in order]
            order.append(hit[0] if hit else None)
        if not ctx.check('start-equals-the-parameters-values', None not in order, got=x0, want={p: h.start[p] for p in h.free}, minimizer=label):
            return
    else:
        order = list(h.free)
    back = [order.index(p) for p in h.free]        # handed position of each free parameter
    x0 = np.array([h.start[p] for p in order])
    named = lambda x: dict(zip(order, np.asarray(x, dtype=float).tolist()))

    raw_bounds = call['bounds']
    mk = call['minimizer_kwargs'] or {}
    if call.entry == 'basinhopping':
        raw_bounds = mk.get('bounds')
    pairs = bound_pairs(raw_bounds, n)
    if call.entry == 'least_squares' and raw_bounds is not None:
        lo, hi = (np.broadcast_to(np.asarray(b, dtype=float), n) for b in (raw_bounds.lb, raw_bounds.ub)) if isinstance(raw_bounds, Bounds) else \
            (np.broadcast_to(np.asarray(b, dtype=float), n) for b in raw_bounds)
        pairs = bound_pairs(list(zip(lo, hi)), n) if n != 2 else [tuple(None if not np.isfinite(v) else float(v) for v in q) for q in zip(lo, hi)]
    if want_bounds is not None:
        want = [tuple(None if v is None else float(v) for v in want_bounds.get(p, (None, None))) for p in order]
        ctx.check('bounds-equal-the-parameters', pairs == want, got=pairs, want=want, minimizer=label)

    # points to look at, inside the bounds
    points = [x0]
    for _ in range(2):
        x = x0 + ctx.np.uniform(-1, 1, n) * h.spread
        for i, p in enumerate(order):
            lo, hi = h.bounds.get(p, (None, None))
            x[i] = min(max(x[i], lo if lo is not None else -np.inf), hi if hi is not None else np.inf)
        points.append(x)
    Track.reset()
    truth = []
    for x in points:
        v = h.expand(named(x))
        g = None if v[1] is None else np.asarray(v[1])[[h.free.index(p) for p in order]]
        idx = [h.free.index(p) for p in order]
        H = None if v[2] is None else np.asarray(v[2])[np.ix_(idx, idx)]
        G = None if v[3] is None else np.asarray(v[3])[np.ix_(idx, idx)]
        truth.append((v[0], g, H, G))
    if not np.isfinite(Track.m) or Track.m > 1e6:
        raise Skip('ill-conditioned')
    noise = 1e-12 * Track.m ** 2
    vt = getattr(h, 'value_tol', 0)

    f = call.fun
    args = call['args'] or ()
    visits = [(i, w) for i in range(len(points)) for w in ('fun', 'jac', 'hess', 'con')]
    visits += rng.sample(visits, min(len(visits), 4))       # in any order, repeatedly
    rng.shuffle(visits)
    jac = mk.get('jac') if call.entry == 'basinhopping' else call['jac']
    hess = mk.get('hess') if call.entry == 'basinhopping' else call['hess']
    handed_cons = [] if call.entry != 'minimize' and call.entry != 'basinhopping' else listed(mk.get('constraints') if call.entry == 'basinhopping' else call['constraints'])
    flat = [o for raw in handed_cons for o in oriented(raw)]
    ctx.check('as-many-constraints-as-given', len(flat) == len(cons), got=len(flat), want=len(cons), minimizer=label)
    values = {}

    def envs(x, wrt=None):
        base = dict({p: h.start[p] for p in h.fixed}, **named(x))
        if wrt:
            base.update({p: Jet.seed(base[p], i) for i, p in enumerate(wrt)})
        base.update(h.extra)
        return base

    def comps(env):
        """Values of the scalar components the constraints may use."""
        if h.spec is None or h.data:
            return env
        todo = dict(h.spec.comps)
        while todo:
            for k in list(todo):
                if not E.symbols_of(todo[k]) & set(todo):
                    env[k] = E.ev(todo.pop(k), env)
        return env

    for i, what in visits:
        x, (v, g, H, G) = points[i], truth[i]
        arg = np.array(x)
        if what == 'fun':
            got = f(arg, *args)
            if cls is MINPACK:
                r = np.ravel(got)
                ctx.close('objective', 0.5 * np.sum(r ** 2), v, rtol=1e-9, atol=1e-9 + noise, minimizer=label, at=x)
            else:
                ctx.close('objective', float(np.ravel(got)[0]), v, rtol=max(1e-9, vt), atol=max(1e-9 + noise, vt), minimizer=label, at=x)
                ctx.check('objective-is-a-number', np.size(got) == 1, got=got, minimizer=label)
        elif what == 'jac' and callable(jac):
            got = np.asarray(jac(arg, *args), dtype=float)
            size = 1 + float(np.max(np.abs(g)))
            tol = h.tol * size + 1e-8 * size + 10 * noise
            if cls is MINPACK:
                r = np.ravel(f(np.array(x), *args))
                if not ctx.check('gradient-shape', got.shape == (r.size, n), got=got.shape, want=(r.size, n), minimizer=label):
                    continue
                scale = np.sum(np.abs(got) * np.abs(r)[:, None], axis=0)
                ctx.close('gradient', got.T @ r, g, rtol=0, atol=tol + 1e-9 * np.max(scale, initial=0) + h.tol * np.max(scale, initial=0), minimizer=label, at=x, order=order)
                if G is not None and len(h.pr.alive) == 1:
                    # (several components share one root per point)
                    mag = 1 + np.max(np.abs(G))
                    ctx.close('residual-derivatives', got.T @ got, G, rtol=0, atol=(1e-8 + 3 * h.tol) * mag + 10 * noise, minimizer=label, at=x)
            else:
                if ctx.check('gradient-shape', got.shape == (n,), got=got.shape, want=(n,), minimizer=label):
                    if h.kind.startswith('ls') and h.tol:
                        tol += h.tol * abs(v)
                    ctx.close('gradient', got, g, rtol=0, atol=tol, minimizer=label, at=x, order=order, kind=h.kind)
        elif what == 'hess' and callable(hess) and H is not None:
            got = np.asarray(hess(arg, *args), dtype=float)
            size = 1 + float(np.max(np.abs(H)))
            if ctx.check('hessian-shape', got.shape == (n, n), got=got.shape, minimizer=label):
                ctx.close('hessian', got, H, rtol=0, atol=1e-8 * size + 100 * noise, minimizer=label, at=x, order=order)
        elif what == 'con':
            for k in gen.shuffled(rng, list(range(len(flat)))):
                kind, gf, gj, gh, sign = flat[k]
                got = np.ravel(gf(np.array(x)))
                if not ctx.check('constraint-is-a-number', got.size == 1, got=got, minimizer=label):
                    return
                if (k, i) in values:
                    ctx.check('constraint-has-no-memory', values[k, i] == float(got[0]), minimizer=label)
                values[k, i] = float(got[0])
        ctx.check('arguments-not-altered', np.array_equal(arg, x), what=what, minimizer=label)

    # every constraint given matches exactly one handed over: same kind, sign, zeros and derivatives
    left = list(range(len(flat)))
    for con, c in cons:
        Track.reset()
        u, grads, hesses = [], [], []
        for x in points:
            j = c.g(comps(envs(x, order)))
            if not isinstance(j, Jet):
                raise Skip('constraint is constant')
            u.append(float(np.ravel(j.v)[0]))
            grads.append(j.grad(n).reshape(n))
            hesses.append(j.hess(n).reshape(n, n))
        if not np.isfinite(Track.m) or Track.m > 1e4:
            raise Skip('ill-conditioned')
        u = np.array(u)
        size = np.max(np.abs(u))
        if size < 1e-3 or np.ptp(u) < 1e-6:
            raise Skip('constraint vanishes')
        hits = []
        for k in left:
            kind = flat[k][0]
            hv = np.array([values[k, i] for i in range(len(points))])
            f_ = float(hv @ u / (u @ u))
            same = np.max(np.abs(hv - f_ * u)) <= 1e-8 * (abs(f_) * size + 1) + 1e-10 * Track.m
            if same and (kind == 'eq') == (c.rel == '==') and (f_ > 1e-6 or (kind == 'eq' and abs(f_) > 1e-6)):
                hits.append((k, f_))
        text = dict(relation=c.rel, form=c.kind, lhs=E.to_text(c.lhs), rhs=E.to_text(c.rhs), minimizer=label, user=u,
                    handed={k: [flat[k][0]] + [values[k, i] for i in range(len(points))] for k in left})
        if not ctx.check('constraint-handed-over', bool(hits), **text):
            continue
        k, f_ = hits[0]
        left.remove(k)
        kind, gf, gj, gh, sign = flat[k]
        for i in gen.shuffled(rng, list(range(len(points)))):
            if gj is not None:
                got = np.asarray(gj(np.array(points[i])), dtype=float)
                want = f_ * sign * grads[i]
                if ctx.check('constraint-gradient-shape', got.size == n, got=got.shape, want=n, minimizer=label):
                    tol = (2e-4 if getattr(c, 'fd', False) or 'gradient' in h.kind else 1e-8) * (1 + np.max(np.abs(want))) + 1e-9 * Track.m
                    ctx.close('constraint-gradient', got.reshape(n), want, rtol=0, atol=tol, at=points[i], order=order, **text)
            if gh is not None:
                got = np.asarray(gh(np.array(points[i]), np.array([1.7])), dtype=float)
                want = 1.7 * f_ * sign * hesses[i]
                if ctx.check('constraint-hessian-shape', got.shape == (n, n), got=got.shape, minimizer=label):
                    ctx.close('constraint-hessian', got, want, rtol=0, atol=1e-7 * (1 + np.max(np.abs(want))) + 1e-8 * Track.m, at=points[i], order=order, **text)
    ctx.tag('judged gradient' if callable(jac) else 'no gradient', 'judged hessian' if callable(hess) else 'no hessian')
    for kind, gf, gj, gh, sign in flat:
        ctx.tag('constraint:' + kind, 'constraint gradient' if gj is not None else 'no constraint gradient', 'constraint hessian' if gh is not None else 'no constraint hessian')


def case(ctx):
    rng = ctx.rng
    h = rng.choice([ls, ls, ls, minimise, minimise, likelihood, ode])(ctx)
    free, n = h.free, len(h.free)
    h.extra = {}
    numeric = 'numerical' in h.kind or 'callable' in h.kind
    choices = [BFGS, LBFGSB, SLSQP, SLSQP, NelderMead, Powell, COBYLA, TrustConstr, TrustConstr, DifferentialEvolution, BasinHopping, MINPACK, None]
    cls = rng.choice(choices)
    if cls is MINPACK and not (h.kind.startswith('ls') and getattr(h, 'vector_ok', False)):
        cls = SLSQP
    # the box
    bounds = {}
    box_it = cls is DifferentialEvolution or rng.random() < 0.5
    if box_it:
        for p in free:
            if cls is DifferentialEvolution or rng.random() < 0.7:
                lo = round(h.start[p] - rng.uniform(0.3, 2), 3)
                hi = round(h.start[p] + rng.uniform(0.3, 2), 3)
                if h.kind.startswith('likelihood') and h.start[p] > 0:
                    lo = max(lo, 0.3 * h.start[p])
                bounds[p] = (lo, hi) if cls is DifferentialEvolution else rng.choice([(lo, hi), (lo, None), (None, hi), (0.0 if h.start[p] > 0 else lo, hi), (lo, 0 if h.start[p] < 0 else hi)])
    attrs = {p: {} for p in h.start}
    for p in h.start:
        if p in h.fixed:
            attrs[p]['fixed'] = True
            if rng.random() < 0.3:
                attrs[p].update(min=h.start[p] - 1, max=h.start[p] + 2)
    for p, (lo, hi) in bounds.items():
        attrs[p].update({k: v for k, v in (('min', lo), ('max', hi)) if v is not None})
    h.bounds = bounds
    if h.kind == 'ode':
        # parameters in an ODE problem already exist; give them what this case wants
        pr = h.ode
        syms = {p.name: p for p in set().union(*[getattr(e, 'free_symbols', set()) for e in list(pr.model_dict.values()) + list(pr.initial.values())])
                if isinstance(p, Parameter)}
        if set(syms) != set(h.start):
            raise Skip('unused parameter')
        for p, s in syms.items():
            s.value, s.fixed, s.min, s.max = h.start[p], p in h.fixed, attrs[p].get('min'), attrs[p].get('max')
        model = ODEModel(pr.model_dict, initial=pr.initial)
        names = dict(syms)
        names.update({c: None for c in pr.deps})
        names[pr.tname] = None
    else:
        syms = h.spec.symbols(values=h.start, **attrs)
        model = h.build(syms)
        names = syms
    # the constraints
    cons, extra = [], {}
    if (cls in CONSTRAINED or cls in (None, BasinHopping)) and h.kind != 'ode' and rng.random() < 0.75:
        cons, extra = make_constraints(ctx, h, names, model, rng.choice([1, 1, 2, 2, 3, 4]))
        if cls is COBYLA and any(c.rel == '==' for _, c in cons):
            cls = SLSQP
        h.extra = extra
    if cls is None or cls is BasinHopping:
        runs = SLSQP if cons else LBFGSB if bounds or h.fixed else BFGS
    else:
        runs = cls
    label = 'auto' if cls is None else cls.__name__
    data = dict(h.data, **extra)
    chain = cls not in (None, MINPACK) and rng.random() < 0.2
    ctx.describe(kind=h.kind, minimizer=label, start=h.start, fixed=h.fixed, bounds=bounds, model=h.spec.text() if h.spec else str(h.ode.model_dict),
                 constraints=[(c.kind, c.rel, E.to_text(c.lhs), E.to_text(c.rhs)) for _, c in cons], extra=extra, data=h.data, chain=chain)
    ctx.tag('problem:' + h.kind, 'minimizer:' + label, 'fixed:%d' % len(h.fixed), 'free:%d' % n, 'constraints:%d' % len(cons), *['form:' + c.kind for _, c in cons])
    mini = cls
    if chain:
        mini = [cls, rng.choice([cls, NelderMead])]
    order = gen.shuffled(rng, [con for con, _ in cons])
    direct = not cons and not h.data and cls is not None and cls is not BasinHopping and rng.random() < 0.3
    if direct:
        # the minimizer by itself, parameters in any order
        params = gen.shuffled(rng, model.params)
        kw = {}
        obj = MinimizeModel(model, data={v: None for v in model.dependent_vars})
        if hasattr(obj, 'eval_jacobian') and hasattr(model, 'eval_jacobian') and issubclass(cls, (BFGS, LBFGSB, SLSQP, TrustConstr)) and rng.random() < 0.7:
            kw['jacobian'] = obj.eval_jacobian
            if cls is TrustConstr and hasattr(model, 'eval_hessian'):
                kw['hessian'] = obj.eval_hessian
        use = rng.choice([obj, model]) if len(h.spec.comps) == 1 else obj
        fit = cls(use, params, **kw)
        chain = False
        ctx.tag('direct')
    else:
        fit = Fit(model, minimizer=mini, constraints=order, **dict(data, **h.kw))
    with Handed(lambda call, k: scripted_result(call, [h.start[p] for p in free], 2)) as hd:
        fit.execute()
    if not hd.calls:
        raise Inconclusive('scipy not reached')
    call = rng.choice(hd.calls[:1] if not chain or mini[1] is not cls else hd.calls)
    supports = runs in BOUNDED
    judge_problem(ctx, h, call, cls, cons, bounds if supports else {} , label)
