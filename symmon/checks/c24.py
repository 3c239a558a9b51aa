"""C24: model algebra."""
import warnings
from collections import OrderedDict

import numpy as np
import sympy
from symfit import (CallableModel, CallableNumericalModel, D, Eq, Ge, GradientModel, Le, Model, ODEModel, Parameter,
                    Variable)
from symfit.core.models import BaseModel, HessianModel
from symfit.core.objectives import LeastSquares, LogLikelihood, MinimizeModel, VectorLeastSquares

from .. import gen, expr as E
from ..core import Skip
from ..odes import ode_problem

CLASSES = [Model, Model, CallableModel, GradientModel, HessianModel]


# -- polynomials with an exact normal form, and rewritings that keep it ----------------
class Poly(object):
    """Normal form: {sorted tuple of (atom, power): integer}, against which equality is decided."""

    @staticmethod
    def const(c):
        return {(): c} if c else {}

    @staticmethod
    def add(a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + v
            if not out[k]:
                del out[k]
        return out

    @staticmethod
    def mul(a, b):
        out = {}
        for k1, v1 in a.items():
            for k2, v2 in b.items():
                powers = dict(k1)
                for s, n in k2:
                    powers[s] = powers.get(s, 0) + n
                k = tuple(sorted(powers.items()))
                out[k] = out.get(k, 0) + v1 * v2
                if not out[k]:
                    del out[k]
        return out


def normal(node):
    k = node[0]
    if k == 'c':
        return Poly.const(node[1])
    if k == 's':
        return {((node[1], 1),): 1}
    if k == 'f':
        return {(('%s(%s)' % (node[1], node[2][1]), 1),): 1}
    if k == '+':
        out = {}
        for c in node[1:]:
            out = Poly.add(out, normal(c))
        return out
    if k == '*':
        out = Poly.const(1)
        for c in node[1:]:
            out = Poly.mul(out, normal(c))
        return out
    if k == '-':
        return Poly.mul(Poly.const(-1), normal(node[1]))
    if k == '^':
        out = Poly.const(1)
        for _ in range(node[2]):
            out = Poly.mul(out, normal(node[1]))
        return out
    raise ValueError(k)


def poly(rng, leaves, depth):
    if depth == 0 or rng.random() < 0.15:
        r = rng.random()
        if r < 0.15:
            return ('c', rng.choice([1, 2, 3, -1, -2, 5]))
        if r < 0.3:
            return ('f', rng.choice(['sin', 'exp', 'cos']), ('s', rng.choice(leaves)))
        return ('s', rng.choice(leaves))
    sub = lambda: poly(rng, leaves, depth - 1)
    r = rng.random()
    if r < 0.4:
        return ('+', sub(), sub())
    if r < 0.75:
        return ('*', sub(), sub())
    if r < 0.85:
        return ('-', sub())
    return ('^', sub(), 2)


def rewrite(rng, node):
    """Another way of writing the same polynomial."""
    k = node[0]
    if k in 'csf':
        if rng.random() < 0.15:
            c = ('c', rng.choice([1, 2, 3]))
            return ('+', node, c, ('-', c))
        if rng.random() < 0.1:
            return ('-', ('-', node))
        return node
    if k == '^':
        a = rewrite(rng, node[1])
        return ('*', a, rewrite(rng, node[1])) if rng.random() < 0.5 else ('^', a, 2)
    if k == '-':
        a = node[1]
        if a[0] == '+' and rng.random() < 0.6:
            return ('+',) + tuple(('-', rewrite(rng, c)) for c in a[1:])
        return ('*', ('c', -1), rewrite(rng, a)) if rng.random() < 0.5 else ('-', rewrite(rng, a))
    kids = [rewrite(rng, c) for c in node[1:]]
    if rng.random() < 0.6:
        rng.shuffle(kids)
    if k == '*' and rng.random() < 0.5:
        for i, c in enumerate(kids):
            if c[0] == '+':
                rest = kids[:i] + kids[i + 1:]
                return ('+',) + tuple(('*', t) + tuple(rest) if rest else t for t in c[1:])
    return (k,) + tuple(kids)


def perturb(rng, node, leaves):
    """Usually a different polynomial."""
    r = rng.random()
    if r < 0.3:
        return ('+', node, ('*', ('c', rng.choice([1, -1, 2])), ('s', rng.choice(leaves))))
    if r < 0.5:
        return ('*', node, ('c', rng.choice([-1, 2, 3])))
    if r < 0.65:
        return ('+', node, ('c', rng.choice([1, -1, 7])))
    if r < 0.8 and len(leaves) > 1:
        a, b = rng.sample(leaves, 2)
        return E.rename(node, {a: b, b: a})
    if r < 0.9:
        return ('*', node, ('s', rng.choice(leaves)))
    return poly(rng, leaves, 3)


def nonempty(node):
    """Symbols that survive cancellation."""
    out = set()
    for mono in normal(node):
        for s, _ in mono:
            out.add(s)
    return out


def foreign(ctx):
    x = Variable('x')
    return [None, 1, 'model', [1], (), {}, {x: 2}, object(), x, x ** 2, ODEModel({D(Variable('y_o'), x): -Variable('y_o')}, initial={x: 0, Variable('y_o'): 1.0})]


def equality(ctx):
    rng = ctx.rng
    ctx.tag('mode:equality')
    P = gen.names(rng, gen.PARAM_NAMES, rng.randint(1, 3))
    V = gen.names(rng, gen.VAR_NAMES, rng.randint(1, 2), P)
    C = gen.names(rng, gen.COMP_NAMES, rng.randint(1, 3), P + V)
    syms = {n: Parameter(n) for n in P}
    syms.update({n: Variable(n) for n in V + C + ['surely_else']})
    leaves = P + V
    first = {c: poly(rng, leaves, rng.randint(1, 4)) for c in C}
    second = {c: rewrite(rng, n) for c, n in first.items()}
    how = rng.choice(['same', 'rewritten', 'rewritten', 'rewritten', 'perturbed', 'perturbed', 'component', 'renamed', 'less'])
    if how == 'same':
        second = dict(first)
    elif how == 'perturbed':
        c = rng.choice(C)
        second[c] = perturb(rng, second[c], leaves)
    elif how == 'component':
        second['surely_else'] = poly(rng, leaves, 2)
    elif how == 'renamed':
        second['surely_else'] = second.pop(rng.choice(C))
    elif how == 'less' and len(C) > 1:
        second.pop(rng.choice(C))
    if len(C) > 1 and rng.random() < 0.15 and how == 'rewritten':
        a, b = rng.sample(C, 2)
        second[a], second[b] = second[b], second[a]
        how = 'swapped'
    for d in (first, second):
        for n in d.values():
            if not any(s in leaves for mono in normal(n) for s, _ in mono):
                raise Skip('constant component')
    if sum(len(normal(n)) for n in list(first.values()) + list(second.values())) > 300:
        raise Skip('large')
    make = lambda d: {syms[c]: E.to_sympy(d[c], syms) for c in gen.shuffled(rng, list(d))}
    d1, d2 = make(first), make(second)
    want = set(first) == set(second) and all(normal(first[c]) == normal(second[c]) for c in first)
    ctx.describe(mode='equality', how=how, first={c: E.to_text(n) for c, n in first.items()},
                 second={c: E.to_text(n) for c, n in second.items()}, want=want)
    ctx.tag('how:' + how, 'equal' if want else 'unequal')
    m1, m2 = rng.choice(CLASSES)(d1), rng.choice(CLASSES)(d2)
    ctx.check('models-equal', bool(m1 == m2) == want and bool(m2 == m1) == want, want=want, got=[m1 == m2, m2 == m1])
    ctx.check('models-unequal', bool(m1 != m2) == (not want) and bool(m2 != m1) == (not want), want=want)
    ctx.check('reflexive', m1 == m1 and not (m1 != m1))
    for thing in rng.sample(foreign(ctx), 4):
        try:
            ctx.check('foreign-unequal', np.all(not (m1 == thing)) and np.all(m1 != thing), thing=str(thing)[:40])
            ctx.check('foreign-unequal', np.all(not (thing == m1)) if not isinstance(thing, np.ndarray) else True, thing=str(thing)[:40])
        except Exception as err:
            ctx.check('comparing-never-raises', False, error=repr(err)[:200], thing=str(thing)[:40])
    # symbolic against numerical: different components, no error
    args = sorted(set(V + P) & {s.name for e in d1.values() for s in e.free_symbols})
    num = CallableNumericalModel({v: (lambda **kw: 0.0) for v in d1}, connectivity_mapping={v: set(e.free_symbols) for v, e in d1.items()})
    try:
        ctx.check('numerical-unequal', not (m1 == num) and not (num == m1) and num == num, args=args)
    except Exception as err:
        ctx.check('comparing-never-raises', False, error=repr(err)[:200], thing='numerical model')
    objectives(ctx, m1, m2, want)


def objectives(ctx, m1, m2, models_equal):
    rng, npr = ctx.rng, ctx.np
    if models_equal and m1.independent_vars != m2.independent_vars:
        return      # a variable cancels only on expansion: there is data for it on one side only
    n = rng.randint(1, 5)
    scale = rng.choice([1.0, 1.0, 1e-9, 1e6])

    def data(m, base):
        out = {}
        for v in m.independent_vars + m.dependent_vars + [m.sigmas[d] for d in m.dependent_vars]:
            base.setdefault(v.name, None if rng.random() < 0.12 and v in m.dependent_vars else npr.uniform(0.5, 1, n) * scale)
            out[v] = None if base[v.name] is None else np.array(base[v.name], copy=True)
        return out
    base = {}
    a, b = data(m1, base), data(m2, base)
    kinds = [LeastSquares, LogLikelihood, VectorLeastSquares] if len(m1.dependent_vars) == 1 and hasattr(m1, 'eval_hessian') else [LeastSquares, VectorLeastSquares]
    k1 = rng.choice(kinds)
    k2 = k1 if rng.random() < 0.75 else rng.choice(kinds)
    want = models_equal and k1 is k2
    how = rng.choice(['same', 'same', 'changed', 'tiny', 'shape', 'none'])
    target = rng.choice(sorted(b, key=str)) if b else None
    if target is None or b[target] is None:
        how = 'same'
    elif how == 'changed':
        b[target][rng.randrange(n)] *= rng.choice([-1, 2, 0.5])
        want = False
    elif how == 'tiny':
        b[target] = b[target] * (1 + 1e-12)      # rounding is not a difference
    elif how == 'shape':
        b[target] = np.append(b[target], 1.0)
        want = False
    elif how == 'none':
        b[target] = None
        want = False
    try:
        o1, o2 = k1(m1, a), k2(m2, b)
    except TypeError:
        return      # not compatible with the data: refused when built
    ctx.tag('objective:' + how)
    try:
        ctx.check('objectives-equal', bool(o1 == o2) == want and bool(o2 == o1) == want, want=want, how=how, scale=scale,
                  kinds=[k1.__name__, k2.__name__], models_equal=models_equal)
        ctx.check('objectives-unequal', bool(o1 != o2) == (not want), want=want, how=how)
        ctx.check('objective-reflexive', o1 == o1)
        for thing in (None, 1, m1, 'x', a):
            ctx.check('objective-foreign', not (o1 == thing) and o1 != thing)
    except Exception as err:
        ctx.check('comparing-never-raises', False, error=repr(err)[:200], how=how)


# -- snapshots -----------------------------------------------------------------------
def snapshot(m):
    return (list(m.model_dict.items()), list(m.params), list(m.independent_vars), list(m.dependent_vars),
            list(getattr(m, 'interdependent_vars', [])), str(m.__signature__), {k: frozenset(v) for k, v in m.connectivity_mapping.items()}
            if not isinstance(m, ODEModel) else None, [(p.value, p.min, p.max, p.fixed) for p in m.params],
            dict(m.initial) if hasattr(m, 'initial') else None, dict(getattr(m, 'integrator_kwargs', {})))


def spec_and_model(ctx, classes=CLASSES, **kw):
    rng = ctx.rng
    spec = gen.rand_spec(rng, n_comp=kw.get('n_comp', rng.choice([1, 2, 3, 4])), n_indep=rng.choice([0, 1, 2, 2]), n_param=rng.choice([1, 2, 3]),
                         depth=rng.choice([1, 2, 3]), dep_prob=rng.choice([0, 0, 0.5, 0.9]))
    env, _ = gen.rand_shape_values(ctx, spec.indep, rng.choice(['vec', 'scalar', 'vec']))
    for p in spec.params:
        env[p] = gen.rand_param_value(rng)
    syms = spec.symbols()
    d = spec.model_dict(syms, gen.shuffled(rng, list(spec.comps)))
    cls = rng.choice(classes)
    return spec, env, syms, d, cls(d)


def negation(ctx):
    rng = ctx.rng
    ctx.tag('mode:negation')
    if rng.random() < 0.2:
        return ode_negation(ctx)
    spec, env, syms, d, m = spec_and_model(ctx)
    ctx.describe(mode='negation', model=spec.text(), point=env, cls=type(m).__name__)
    before = snapshot(m)
    n = -m
    want = spec.values(env)
    tol = gen.tol()
    ctx.check('negated-type', type(n) is type(m))
    ctx.check('negated-variables', list(n) == list(m) and n.dependent_vars == m.dependent_vars
              and n.independent_vars == m.independent_vars and n.params == m.params)
    got, orig = n(**env), m(**env)
    for i, c in enumerate(spec.names):
        sign = -1 if c in spec.dependent else 1
        ctx.close('negated-value', getattr(got, c), sign * want[c], rtol=1e-9, atol=tol, component=c, dependent=spec.dependent)
        ctx.close('original-value', getattr(orig, c), want[c], rtol=1e-9, atol=tol, component=c)
    if hasattr(n, 'eval_jacobian') and np.isfinite(tol):
        jn, jm = n.eval_jacobian(**env), m.eval_jacobian(**env)
        for i, c in enumerate(spec.names):
            if c in spec.dependent:
                ctx.close('negated-jacobian', jn[i], -np.asarray(jm[i]), rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(jm[i]))), component=c)
    ctx.check('original-intact', snapshot(m) == before and m == d.__class__(sorted(d.items(), key=lambda i: i[0].name)))
    back = -n
    ctx.check('twice-is-original', back == m and m == back and type(back) is type(m))
    # no component of a user's model is an identically zero expression
    if any(sympy.expand(d[syms[c]]) != 0 for c in spec.dependent):
        ctx.check('negated-unequal', not (n == m))


def ode_negation(ctx):
    rng = ctx.rng
    pr = ode_problem(ctx, kind=rng.choice(['decay', 'chain', 'oscillator', 'driven']))
    kw = rng.choice([{}, {}, {'method': 'RK45', 'rtol': 1e-9, 'atol': 1e-9}, {'rtol': 1e-10, 'atol': 1e-10}])
    m = ODEModel(pr.model_dict, initial=pr.initial, **kw)
    ctx.describe(mode='ode negation', kind=pr.kind, settings=kw, values=pr.values)
    ctx.tag('ode-negation')
    before = snapshot(m)
    n = -m
    ctx.check('negated-type', type(n) is ODEModel)
    ctx.check('negated-settings', n.integrator_kwargs == m.integrator_kwargs and dict(n.initial) == dict(m.initial), got=n.integrator_kwargs)
    ctx.check('original-intact', snapshot(m) == before)
    ctx.check('negated-variables', n.params == m.params and n.dependent_vars == m.dependent_vars and n.independent_vars == m.independent_vars)
    for v in m:
        ctx.check('negated-equation', sympy.expand(n[v] + m[v]) == 0, variable=v)
    # -f runs the trajectory backwards when the system does not depend on time
    if pr.kind != 'driven':
        t = pr.t0 + np.sort(ctx.np.uniform(0, 0.8, 4))
        sol = pr.solution(2 * pr.t0 - t, pr.values)
        out = n(**{pr.tname: t}, **pr.values)
        for i, c in enumerate(sorted(pr.deps)):
            ctx.close('negated-trajectory', getattr(out, c), np.broadcast_to(sol[c], t.shape), rtol=1e-4, atol=1e-4, component=c)
    ctx.check('twice-is-original', -n == m)
    ctx.check('dictionary', all(v in m for v in m) and pr.t not in m if hasattr(pr, 't') else True)
    absent = Variable('surely_absent')
    ctx.raises('missing-key', KeyError, lambda: m[absent])
    ctx.check('get-missing', m.get(absent) is None and absent not in m and D(absent, Variable(pr.tname)) not in m)
    ctx.check('length', len(m) == len(pr.deps) == len(list(m.items())) and [v.name for v in m] == sorted(pr.deps))


# -- mapping behaviour -----------------------------------------------------------------
def mapping(ctx):
    rng = ctx.rng
    ctx.tag('mode:mapping')
    spec, env, syms, d, m = spec_and_model(ctx)
    ctx.describe(mode='mapping', model=spec.text(), cls=type(m).__name__)
    order = sorted(d, key=lambda s: s.name)
    ctx.check('length', len(m) == len(d))
    ctx.check('iteration', list(m) == order and list(m.keys()) == order, got=list(m))
    ctx.check('items', list(m.items()) == [(k, d[k]) for k in order] and list(m.values()) == [d[k] for k in order])
    for k in d:
        ctx.check('lookup', m[k] == d[k] and k in m and m.get(k) == d[k])
    for k in spec.indep + spec.params + ['surely_absent']:
        s = syms.get(k) or Variable(k)
        ctx.check('not-contained', s not in m and m.get(s, 'default') == 'default')
        ctx.raises('missing-key', KeyError, lambda: m[s])
    ctx.raises('read-only', TypeError, lambda: m.__class__.__setitem__(m, order[0], 1) if hasattr(m, '__setitem__') else exec('m[k] = 1', {'m': m, 'k': order[0]}))
    ctx.raises('read-only', TypeError, lambda: exec('del m[k]', {'m': m, 'k': order[0]}))
    user = dict(d)
    ctx.check('user-dict-kept', d == user)
    d[Variable('added_later')] = d[order[0]]
    ctx.check('detached-from-dict', len(m) == len(user) and Variable('added_later') not in m)
    d.pop(Variable('added_later'))
    by = lambda l: [s.name for s in l]
    ctx.check('independent', by(m.independent_vars) == spec.indep, got=by(m.independent_vars), want=spec.indep)
    ctx.check('parameters', by(m.params) == spec.params, got=by(m.params), want=spec.params)
    ctx.check('dependent', by(m.dependent_vars) == spec.dependent, got=by(m.dependent_vars), want=spec.dependent)
    ctx.check('interdependent', by(m.interdependent_vars) == spec.interdep, got=by(m.interdependent_vars), want=spec.interdep)
    ctx.check('vars', by(m.vars) == spec.indep + spec.dependent + ['sigma_' + c for c in spec.dependent], got=by(m.vars))
    ctx.check('sigmas', {v.name: s.name for v, s in m.sigmas.items()} == {c: 'sigma_' + c for c in spec.dependent})
    ctx.check('symbol-kinds', all(isinstance(p, Parameter) for p in m.params) and not any(isinstance(v, Parameter) for v in m.vars))
    # bounds follow the parameters, also when those change later
    for _ in range(2):
        want = []
        for p in m.params:
            lo = rng.choice([None, round(rng.uniform(-3, -2), 3), -np.inf])
            hi = rng.choice([None, round(rng.uniform(2, 3), 3)])
            p.min, p.max, p.fixed, p.value = lo, hi, rng.random() < 0.3, round(rng.uniform(-1.5, 1.5), 3)
            want.append((p, lo, hi))
        b = m.bounds
        ctx.check('bounds-count', len(b) == len(want))
        for (p, lo, hi), got in zip(want, b):
            if p.fixed:
                ctx.close('fixed-bounds', got, [p.value, p.value], rtol=1e-12, atol=1e-300, parameter=p)
            else:
                ctx.check('bounds', list(got) == [lo, hi], parameter=p, got=got, want=[lo, hi])
        ctx.check('free-parameters', by(m.free_params) == [p.name for p in m.params if not p.fixed])
    direct = [E.symbols_of(n) & set(spec.params) for n in spec.comps.values()]
    shared = any(direct[i] & direct[j] for i in range(len(direct)) for j in range(i))
    if shared or not spec.interdep:
        ctx.check('shared-parameters', m.shared_parameters is shared, want=shared, got=m.shared_parameters)
        ctx.tag('shared' if shared else 'not-shared')
    text = str(m)
    for c in spec.comps:
        deps = E.symbols_of(spec.comps[c])
        head = '%s(%s; %s) = ' % (c, ', '.join(sorted(deps - set(spec.params))), ', '.join(sorted(deps & set(spec.params))))
        ctx.check('printed-component', head in text, text=text, want=head)
    # built from a bare expression or a list the components keep their order
    free = [e for e in [d[k] for k in order] if not any(s in d for s in e.free_symbols)]
    if free:
        exprs = gen.shuffled(rng, free) + ([free[0] * 2] if rng.random() < 0.3 else [])
        many = type(m)(exprs if len(exprs) > 1 or rng.random() < 0.5 else exprs[0])
        ctx.check('list-order', list(many.values()) == exprs, got=list(many.values()), want=exprs)
        ctx.check('generated-names', len(set(by(many))) == len(exprs) and all(n.isidentifier() for n in by(many)))


# -- composition -------------------------------------------------------------------------
def composition(ctx):
    rng = ctx.rng
    ctx.tag('mode:composition')
    spec = gen.rand_spec(rng, n_comp=rng.choice([1, 2, 3, 4]), n_indep=rng.choice([0, 1, 2]), n_param=rng.choice([1, 2, 3]),
                         depth=rng.choice([1, 2]), dep_prob=rng.choice([0, 0.5, 0.9]))
    numerical = rng.random() < 0.25
    syms = spec.symbols()
    d = spec.model_dict(syms, gen.shuffled(rng, list(spec.comps)))
    if numerical:
        from ..record import Callable
        log = []
        conn, mixed = {}, {}
        for c in spec.comps:
            if rng.random() < 0.6:
                mixed[syms[c]] = Callable(spec.comps[c], log, c)
                conn[syms[c]] = {syms[n] for n in E.symbols_of(spec.comps[c])}
            else:
                mixed[syms[c]] = d[syms[c]]
        if not conn:
            raise Skip('all symbolic')
        dep_model = CallableNumericalModel(mixed, connectivity_mapping=conn)
    else:
        dep_model = rng.choice(CLASSES)(d)
    # the new model uses some components, variables and parameters of the other, and its own
    own = [n for n in ['w_own', 'v_own'] if rng.random() < 0.4]
    own_p = ['p_own'] if rng.random() < 0.4 else []
    for n in own:
        syms[n] = Variable(n)
    for n in own_p:
        syms[n] = Parameter(n)
    comps = {}
    for k in range(rng.choice([1, 1, 2, 3])):
        c = 'new_%d' % k
        syms[c] = Variable(c)
        leaves = rng.sample(spec.names, rng.randint(0, len(spec.names))) + \
            rng.sample(spec.indep, rng.randint(0, len(spec.indep))) + rng.sample(spec.params, rng.randint(0, len(spec.params))) + own + own_p
        if k and rng.random() < 0.4:
            leaves.append('new_%d' % (k - 1))
        if not leaves:
            leaves = [rng.choice(spec.names)]
        comps[c] = E.cover(rng, E.rand_expr(rng, leaves, 2), leaves if rng.random() < 0.7 else leaves[:1])
    used = set().union(*[E.symbols_of(n) for n in comps.values()])
    need = {}

    def pull(n):
        if n in spec.comps and n not in need:
            need[n] = spec.comps[n]
            for s in E.symbols_of(spec.comps[n]):
                pull(s)
    for n in used:
        pull(n)
    allc = dict(comps, **need)
    leaf = set().union(*[E.symbols_of(n) for n in allc.values()]) - set(allc)
    full = gen.Spec([n for n in leaf if not isinstance(syms[n], Parameter)], [n for n in leaf if isinstance(syms[n], Parameter)], allc)
    before, evaluated = snapshot(dep_model), None
    env, _ = gen.rand_shape_values(ctx, sorted(set(full.indep) | set(spec.indep)), rng.choice(['vec', 'scalar']))
    for p in set(full.params) | set(spec.params):
        env[p] = gen.rand_param_value(rng)
    new = {syms[c]: E.to_sympy(n, syms) for c, n in comps.items()}
    for c, ex in new.items():
        if {s.name for s in getattr(ex, 'free_symbols', ())} != E.symbols_of(comps[c.name]):
            raise Skip('lost symbols')
    given = dict(new)
    ctx.describe(mode='composition', other=spec.text(), new={c: E.to_text(n) for c, n in comps.items()}, numerical=numerical)
    ctx.tag('numerical' if numerical else 'symbolic', 'pulled:%d/%d' % (len(need), len(spec.comps)))
    if numerical:
        conn2 = {}
        mapping_before = dict(conn2)
        m = CallableNumericalModel.with_dependencies(dict(new), dep_model, connectivity_mapping={s: set(ex.free_symbols) for s, ex in new.items()})
    else:
        m = rng.choice(CLASSES).with_dependencies(new, dep_model)
    ctx.check('components', sorted(v.name for v in m) == sorted(allc), got=sorted(v.name for v in m), want=sorted(allc))
    ctx.check('user-dict-kept', new == given)
    if sorted(v.name for v in m) != sorted(allc):
        return
    by = lambda l: sorted(s.name for s in l)
    ctx.check('parameters', by(m.params) == full.params, got=by(m.params), want=full.params)
    ctx.check('independent', by(m.independent_vars) == full.indep, got=by(m.independent_vars), want=full.indep)
    ctx.check('other-unchanged', snapshot(dep_model) == before)
    want = full.values({k: env[k] for k in full.indep + full.params})
    tol = gen.tol()
    got = m(**{k: env[k] for k in full.indep + full.params})
    for c in allc:
        ctx.close('composed-value', getattr(got, c), want[c], rtol=1e-9, atol=tol, component=c)
    w2 = spec.values({k: env[k] for k in spec.indep + spec.params})
    t2 = gen.tol()
    o = dep_model(**{k: env[k] for k in spec.indep + spec.params})
    for c in spec.names:
        ctx.close('other-value', getattr(o, c), w2[c], rtol=1e-9, atol=t2, component=c)
    # once more on top of the composed model
    if not numerical and rng.random() < 0.4:
        top = Variable('top_')
        c = rng.choice(sorted(allc))
        m2 = Model.with_dependencies({top: 2 * syms[c]}, m)
        chain = {'top_': ('*', ('c', 2), ('s', c))}
        def pull2(n):
            if n in allc and n not in chain:
                chain[n] = allc[n]
                for s in E.symbols_of(allc[n]):
                    pull2(s)
        pull2(c)
        ctx.check('components:chained', sorted(v.name for v in m2) == sorted(chain), got=sorted(v.name for v in m2), want=sorted(chain))
        ctx.close('chained-value', getattr(m2(**{p: env[p] for p in m2.__signature__.parameters}), 'top_'), 2 * want[c], rtol=1e-9, atol=2 * tol)


def constraint(ctx):
    rng = ctx.rng
    ctx.tag('mode:constraint')
    spec, env, syms, d, m = spec_and_model(ctx)
    leaves = rng.sample(spec.params, rng.randint(1, len(spec.params)))
    if rng.random() < 0.5:
        leaves += rng.sample(spec.names, 1)
    if rng.random() < 0.2 and spec.indep:
        leaves += rng.sample(spec.indep, 1)
    lhs = E.cover(rng, E.rand_expr(rng, leaves, 2), leaves)
    rhs = ('c', rng.choice([0, 1, 2.5])) if rng.random() < 0.6 else E.rand_expr(rng, leaves, 1)
    rel = rng.choice([Eq, Ge, Le])
    diff = ('+', lhs, ('-', rhs))
    L, R = E.to_sympy(lhs, syms), E.to_sympy(rhs, syms)
    relation = rel(L, R)
    if not isinstance(relation, (Eq, Ge, Le)):
        raise Skip('relation decided')
    if {s.name for s in (relation.lhs - relation.rhs).free_symbols} != E.symbols_of(diff):
        raise Skip('lost symbols')
    before = snapshot(m)
    how = rng.choice(['relation', 'expression', 'mapping'])
    cls = rng.choice(CLASSES)
    ctx.describe(mode='constraint', model=spec.text(), relation=str(relation), how=how)
    name = Variable('con_')
    con = cls.as_constraint(*{'relation': lambda: (relation, m), 'expression': lambda: (L - R, m, rel),
                              'mapping': lambda: ({name: L - R}, m, rel)}[how]())
    # sympy may write a relation the other way round; what counts is the sign as it stands
    kind = type(relation) if how == 'relation' else rel
    flip = 1
    if how == 'relation':
        a, b = relation.lhs, relation.rhs
        flip = 1 if sympy.expand((a - b) - (L - R)) == 0 else -1
    sign = flip * (-1 if kind is Le else 1)
    ctx.check('kind', con.constraint_type is (Eq if kind is Eq else Ge), got=con.constraint_type)
    ctx.check('takes-parameters', [p.name for p in con.params] == spec.params, got=con.params, want=spec.params)
    ctx.check('other-unchanged', snapshot(m) == before)
    need = {}

    def pull(n):
        if n in spec.comps and n not in need:
            need[n] = spec.comps[n]
            for s in E.symbols_of(spec.comps[n]):
                pull(s)
    for s in E.symbols_of(diff):
        pull(s)
    names = [v.name for v in con]
    ctx.check('components', set(need) <= set(names) and len(names) == len(need) + 1, got=names, want=sorted(need))
    full = gen.Spec(spec.indep, spec.params, dict(need, con__=diff))
    want = full.values(env)['con__']
    tol = gen.tol()
    own = [n for n in names if n not in need]
    call = {k: v for k, v in env.items() if k in [s.name for s in con.independent_vars] + spec.params}
    got = con(**call)
    ctx.close('constraint-value', np.asarray(got[names.index(own[0])]), sign * want, rtol=1e-9, atol=tol, relation=str(relation))
    ctx.check('scalar', len(con.dependent_vars) == 1)


def case(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        ctx.rng.choice([equality, equality, equality, negation, negation, mapping, mapping, composition, composition, constraint])(ctx)
