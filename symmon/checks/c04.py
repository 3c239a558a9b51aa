"""C04: finite-difference Jacobians."""
import numpy as np
from symfit import Model, CallableModel, CallableNumericalModel, ODEModel, D, Parameter, Variable
from symfit.core.models import BaseGradientModel

from .. import gen, expr as E
from ..core import Skip
from ..jet import Track
from ..odes import ode_problem


class FDSymbolic(CallableModel, BaseGradientModel):
    """User-defined gradient model: symbolic, gradient by finite differences."""


class FDNumerical(CallableNumericalModel, BaseGradientModel):
    """User-defined gradient model with arbitrary callables."""


class FDWrap(BaseGradientModel, CallableModel):
    pass


KINDS = ['normal', 'large', 'huge', 'small', 'tiny', 'zero', 'negative']


def rand_value(rng, kind):
    """value, scale: the model varies over `scale` in this parameter."""
    z = round(rng.choice([-1, 1]) * rng.uniform(0.15, 1.8), 4)
    if kind == 'normal':
        return z, 1.0
    if kind == 'negative':
        return -abs(z), 1.0
    if kind == 'large':
        s = 10.0 ** rng.randint(2, 5)
        return z * s, s
    if kind == 'huge':
        s = 10.0 ** rng.randint(6, 9)
        return z * s, s
    if kind == 'small':
        s = 10.0 ** rng.randint(-5, -1)
        return z * s, s
    if kind == 'tiny':
        return z * 10.0 ** rng.randint(-13, -8), 1.0
    return 0.0, 1.0


def general(ctx):
    rng = ctx.rng
    n_comp = rng.choice([1, 1, 2, 3])
    ragged = rng.random() < 0.35
    spec = gen.rand_spec(rng, n_comp=n_comp, n_indep=n_comp if ragged else rng.choice([0, 1, 1, 2, 2]),
                         n_param=rng.choice([1, 2, 3, 4]), depth=rng.choice([1, 2, 3]),
                         dep_prob=0 if ragged else rng.choice([0, 0.5]), own_indep=ragged)
    if not spec.params:
        raise Skip('no parameters')
    env = {}
    if ragged:
        for v in spec.indep:
            env[v] = np.round(ctx.np.uniform(-1.6, 1.6, rng.randint(1, 6)), 4)
        ctx.tag('ragged')
    else:
        env, _ = gen.rand_shape_values(ctx, spec.indep, rng.choice(['scalar', 'vec', 'vec', 'mixed', 'grid', '2d', 'one']))
    scale = {}
    kinds = {}
    for p in spec.params:
        kinds[p] = rng.choice(KINDS)
        env[p], scale[p] = rand_value(rng, kinds[p])
        ctx.tag('value:' + kinds[p])
    mapping = {p: ('*', ('c', 1.0 / scale[p]), ('s', p)) for p in spec.params if scale[p] != 1.0}
    spec.comps = {c: subst(ex, mapping) for c, ex in spec.comps.items()}
    lev = max(spec.levels().values())
    style = rng.choice(['model', 'symbolic', 'symbolic', 'numerical', 'numerical', 'mixin-first'])
    ctx.describe(model=spec.text(), point=env, style=style, levels=lev)
    ctx.tag('style:' + style, 'levels:%d' % lev)
    jets = spec.jets(env)
    if not np.isfinite(Track.m) or Track.m > 1e18:
        raise Skip('ill-conditioned')
    vals = spec.values(env)
    # magnitude met while evaluating (not differentiating): sets the rounding error
    mag = max(Track.m, 1.0)
    if mag > 1e4:
        raise Skip('ill-conditioned')
    # third derivatives are not known; bound the truncation error through the scale
    syms = spec.symbols()
    md = spec.model_dict(syms, gen.shuffled(rng, spec.comps))
    if style == 'model':
        m = Model(md)
    elif style == 'symbolic':
        m = FDSymbolic(md)
    elif style == 'mixin-first':
        m = FDWrap(md)
    else:
        comps, conn = {}, {}
        for c in gen.shuffled(rng, spec.comps):
            if rng.random() < 0.3:
                comps[syms[c]] = md[syms[c]]
                continue
            comps[syms[c]] = callable_for(spec.comps[c])
            conn[syms[c]] = {syms[s] for s in E.symbols_of(spec.comps[c])}
        if not conn:
            raise Skip('no numerical component')
        m = FDNumerical(comps, connectivity_mapping=conn)
    args = spec.indep + spec.params
    explicit = rng.random() < 0.5 or style == 'model'
    dx = rng.choice([None, None, 1e-6, 1e-5, 1e-7]) if explicit else None
    kw = {} if dx is None else {'dx': dx}
    f = m.finite_difference if explicit else m.eval_jacobian
    if rng.random() < 0.5:
        jac = f(*[env[a] for a in args], **kw)
    else:
        jac = f(**dict({a: env[a] for a in args}, **kw))
    n = len(spec.params)
    ctx.check('length', len(jac) == len(spec.names))
    h = np.array([(dx or 1e-8) * (abs(env[p]) if abs(env[p]) >= 1e-7 else 1.0) for p in spec.params])
    for i, c in enumerate(spec.names):
        want = jets[c].grad(n)
        got = np.asarray(jac[i])
        if not ctx.check('layout', got.shape == want.shape, got=got.shape, want=want.shape, component=c):
            continue
        big = np.array([np.max(np.abs(want[k])) if want[k].size else 0 for k in range(n)])
        inv = np.array([1.0 / scale[p] for p in spec.params])
        atol = 300 * 2.3e-16 * mag / h + 1e-6 * inv * max(1.0, mag) * 1e-2 + 1e-7 * big
        for k, p in enumerate(spec.params):
            ctx.close('finite-difference', got[k], want[k], rtol=1e-6, atol=atol[k], component=c, param=p,
                      value=env[p], dx=dx, tol=float(atol[k]))
            if p not in spec.uses(c):
                ctx.check('zero-where-independent', not np.any(got[k]), component=c, param=p)
        if not explicit:
            ctx.check('by-name', np.array_equal(getattr(jac, c), jac[i]), component=c)
            ctx.check('by-variable', np.array_equal(jac._asdict()[syms[c]], jac[i]), component=c)
    if style == 'model' or rng.random() < 0.3:
        ana = Model(md).eval_jacobian(**env)
        for i, c in enumerate(spec.names):
            ctx.check('layout-of-analytical', np.shape(ana[i]) == np.shape(jac[i]), got=np.shape(jac[i]),
                      want=np.shape(ana[i]), component=c)


def subst(node, mapping):
    k = node[0]
    if k == 's':
        return mapping.get(node[1], node)
    if k == 'c':
        return node
    if k == 'f':
        return ('f', node[1], subst(node[2], mapping))
    if k == '^':
        return ('^', subst(node[1], mapping), node[2])
    return (k,) + tuple(subst(c, mapping) for c in node[1:])


def callable_for(node):
    """A Python function with exactly the component's symbols as arguments."""
    syms = sorted(E.symbols_of(node))
    ns = {'_E': E, '_N': node}
    src = 'lambda {0}: _E.ev(_N, dict({1}))'.format(
        ', '.join(syms), ', '.join('{0}={0}'.format(s) for s in syms))
    return eval(src, ns)


def ode(ctx):
    rng = ctx.rng
    prob = ode_problem(ctx)
    fit_kw = dict(rtol=1e-11, atol=1e-12, method=rng.choice(['LSODA', 'DOP853']))
    m = ODEModel(prob.model_dict, prob.initial, **fit_kw)
    t = prob.times(ctx)
    dx = rng.choice([1e-4, 1e-4, None])
    kw = {} if dx is None else {'dx': dx}
    env = dict(prob.values)
    jac = m.eval_jacobian(**dict({prob.tname: t}, **dict(env, **kw))) if rng.random() < 0.5 else \
        m.finite_difference(t, *[env[p] for p in prob.params], **kw)
    want = prob.jacobian(t, env)
    ctx.describe(ode=prob.kind, times=t, values=env, want=want)
    ctx.tag('ode:' + prob.kind)
    for i, c in enumerate(prob.deps):
        w = want[c]
        ctx.check('ode-layout', np.shape(jac[i]) == w.shape, got=np.shape(jac[i]), want=w.shape)
        tol = 2e-4 if dx is None else 2e-5
        ctx.close('ode-jacobian', jac[i], w, rtol=tol, atol=tol * max(1.0, np.max(np.abs(w))), component=c,
                  params=prob.params)


def case(ctx):
    if ctx.rng.random() < 0.15:
        ode(ctx)
    else:
        general(ctx)
