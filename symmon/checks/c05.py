"""C05: objective values (C06 shares the workload)."""
import numpy as np
from symfit import Model, CallableModel, Fit
from symfit.core.models import GradientModel, HessianModel
from symfit.core.objectives import LeastSquares, VectorLeastSquares, LogLikelihood, MinimizeModel

from .. import gen, expr as E
from ..core import Skip
from ..jet import Jet, Track


def positive(rng, node):
    """Wrap an expression so that it only takes positive values."""
    if rng.random() < 0.5:
        return ('f', 'exp', ('*', ('c', 0.3), ('f', 'atan', node)))
    return ('+', ('^', node, 2), ('c', round(rng.uniform(0.2, 1.2), 2)))


class Work(object):
    pass


def workload(ctx, kind):
    """A model, parameter values, fixed flags, and data for `kind`."""
    rng, npr = ctx.rng, ctx.np
    w = Work()
    n_comp = 1 if kind == 'min' else rng.choice([1, 1, 2, 3])
    ragged = kind in ('ls', 'll') and n_comp > 1 and rng.random() < 0.5
    if kind == 'min':
        n_indep = rng.choice([0, 0, 1, 1])
    elif ragged:
        n_indep = n_comp
    else:
        n_indep = rng.choice([1, 1, 1, 2] + ([0] if kind == 'ls' else []))
    dep_prob = 0 if ragged else rng.choice([0, 0, 0.5, 0.9])
    if kind == 'min' and rng.random() < 0.4:
        n_comp, dep_prob = rng.choice([2, 3]), 1.0
    spec = gen.rand_spec(rng, n_comp=n_comp, n_indep=n_indep, n_param=rng.choice([1, 2, 2, 3, 4]),
                         depth=rng.choice([1, 2, 2]), dep_prob=dep_prob, own_indep=ragged,
                         need_x=rng.random() < 0.7)
    if not spec.params:
        raise Skip('no parameters')
    if kind == 'll':
        for c in spec.dependent:
            spec.comps[c] = positive(rng, spec.comps[c])
    if kind == 'min' and len(spec.dependent) > 1:
        raise Skip('several dependent')
    w.spec, w.kind = spec, kind
    env = {}
    if ragged:
        shapes = {v: rng.choice([(rng.randint(1, 6),), (rng.randint(1, 6),), (rng.randint(1, 3), rng.randint(1, 4))])
                  for v in spec.indep}
        for v in spec.indep:
            env[v] = np.round(npr.uniform(-1.6, 1.6, shapes[v]), 4)
        ctx.tag('ragged')
    else:
        pattern = rng.choice(['vec', 'vec', 'vec', '2d', 'one'] + (['scalar'] if kind == 'min' else []) +
                             (['grid'] if n_indep == 2 and kind != 'min' else []))
        env, _ = gen.rand_shape_values(ctx, spec.indep, pattern)
    w.indep_env = dict(env)
    w.values = {p: gen.rand_param_value(rng) for p in spec.params}
    env.update(w.values)
    w.env = env
    w.jets = spec.jets(env)
    if not np.isfinite(Track.m) or Track.m > 1e4:
        raise Skip('ill-conditioned')
    w.mag = max(1.0, Track.m)
    w.fixed = [p for p in spec.params if rng.random() < 0.25]
    if len(w.fixed) == len(spec.params) and rng.random() < 0.9:
        w.fixed = w.fixed[1:]
    w.free = [p for p in spec.params if p not in w.fixed]
    w.syms = spec.symbols(values=dict(w.values), **{p: {'fixed': True} for p in w.fixed})
    # free parameters get unrelated initial values: evaluation must not use them
    for p in w.free:
        w.syms[p].value = rng.choice([1.0, 0.0, -3.3])
    w.model_dict = spec.model_dict(w.syms, gen.shuffled(rng, spec.comps))
    if kind == 'min' and len(spec.comps) == 1 and rng.random() < 0.3:
        pass
    w.model = rng.choice([Model, Model, HessianModel])(w.model_dict)
    w.y, w.s = {}, {}
    w.data = {}
    for v in spec.indep:
        w.data[w.syms[v]] = env[v]
    if kind in ('ls', 'vec'):
        shape0 = None
        if kind == 'vec':
            shape0 = np.broadcast_shapes(*[np.shape(w.jets[c].v) for c in spec.dependent])
        alive = [c for c in spec.dependent if rng.random() > 0.25] or [rng.choice(spec.dependent)]
        for c in spec.dependent:
            f = w.jets[c].v
            if shape0 is not None:
                shape = shape0
            elif f.shape == (1,) and not (spec.uses(c) & set(spec.indep)):
                shape = rng.choice([(1,), (4,), (3, 2)])
                ctx.tag('broadcast-constant')
            else:
                shape = f.shape
            dv, sv = w.model.dependent_vars[spec.dependent.index(c)], None
            sv = w.model.sigmas[dv]
            ctx.check('dependent-order', dv.name == c, got=dv.name, want=c)
            if c not in alive:
                w.y[c] = None
                w.data[dv], w.data[sv] = None, None
                ctx.tag('none-data')
                continue
            y = np.round(np.broadcast_to(f, shape) + npr.uniform(-1.5, 1.5, shape), 4)
            odd = rng.random()
            if odd < 0.12:
                # a measurement of nothing is a measurement; so are counts
                y = np.zeros(shape)
                ctx.tag('zero-data')
            elif odd < 0.24:
                y = np.round(2 * y).astype(int)
                ctx.tag('integer-data')
            elif odd < 0.3:
                y = y > 0
                y = y.astype(float)
            s = np.round(npr.uniform(0.3, 2.0, shape), 4) if rng.random() < 0.7 else np.ones(shape)
            w.y[c], w.s[c] = y, s
            w.data[dv], w.data[sv] = y, s
    elif rng.random() < 0.5:
        for dv in w.model.dependent_vars:
            w.data[dv] = None
            w.data[w.model.sigmas[dv]] = None
    w.objective = {'ls': LeastSquares, 'vec': VectorLeastSquares, 'll': LogLikelihood, 'min': MinimizeModel}[kind](
        w.model, w.data)
    w.alive = [c for c in spec.dependent if w.y.get(c) is not None]
    ctx.describe(kind=kind, model=spec.text(), values=w.values, fixed=w.fixed, indep=w.indep_env, y=w.y, sigma=w.s)
    ctx.tag('kind:' + kind, 'fixed:%d' % len(w.fixed), 'dependent:%d' % len(spec.dependent),
            'levels:%d' % max(spec.levels().values()))
    return w


def objective_jet(w, jets=None):
    """The objective as a second order jet, from its definition."""
    jets = jets or w.jets
    if w.kind == 'ls':
        total = Jet(0.0)
        for c in w.alive:
            r = (jets[c].broadcast(w.y[c].shape) - w.y[c]) * (1 / w.s[c])
            total = total + (r * r).broadcast(w.y[c].shape).sum()
        return total * 0.5
    if w.kind == 'vec':
        total = Jet(0.0)
        for c in w.alive:
            r = (jets[c].broadcast(w.y[c].shape) - w.y[c]) * (1 / w.s[c])
            total = total + r * r
        shape = w.y[w.alive[0]].shape
        total = total.broadcast(shape)
        root = np.sqrt(total.v)
        with np.errstate(all='ignore'):
            return total.lift(root, 0.5 / root, -0.25 / root ** 3).broadcast(shape)
    if w.kind == 'll':
        total = Jet(0.0)
        for c in w.spec.dependent:
            j = jets[c]
            total = total + j.lift(np.log(j.v), 1 / j.v, -1 / j.v ** 2).broadcast(j.v.shape).sum()
        return -total
    return jets[w.spec.dependent[0]]


def tol_of(w):
    return 1e-9 + 1e-11 * w.mag ** 2 / min([1.0] + [float(np.min(s)) for s in w.s.values()]) ** 2


def call_styles(ctx, w):
    rng = ctx.rng
    ordered = [w.values[p] for p in w.free]
    yield 'ordered', (ordered,), {}
    yield 'array', (np.array(ordered),), {}
    yield 'named', (), {p: w.values[p] for p in gen.shuffled(rng, w.free)}
    k = rng.randint(0, len(ordered))
    yield 'mixed', (ordered[:k],), {p: w.values[p] for p in w.free[k:]}
    if rng.random() < 0.5:
        yield 'all-named', (), dict(w.values)


def case(ctx):
    rng = ctx.rng
    kind = rng.choice(['ls', 'ls', 'ls', 'vec', 'll', 'min'])
    w = workload(ctx, kind)
    want = objective_jet(w).v
    tol = tol_of(w)
    if kind == 'll':
        tol += 1e-9 * w.mag
    for style, args, kw in call_styles(ctx, w):
        got = w.objective(*args, **kw)
        if kind == 'vec':
            ctx.close('value-vector', got, want.ravel(), rtol=1e-9, atol=tol, style=style)
            keep = w.objective(*args, flatten_components=False, **kw)
            ctx.close('value-vector-shaped', keep, want, rtol=1e-9, atol=tol, style=style)
        elif kind == 'min':
            ctx.close('value', np.squeeze(got), np.squeeze(want), rtol=1e-9, atol=tol, style=style)
        else:
            ctx.check('scalar', np.ndim(got) == 0, got=got)
            ctx.close('value', got, want, rtol=1e-9, atol=tol, style=style)
    if kind == 'ls':
        comps = w.objective([w.values[p] for p in w.free], flatten_components=False)
        one = dict(w.__dict__)
        for i, c in enumerate(w.spec.dependent):
            v = Work()
            v.__dict__.update(one)
            v.alive = [c] if c in w.alive else []
            ctx.close('value-per-component', np.asarray(comps)[i], objective_jet(v).v, rtol=1e-9, atol=tol, component=c)
    # another point, after which the first is evaluated again
    env2 = dict(w.env)
    for p in w.free:
        env2[p] = w.values[p] * 0.8 + 0.1
    jets2 = w.spec.jets(env2)
    if np.isfinite(Track.m) and Track.m < 1e4:
        want2 = objective_jet(w, jets2).v
        got2 = w.objective([env2[p] for p in w.free])
        ctx.close('second-point', np.ravel(got2), np.ravel(want2), rtol=1e-9, atol=tol + 1e-10 * Track.m ** 2)
        got = w.objective([w.values[p] for p in w.free])
        ctx.close('first-point-again', np.ravel(got), np.ravel(want), rtol=1e-9, atol=tol)
