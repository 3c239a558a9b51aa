"""C02: analytical Jacobians (C03 shares the workload)."""
import numpy as np
import sympy
from symfit import Model, GradientModel, D
from symfit.core.models import HessianModel

from .. import gen, expr as E
from ..core import Skip


def workload(ctx, hess=False):
    rng = ctx.rng
    n_comp = rng.choice([1, 1, 2, 3, 4])
    ragged = n_comp > 1 and rng.random() < 0.12
    spec = gen.rand_spec(rng, n_comp=n_comp, n_indep=n_comp if ragged else rng.choice([0, 1, 1, 2]), own_indep=ragged,
                         n_param=rng.choice([1, 2, 2, 3]) if hess else rng.choice([1, 2, 3, 4, 5]),
                         depth=rng.choice([1, 2, 2] if hess else [1, 2, 3]),
                         dep_prob=0 if ragged else rng.choice([0, 0.5, 0.8, 1.0]))
    if not spec.params:
        raise Skip('no parameters')
    env, pattern = gen.rand_shape_values(ctx, spec.indep, 'ragged' if ragged else rng.choice(
        ['scalar', 'vec', 'vec', 'grid', 'mixed', '2d', 'one', 'int'] + ['grid'] * (5 if len(spec.indep) > 1 else 0)) if spec.indep else 'scalar')
    for p in spec.params:
        env[p] = gen.rand_param_value(rng)
    lev = max(spec.levels().values())
    ctx.describe(model=spec.text(), point=env, levels=lev)
    ctx.tag('levels:%d' % lev, 'components:%d' % n_comp)
    jets = spec.jets(env)
    tol = gen.tol()
    return spec, env, pattern, jets, tol


def case(ctx):
    rng = ctx.rng
    spec, env, pattern, jets, tol = workload(ctx)
    syms = spec.symbols()
    model = rng.choice([Model, GradientModel, HessianModel])(spec.model_dict(syms, gen.shuffled(rng, spec.comps)))
    n = len(spec.params)
    args = spec.indep + spec.params
    if rng.random() < 0.5:
        jac = model.eval_jacobian(*[env[a] for a in args])
    else:
        jac = model.eval_jacobian(**env)
    ctx.check('length', len(jac) == len(spec.names))
    out = model(**env)
    for i, c in enumerate(spec.names):
        want = jets[c].grad(n)
        ctx.close('jacobian', jac[i], want, rtol=1e-9, atol=tol, component=c)
        ctx.close('jacobian-by-name', getattr(jac, c), want, rtol=1e-9, atol=tol, component=c)
        ctx.check('shape-of-component', np.shape(jac[i])[1:] == np.shape(out[i]), got=np.shape(jac[i]), comp=np.shape(out[i]))
        unused = [k for k, p in enumerate(spec.params) if p not in spec.uses(c)]
        ctx.check('zero-where-independent', not np.any(np.asarray(jac[i])[unused]), component=c)
    # another point: no state may be left from the first
    env2 = dict(env)
    for p in spec.params:
        env2[p] = env[p] * 0.7 + 0.15
    jets2 = spec.jets(env2)
    tol2 = gen.tol()
    jac2 = model.eval_jacobian(**env2)
    for i, c in enumerate(spec.names):
        ctx.close('second-point', jac2[i], jets2[c].grad(n), rtol=1e-9, atol=tol2, component=c)
    # the symbolic Jacobian, evaluated by plain sympy substitution
    if pattern == 'scalar':
        sj = model.jacobian
        ctx.check('symbolic-shape', len(sj) == len(spec.names) and all(len(r) == n for r in sj))
        sub = {syms[a]: float(env[a]) for a in args}
        sub.update({syms[c]: float(jets[c].v.ravel()[0]) for c in spec.names})
        ders = {}
        for c in spec.names:
            for k, p in enumerate(spec.params):
                ders[D(syms[c], syms[p])] = sympy.Float(float(jets[c].grad(n)[k].ravel()[0]))
        for i, c in enumerate(spec.names):
            for k, p in enumerate(spec.params):
                ex = sympy.sympify(sj[i][k]).xreplace(ders)
                val = float(ex.xreplace({s: sympy.Float(v) for s, v in sub.items()}).evalf())
                ctx.close('symbolic-jacobian', val, jets[c].grad(n)[k].ravel()[0], rtol=1e-7, atol=100 * tol,
                          component=c, param=p)
