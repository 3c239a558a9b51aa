"""C03: analytical Hessians."""
import numpy as np
import sympy
from symfit import Model
from symfit.core.models import HessianModel

from .. import gen
from .c02 import workload


def case(ctx):
    rng = ctx.rng
    spec, env, pattern, jets, tol = workload(ctx, hess=True)
    syms = spec.symbols()
    model = rng.choice([Model, HessianModel])(spec.model_dict(syms, gen.shuffled(rng, spec.comps)))
    n = len(spec.params)
    args = spec.indep + spec.params
    if rng.random() < 0.5:
        hess = model.eval_hessian(*[env[a] for a in args])
    else:
        hess = model.eval_hessian(**env)
    ctx.check('length', len(hess) == len(spec.names))
    out = model(**env)
    for i, c in enumerate(spec.names):
        want = jets[c].hess(n)
        ctx.close('hessian', hess[i], want, rtol=1e-9, atol=tol, component=c)
        ctx.close('hessian-by-name', getattr(hess, c), want, rtol=1e-9, atol=tol, component=c)
        ctx.check('shape-of-component', np.shape(hess[i])[2:] == np.shape(out[i]), got=np.shape(hess[i]))
        h = np.asarray(hess[i], dtype=float)
        if h.ndim >= 2 and h.shape[0] == h.shape[1]:
            ctx.close('symmetric', h, np.swapaxes(h, 0, 1), rtol=1e-9, atol=tol, component=c)
            unused = [k for k, p in enumerate(spec.params) if p not in spec.uses(c)]
            ctx.check('zero-where-independent', not np.any(h[unused]) and not np.any(h[:, unused]), component=c)
    env2 = dict(env)
    for p in spec.params:
        env2[p] = env[p] * 0.7 + 0.15
    jets2 = spec.jets(env2)
    tol2 = gen.tol()
    hess2 = model.eval_hessian(**env2)
    jac2 = model.eval_jacobian(**env2)
    for i, c in enumerate(spec.names):
        ctx.close('second-point', hess2[i], jets2[c].hess(n), rtol=1e-9, atol=tol2, component=c)
        ctx.close('jacobian-after-hessian', jac2[i], jets2[c].grad(n), rtol=1e-9, atol=tol2, component=c)
    if pattern == 'scalar' and not spec.interdep and len(spec.comps) == 1:
        sh = model.hessian
        sub = {syms[a]: sympy.Float(float(env[a])) for a in args}
        for i, c in enumerate(spec.names):
            for k in range(n):
                for l in range(n):
                    val = float(sympy.sympify(sh[i][k][l]).xreplace(sub).evalf())
                    ctx.close('symbolic-hessian', val, jets[c].hess(n)[k, l].ravel()[0], rtol=1e-7, atol=100 * tol)
