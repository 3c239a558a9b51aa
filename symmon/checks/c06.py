"""C06: gradients and Hessians of objectives."""
import numpy as np

from .. import gen
from ..jet import Track
from .c05 import workload, objective_jet, tol_of, call_styles


def case(ctx):
    rng = ctx.rng
    kind = rng.choice(['ls', 'ls', 'ls', 'vec', 'll', 'min'])
    w = workload(ctx, kind)
    judge(ctx, w, w.jets, '', list(call_styles(ctx, w)))
    env2 = dict(w.env)
    for p in w.free:
        env2[p] = w.values[p] * 0.8 + 0.1
    jets2 = w.spec.jets(env2)
    if np.isfinite(Track.m) and Track.m < 1e4:
        w.mag = max(w.mag, Track.m)
        judge(ctx, w, jets2, 'second-', [('ordered', ([env2[p] for p in w.free],), {})])


def judge(ctx, w, jets, prefix, styles):
    rng = ctx.rng
    n = len(w.spec.params)
    obj = objective_jet(w, jets)
    grad, hess = obj.grad(n), obj.hess(n)
    tol = 10 * tol_of(w) * max(1.0, w.mag)
    if w.kind == 'll':
        low = min(float(np.min(jets[c].v)) for c in w.spec.dependent)
        tol += 1e-10 * w.mag ** 2 / low ** 2
    for style, args, kw in rng.sample(styles, min(2, len(styles))):
        got = w.objective.eval_jacobian(*args, **kw)
        if w.kind == 'vec':
            # absolute residuals have no derivative where they vanish
            root = obj.v.ravel()
            ok = root > 1e-3
            want = grad.reshape(n, -1).T
            g = np.asarray(got)
            if ctx.check(prefix + 'residual-jacobian-shape', g.shape == want.shape, got=g.shape, want=want.shape):
                ctx.close(prefix + 'residual-jacobian', g[ok], want[ok], rtol=1e-7, atol=1e4 * tol, style=style)
            continue
        if w.kind == 'min':
            ctx.close(prefix + 'gradient', got, grad, rtol=1e-8, atol=tol, style=style)
        else:
            ctx.close(prefix + 'gradient', got, grad, rtol=1e-8, atol=tol, style=style)
        H = w.objective.eval_hessian(*args, **kw)
        ctx.close(prefix + 'hessian', H, hess, rtol=1e-8, atol=tol * 10, style=style)
        H = np.asarray(H)
        if H.ndim >= 2 and H.shape[0] == H.shape[1]:
            ctx.close(prefix + 'symmetric', H, np.swapaxes(H, 0, 1), rtol=1e-8, atol=tol * 10)
        else:
            ctx.check(prefix + 'symmetric', False, shape=H.shape)
