"""Initial value problems with closed-form solutions."""
import numpy as np

from . import gen


class Problem(object):
    """kind, model_dict, initial, tname, params (sorted), deps (sorted), values, t0."""

    def times(self, ctx, n=None):
        rng = ctx.rng
        n = n or rng.randint(1, 7)
        lo, hi = rng.choice([(0.0, 2.0), (-1.0, 2.0), (-1.2, 0.0), (0.1, 1.5), (0.0, 1.0)])
        t = self.t0 + np.round(ctx.np.uniform(lo, hi, n), 4)
        if rng.random() < 0.4 and n > 1:
            t[rng.randrange(n)] = self.t0
        if rng.random() < 0.7:
            t = np.sort(t)
        return t

    def jacobian(self, t, env):
        """Derivative of the closed form in every parameter (complex step)."""
        out = {c: np.zeros((len(self.params), len(t))) for c in self.deps}
        for k, p in enumerate(self.params):
            e = dict(env)
            e[p] = env[p] + 1e-30j
            sol = self.solution(t, e)
            for c in self.deps:
                out[c][k] = np.imag(np.broadcast_to(sol[c], np.shape(t))) / 1e-30
        return out


def ode_problem(ctx, kind=None, param_initial=None, fixed_initial=False):
    from symfit import Parameter, Variable, D
    from sympy import cos
    rng = ctx.rng
    kind = kind or rng.choice(['decay', 'logistic', 'chain', 'oscillator', 'driven', 'power', 'chain3'])
    pr = Problem()
    pr.kind = kind
    pr.t0 = rng.choice([0.0, 0.0, 0.5, -1.0, 2.0])
    pn = gen.names(rng, ['k', 'a', 'b', 'a10', 'a2', 'tau', 'K_1', 'Ab', 'w', 'gamma'], 3)
    init_p = gen.names(rng, ['y0', 'c', 'Z0', 'a0', 'b_0', 'zz', 'A0'], 3, pn)
    tn = rng.choice(['t', 'x', 'time', 'zt'])
    dn = gen.names(rng, ['y', 'u', 'Y', 'v1', 'v10', 'v2', 'f', 'aa', 'zy'], 3, pn + init_p)
    if param_initial is None:
        param_initial = rng.random() < 0.5
    t = Variable(tn)
    pos = lambda: round(rng.uniform(0.3, 1.4), 3)
    P = {}
    I = []

    def initial(j, value=None):
        """Initial value of dependent variable j: number or parameter."""
        v = value if value is not None else round(rng.choice([1, 1, -1]) * rng.uniform(0.4, 1.6), 3)
        if param_initial and (j == 0 or rng.random() < 0.5):
            P[init_p[j]] = v
            return Parameter(init_p[j], value=v, fixed=fixed_initial), (lambda e: e[init_p[j]])
        return v, (lambda e: v)
    ys = [Variable(n) for n in dn]
    t0 = pr.t0

    def par(i):
        P[pn[i]] = P.get(pn[i], pos())
        return Parameter(pn[i], value=P[pn[i]])
    if kind == 'decay':
        a = par(0)
        y0, f0 = initial(0)
        pr.model_dict = {D(ys[0], t): -a * ys[0]}
        init = {ys[0]: y0}
        sol = lambda s, e: {dn[0]: f0(e) * np.exp(-e[pn[0]] * s)}
        deps = dn[:1]
    elif kind == 'logistic':
        a, b = par(0), par(1)
        y0, f0 = initial(0, round(rng.uniform(0.3, 0.9), 3))
        pr.model_dict = {D(ys[0], t): a * ys[0] * (1 - ys[0] / (b + 1))}
        init = {ys[0]: y0}

        def sol(s, e):
            K = e[pn[1]] + 1
            return {dn[0]: K / (1 + (K / f0(e) - 1) * np.exp(-e[pn[0]] * s))}
        deps = dn[:1]
    elif kind == 'chain':
        P[pn[0]], P[pn[1]] = round(rng.uniform(0.3, 0.8), 3), round(rng.uniform(1.0, 1.6), 3)
        a, b = par(0), par(1)
        y0, f0 = initial(0)
        y1, f1 = initial(1)
        pr.model_dict = {D(ys[0], t): -a * ys[0], D(ys[1], t): a * ys[0] - b * ys[1]}
        init = {ys[0]: y0, ys[1]: y1}

        def sol(s, e):
            A, B = e[pn[0]], e[pn[1]]
            return {dn[0]: f0(e) * np.exp(-A * s),
                    dn[1]: f0(e) * A / (B - A) * (np.exp(-A * s) - np.exp(-B * s)) + f1(e) * np.exp(-B * s)}
        deps = dn[:2]
    elif kind == 'chain3':
        P[pn[0]], P[pn[1]] = round(rng.uniform(0.3, 0.8), 3), round(rng.uniform(1.0, 1.6), 3)
        a, b = par(0), par(1)
        y0, f0 = initial(0)
        y1, f1 = initial(1)
        y2, f2 = initial(2)
        pr.model_dict = {D(ys[0], t): -a * ys[0], D(ys[1], t): a * ys[0] - b * ys[1], D(ys[2], t): b * ys[1]}
        init = {ys[0]: y0, ys[1]: y1, ys[2]: y2}

        def sol(s, e):
            A, B = e[pn[0]], e[pn[1]]
            u = f0(e) * np.exp(-A * s)
            v = f0(e) * A / (B - A) * (np.exp(-A * s) - np.exp(-B * s)) + f1(e) * np.exp(-B * s)
            return {dn[0]: u, dn[1]: v, dn[2]: f0(e) + f1(e) + f2(e) - u - v}
        deps = dn[:3]
    elif kind == 'oscillator':
        a = par(0)
        y0, f0 = initial(0)
        y1, f1 = initial(1)
        pr.model_dict = {D(ys[0], t): ys[1], D(ys[1], t): -a ** 2 * ys[0]}
        init = {ys[0]: y0, ys[1]: y1}

        def sol(s, e):
            w = e[pn[0]]
            return {dn[0]: f0(e) * np.cos(w * s) + f1(e) / w * np.sin(w * s),
                    dn[1]: f1(e) * np.cos(w * s) - f0(e) * w * np.sin(w * s)}
        deps = dn[:2]
    elif kind == 'driven':      # explicit time dependence
        a, b = par(0), par(1)
        y0, f0 = initial(0)
        pr.model_dict = {D(ys[0], t): a * cos(t) + b}
        init = {ys[0]: y0}

        def sol(s, e):
            return {dn[0]: f0(e) + e[pn[0]] * (np.sin(t0 + s) - np.sin(t0)) + e[pn[1]] * s}
        deps = dn[:1]
    else:                       # power: y' = a t^2
        a = par(0)
        y0, f0 = initial(0)
        pr.model_dict = {D(ys[0], t): a * t ** 2 * ys[0]}
        init = {ys[0]: y0}

        def sol(s, e):
            return {dn[0]: f0(e) * np.exp(e[pn[0]] * ((t0 + s) ** 3 - t0 ** 3) / 3)}
        deps = dn[:1]
    init[t] = t0
    items = list(init.items())
    rng.shuffle(items)
    pr.initial = dict(items)
    mitems = list(pr.model_dict.items())
    rng.shuffle(mitems)
    pr.model_dict = dict(mitems)
    pr.solution = lambda tt, e: sol(np.asarray(tt) - t0, e)
    pr.tname, pr.t = tn, t
    pr.params = sorted(P)
    pr.values = dict(P)
    pr.deps = sorted(deps)
    pr.vars = {n: v for n, v in zip(dn, ys)}
    pr.pnames = pn
    return pr
