"""Fit problems with an independently known optimum."""
import itertools

import numpy as np

from . import gen, expr as E
from .core import Skip, Inconclusive
from .gen import Spec
from .jet import Jet, Track

c_, s_ = (lambda v: ('c', v)), (lambda n: ('s', n))


def add(*a):
    return a[0] if len(a) == 1 else ('+',) + a


def mul(*a):
    return ('*',) + a


def fun(f, a):
    return ('f', f, a)


BASIS = [lambda x: c_(1.0), lambda x: s_(x), lambda x: ('^', s_(x), 2), lambda x: fun('sin', s_(x)),
         lambda x: fun('cos', mul(c_(1.5), s_(x))), lambda x: fun('atan', s_(x)),
         lambda x: fun('exp', mul(c_(-0.5), s_(x))), lambda x: ('/', s_(x), add(c_(1.0), ('^', s_(x), 2)))]


class Prob(object):
    """Least squares problem.  y[c] None: left out.  s[c] None: no sigma given."""

    def f(self, values):
        return self.spec.values(dict(self.indep, **values))

    def jets(self, values, wrt=None):
        return self.spec.jets(dict(self.indep, **values), wrt)

    @property
    def free(self):
        return [p for p in self.spec.params if p not in self.fixed]

    @property
    def alive(self):
        return [c for c in self.spec.dependent if self.y[c] is not None]

    def sig(self, c):
        return np.ones(self.y[c].shape) if self.s.get(c) is None else np.broadcast_to(self.s[c], self.y[c].shape)

    def full(self, values):
        out = {p: self.start[p] for p in self.fixed}
        out.update(values)
        return out

    def S(self, values):
        f = self.f(self.full(values))
        return 0.5 * sum(np.sum(((np.broadcast_to(f[c], self.y[c].shape) - self.y[c]) / self.sig(c)) ** 2) for c in self.alive)

    def expand(self, values, wrt=None):
        """value, gradient, Hessian, Gauss-Newton matrix of S in `wrt` (default the free parameters)."""
        wrt = self.free if wrt is None else wrt
        jets = self.jets(self.full(values), wrt)
        n = len(wrt)
        v, g, H, G = 0.0, np.zeros(n), np.zeros((n, n)), np.zeros((n, n))
        for c in self.alive:
            j = jets[c].broadcast(self.y[c].shape)
            w = (1 / self.sig(c) ** 2).ravel()
            r = (j.v - self.y[c]).ravel()
            J = j.grad(n).reshape(n, -1)
            h = j.hess(n).reshape(n, n, -1)
            v += 0.5 * np.sum(w * r * r)
            g += J @ (w * r)
            gn = (J * w) @ J.T
            G += gn
            H += gn + h @ (w * r)
        return v, g, H, G

    def npoints(self):
        return sum(self.y[c].size for c in self.alive)

    def solve(self, start=None, iters=60):
        """Local optimum from `start` by damped Newton / Gauss-Newton, as dict of the free parameters."""
        x = np.array([(start or self.truth)[p] for p in self.free], dtype=float)
        lam = 0.0
        v, g, H, G = self.expand(dict(zip(self.free, x)))
        for _ in range(iters):
            with np.errstate(all='ignore'):
                ok = np.all(np.linalg.eigvalsh(H) > 1e-9 * np.max(np.abs(H))) if np.all(np.isfinite(H)) else False
            M = H if ok else G
            if not np.all(np.isfinite(M)):
                raise Skip('no optimum')
            try:
                step = -np.linalg.solve(M + lam * np.diag(np.diag(M)), g)
            except np.linalg.LinAlgError:
                raise Skip('singular')
            new = self.expand(dict(zip(self.free, x + step)))
            if new[0] <= v + 1e-13 * (1 + abs(v)):
                x = x + step
                small = np.max(np.abs(step) / (1 + np.abs(x))) < 1e-12
                v, g, H, G = new
                lam = 0.0 if lam < 1e-6 else lam / 5
                if small:
                    break
            else:
                lam = max(lam * 5, 1e-3)
                if lam > 1e6:
                    break
        scale = np.sqrt(np.diag(np.abs(G)) + 1e-300)
        if np.max(np.abs(g) / scale) > 1e-5 * np.sqrt(1 + 2 * v):
            raise Skip('oracle did not converge')
        eig = np.linalg.eigvalsh(H / np.outer(scale, scale))
        if eig[0] < 1e-4:
            raise Skip('badly determined')
        self.cond = eig[-1] / eig[0]
        return dict(zip(self.free, x)), v, H, G

    # -- symfit side ------------------------------------------------------------
    def symbols(self):
        attrs = {}
        for p in self.spec.params:
            attrs[p] = {}
            if p in self.fixed:
                attrs[p]['fixed'] = True
            lo, hi = self.bounds.get(p, (None, None))
            if lo is not None:
                attrs[p]['min'] = lo
            if hi is not None:
                attrs[p]['max'] = hi
        return self.spec.symbols(values=self.start, **attrs)

    def data(self):
        d = {v: np.array(a) for v, a in self.indep.items()}
        for c in self.spec.dependent:
            d[c] = None if self.y[c] is None else np.array(self.y[c])
            if self.s.get(c) is not None:
                d['sigma_' + c] = self.s[c] if np.isscalar(self.s[c]) else np.array(self.s[c])
        return d

    def build(self, ctx, syms=None, cls=None):
        from symfit import Model
        syms = syms or self.symbols()
        return (cls or Model)(self.spec.model_dict(syms, gen.shuffled(ctx.rng, self.spec.comps))), syms

    def text(self):
        return dict(model=self.spec.text(), start=self.start, fixed=self.fixed, bounds=self.bounds, indep=self.indep,
                    y=self.y, sigma=self.s)


def linear_comp(rng, x, ps):
    terms = []
    for b, p in zip(rng.sample(BASIS if len(ps) > 1 else BASIS[1:], len(ps)), ps):
        node = b(x)
        terms.append(s_(p) if node == c_(1.0) else mul(s_(p), node))
    return add(*terms)


def nonlinear_comp(rng, x, P):
    """(node, truth) with up to three of the parameters P."""
    kind = rng.choice(['exp', 'gauss', 'sin', 'ratio', 'tanh', 'power'])
    X = s_(x)
    pos = lambda lo, hi: round(rng.uniform(lo, hi), 3)
    if kind == 'exp':
        a, k = P[0], P[1]
        node, truth = mul(s_(a), fun('exp', mul(('-', s_(k)), X))), {a: pos(1, 3), k: pos(0.3, 0.9)}
        if len(P) > 2:
            node = add(node, s_(P[2]))
            truth[P[2]] = pos(-1, 1)
    elif kind == 'gauss':
        a, m = P[0], P[1]
        z = add(X, ('-', s_(m)))
        if len(P) > 2:
            node = mul(s_(a), fun('exp', ('-', ('/', ('^', z, 2), mul(c_(2.0), ('^', s_(P[2]), 2))))))
            truth = {a: pos(1, 3), m: pos(-0.5, 0.5), P[2]: pos(0.7, 1.2)}
        else:
            node = mul(s_(a), fun('exp', mul(c_(-0.5), ('^', z, 2))))
            truth = {a: pos(1, 3), m: pos(-0.5, 0.5)}
    elif kind == 'sin':
        a, w = P[0], P[1]
        arg = mul(s_(w), X) if len(P) < 3 else add(mul(s_(w), X), s_(P[2]))
        node, truth = mul(s_(a), fun('sin', arg)), {a: pos(1, 3), w: pos(0.8, 1.3)}
        if len(P) > 2:
            truth[P[2]] = pos(-0.5, 0.5)
    elif kind == 'ratio':
        a, k = P[0], P[1]
        node = ('/', s_(a), add(c_(1.0), mul(s_(k), ('^', X, 2))))
        truth = {a: pos(1, 3), k: pos(0.4, 1.2)}
        if len(P) > 2:
            node = add(node, mul(s_(P[2]), X))
            truth[P[2]] = pos(-1, 1)
    elif kind == 'tanh':
        a, k = P[0], P[1]
        node, truth = mul(s_(a), fun('tanh', mul(s_(k), X))), {a: pos(1, 3), k: pos(0.5, 1.2)}
        if len(P) > 2:
            node = add(node, s_(P[2]))
            truth[P[2]] = pos(-1, 1)
    else:
        a, k = P[0], P[1]
        node, truth = add(mul(s_(a), X), mul(('^', s_(k), 2), ('^', X, 2))), {a: pos(0.5, 2), k: pos(0.5, 1.2)}
        if len(P) > 2:
            node = add(node, s_(P[2]))
            truth[P[2]] = pos(-1, 1)
    return kind, node, truth


def ls_problem(ctx, kind=None, n_comp=None, interdep=None, noise=None, sigma=None, none_ok=True, npts=None,
               share=None, fixed_p=0.0, ragged=None, separate=False):
    """Random well-posed least-squares problem.

    kind 'lin': linear in the parameters; 'nonlin': smooth nonlinear, started near the truth.
    """
    rng, npr = ctx.rng, ctx.np
    kind = kind or rng.choice(['lin', 'lin', 'nonlin'])
    n_comp = n_comp or rng.choice([1, 1, 1, 2, 2, 3])
    share = rng.random() < 0.5 if share is None else share
    if separate:
        share = False
    interdep = (rng.random() < 0.25) if interdep is None else interdep
    ragged = (n_comp > 1 and rng.random() < 0.6) if ragged is None else ragged
    pool = gen.names(rng, gen.PARAM_NAMES, 3 * n_comp + 1)
    nv = n_comp if (ragged or separate) else 1
    V = gen.names(rng, gen.VAR_NAMES, nv, pool)
    C = gen.names(rng, gen.COMP_NAMES, 2 * n_comp, pool + V)
    comps, truth, used = {}, {}, []
    for k in range(n_comp):
        x = V[k % nv]
        if share and used and rng.random() < 0.7:
            keep = rng.sample(used, min(len(used), 1))
        else:
            keep = []
        fresh = [p for p in pool if p not in used]
        if kind == 'lin':
            ps = (keep + fresh)[:rng.choice([1, 2, 2, 3])]
            ps = gen.shuffled(rng, ps)
            node = linear_comp(rng, x, ps)
            for p in ps:
                truth.setdefault(p, round(rng.choice([-1, 1]) * rng.uniform(0.3, 2.5), 3))
        else:
            ps = (keep[:0] + fresh)[:rng.choice([2, 2, 3])]
            ps = gen.shuffled(rng, ps)
            _, node, t = nonlinear_comp(rng, x, ps)
            truth.update(t)
            if keep:
                node = add(node, mul(s_(keep[0]), rng.choice(BASIS[1:])(x)))
                ps = ps + keep
        used += [p for p in ps if p not in used]
        comps[C[k]] = node
    if interdep:
        # every component gets an intermediate one, so that all dependent ones share a level
        for k in range(n_comp):
            node = comps[C[k]]
            inner = C[n_comp + k]
            x = V[k % nv]
            if rng.random() < 0.5:
                comps[inner] = node
                comps[C[k]] = add(s_(inner), mul(c_(0.5), s_(x)))
            else:
                comps[inner] = add(mul(c_(0.5), s_(x)), c_(1.0))
                comps[C[k]] = add(node, mul(s_(inner), s_(used[0]) if kind == 'lin' else c_(0.3)))
    order = gen.shuffled(rng, comps)
    spec = Spec(V, sorted(truth), {c: comps[c] for c in order})
    npar = len(truth)
    pr = Prob()
    pr.kind, pr.spec, pr.truth = kind, spec, truth
    pr.fixed, pr.bounds = [], {}
    lo = max(npar + 3, 6)
    pr.indep = {}
    n0 = npts or rng.randint(lo, lo + 8)
    for i, v in enumerate(V):
        n = n0 if not (ragged or separate) else n0 + (i if not npts else 0) + rng.choice([0, 0, 1, 3])
        pr.indep[v] = np.round(np.linspace(-1.5, 2.0, n) + npr.uniform(-0.08, 0.08, n), 4)
    f = pr.f(truth)
    noise = rng.choice([0.0, 0.02, 0.1, 0.3]) if noise is None else noise
    pr.y, pr.s = {}, {}
    sigma = sigma or rng.choice(['none', 'none', 'array', 'array', 'scalar', 'some'])
    for c in spec.dependent:
        v = f[c]
        pr.y[c] = np.round(v + noise * npr.normal(size=v.shape), 5)
        how = sigma if sigma != 'some' else rng.choice(['none', 'array', 'scalar'])
        if how == 'array':
            pr.s[c] = np.round(npr.uniform(0.3, 1.5, v.shape), 3)
        elif how == 'scalar':
            pr.s[c] = round(rng.uniform(0.3, 2.0), 3)
        else:
            pr.s[c] = None
    if none_ok and len(spec.dependent) > 1 and rng.random() < 0.2:
        gone = rng.choice(spec.dependent)
        pr.y[gone], pr.s[gone] = None, None
        if set().union(*[spec.uses(c) for c in pr.alive]) < set(truth):
            raise Skip('None data leaves parameters undetermined')
        ctx.tag('none-data')
    for p in spec.params:
        if rng.random() < fixed_p and len(pr.fixed) < npar - 1:
            pr.fixed.append(p)
    pr.start = {}
    for p in spec.params:
        if p in pr.fixed:
            pr.start[p] = round(truth[p] * rng.choice([1.0, 1.05]), 4) if rng.random() < 0.8 or kind == 'nonlin' else 0.0
        elif kind == 'lin':
            pr.start[p] = rng.choice([1.0, 0.0, round(rng.uniform(-2, 2), 3)])
        else:
            pr.start[p] = round(truth[p] * rng.uniform(0.92, 1.08) + rng.uniform(-0.03, 0.03), 4)
    pr.sigma_kind = sigma
    ctx.tag('problem:' + kind, 'components:%d' % n_comp, 'sigma:' + sigma, 'levels:%d' % max(spec.levels().values()))
    return pr


# -- convex oracles -----------------------------------------------------------------

def qp(H, g0, ineq=(), eq=()):
    """min 1/2 x'Hx - g0'x  s.t.  a'x >= b (ineq), a'x = b (eq); H positive definite, by active sets."""
    n = len(g0)
    best = None
    ineq, eq = list(ineq), list(eq)
    for k in range(0, min(n, len(ineq)) + 1):
        for act in itertools.combinations(range(len(ineq)), k):
            rows = [e for e in eq] + [ineq[i] for i in act]
            m = len(rows)
            if m > n:
                continue
            A = np.array([r[0] for r in rows], dtype=float).reshape(m, n)
            b = np.array([r[1] for r in rows], dtype=float)
            K = np.block([[H, -A.T], [A, np.zeros((m, m))]]) if m else H
            rhs = np.concatenate([g0, b]) if m else g0
            try:
                sol = np.linalg.solve(K, rhs)
            except np.linalg.LinAlgError:
                continue
            x, lam = sol[:n], sol[n + len(eq):]
            if any(np.dot(a, x) < c - 1e-9 for a, c in ineq) or np.any(lam < -1e-9):
                continue
            v = 0.5 * x @ H @ x - g0 @ x
            if best is None or v < best[1]:
                best = (x, v)
    return None if best is None else best[0]


def quadratic_form(pr):
    """(H, g0, const): S = 1/2 x'Hx - g0'x + const for a problem linear in its free parameters."""
    zero = {p: 0.0 for p in pr.free}
    v, g, H, G = pr.expand(zero)
    return G, -g, v


def box_rows(pr):
    rows = []
    n = len(pr.free)
    for i, p in enumerate(pr.free):
        lo, hi = pr.bounds.get(p, (None, None))
        e = np.zeros(n)
        e[i] = 1
        if lo is not None:
            rows.append((e, lo))
        if hi is not None:
            rows.append((-e, -hi))
    return rows


# -- minimizers ------------------------------------------------------------------------

def excess(pr, values, best_v):
    """How far above the optimum, relative to the objective's scale."""
    return (pr.S(values) - best_v) / (1.0 + abs(best_v))


# -- likelihoods -------------------------------------------------------------------------

PI2 = 2 * np.pi


class Like(object):
    """Likelihood problem: components are densities of independent data."""

    def f(self, values):
        return self.spec.values(dict(self.indep, **values))

    @property
    def free(self):
        return [p for p in self.spec.params if p not in self.fixed]

    def full(self, values):
        out = {p: self.start[p] for p in self.fixed}
        out.update(values)
        return out

    def logL(self, values):
        f = self.f(self.full(values))
        return sum(np.sum(np.log(f[c])) for c in self.spec.dependent)

    def expand(self, values, wrt=None):
        """value, gradient and Hessian of -log L."""
        from .jet import fn
        wrt = self.free if wrt is None else wrt
        jets = self.spec.jets(dict(self.indep, **self.full(values)), wrt)
        n = len(wrt)
        tot = Jet(0.0)
        for c in self.spec.dependent:
            tot = tot - fn('log', jets[c]).sum()
        return float(tot.v), tot.grad(n).reshape(n), tot.hess(n).reshape(n, n)

    def solve(self):
        x = np.array([self.truth[p] for p in self.free])
        v, g, H = self.expand(dict(zip(self.free, x)))
        for _ in range(80):
            if not np.all(np.isfinite(H)):
                raise Skip('no optimum')
            w, U = np.linalg.eigh(H)
            step = -U @ ((U.T @ g) / np.maximum(np.abs(w), 1e-8))
            t = 1.0
            while t > 1e-8:
                new = self.expand(dict(zip(self.free, x + t * step)))
                if np.isfinite(new[0]) and new[0] <= v + 1e-12 * (1 + abs(v)):
                    break
                t /= 2
            else:
                break
            x = x + t * step
            v, g, H = new
            if np.max(np.abs(step)) < 1e-12:
                break
        if np.max(np.abs(g)) > 1e-5 * np.sqrt(np.max(np.abs(H))) or np.linalg.eigvalsh(H)[0] <= 0:
            raise Skip('likelihood oracle did not converge')
        return dict(zip(self.free, x)), v, H

    def symbols(self):
        attrs = {}
        for p in self.spec.params:
            attrs[p] = {}
            if p in self.fixed:
                attrs[p]['fixed'] = True
            if p in self.lower:
                attrs[p]['min'] = self.lower[p]
        return self.spec.symbols(values=self.start, **attrs)

    def data(self):
        return {v: np.array(a) for v, a in self.indep.items()}

    def build(self, ctx, syms=None, cls=None):
        from symfit import Model
        syms = syms or self.symbols()
        return (cls or Model)(self.spec.model_dict(syms, gen.shuffled(ctx.rng, self.spec.comps))), syms

    def text(self):
        return dict(likelihood=self.kind, model=self.spec.text(), start=self.start, fixed=self.fixed, indep=self.indep)


def like_problem(ctx, fixed_p=0.2, kinds=('exponential', 'gaussian', 'rayleigh', 'mixed', 'interdep', 'mixture')):
    rng, npr = ctx.rng, ctx.np
    kind = rng.choice(list(kinds))
    n = rng.randint(20, 60)
    P = gen.names(rng, gen.PARAM_NAMES, 3)
    V = gen.names(rng, gen.VAR_NAMES, 2, P)
    C = gen.names(rng, gen.COMP_NAMES, 3, P + V)
    x, b = s_(V[0]), s_(P[0])
    pr = Like()
    expo = lambda m, k: np.round(npr.exponential(m, k) + 1e-3, 5)
    comps, data, truth, lower = {}, {}, {}, [P[0]]
    if kind in ('exponential', 'interdep'):
        t = round(rng.uniform(0.7, 3), 3)
        data = {V[0]: expo(t, n)}
        if kind == 'interdep':
            comps = {C[1]: ('/', x, b), C[0]: ('/', fun('exp', ('-', s_(C[1]))), b)}
        else:
            comps = {C[0]: ('/', fun('exp', ('-', ('/', x, b))), b)}
        truth = {P[0]: t}
    elif kind == 'rayleigh':
        t = round(rng.uniform(0.7, 2), 3)
        data = {V[0]: np.round(npr.rayleigh(t, n) + 1e-3, 5)}
        comps = {C[0]: mul(('/', x, ('^', b, 2)), fun('exp', ('-', ('/', ('^', x, 2), mul(c_(2.0), ('^', b, 2))))))}
        truth = {P[0]: t}
    elif kind in ('gaussian', 'mixture'):
        mu, sg = round(rng.uniform(-2, 2), 3), round(rng.uniform(0.5, 2), 3)
        m = s_(P[1])
        data = {V[0]: np.round(npr.normal(mu, sg, n), 5)}
        z = ('/', add(x, ('-', m)), b)
        comps = {C[0]: ('/', fun('exp', mul(c_(-0.5), ('^', z, 2))), mul(b, c_(float(np.sqrt(PI2)))))}
        truth = {P[0]: sg, P[1]: mu}
        if kind == 'mixture':
            w = round(rng.uniform(0.3, 0.7), 3)
            far = round(mu + 6 * sg, 3)
            other = ('/', fun('exp', mul(c_(-0.5), ('^', ('/', add(x, c_(-far)), b), 2))), mul(b, c_(float(np.sqrt(PI2)))))
            comps = {C[0]: add(mul(s_(P[2]), comps[C[0]]), mul(add(c_(1.0), ('-', s_(P[2]))), other))}
            pick = npr.uniform(size=n) < w
            pick[:2], pick[2:4] = True, False
            data = {V[0]: np.where(pick, data[V[0]], np.round(npr.normal(far, sg, n), 5))}
            truth[P[2]] = w
    else:
        t = round(rng.uniform(0.7, 2), 3)
        data = {V[0]: expo(t, n), V[1]: expo(t / 2, n // 2)}
        comps = {C[0]: ('/', fun('exp', ('-', ('/', x, b))), b),
                 C[1]: mul(c_(2.0), ('/', fun('exp', mul(c_(-2.0), ('/', s_(V[1]), b))), b))}
        truth = {P[0]: t}
    pr.kind, pr.truth, pr.indep = kind, truth, data
    order = gen.shuffled(rng, comps)
    pr.spec = Spec(sorted(data), sorted(truth), {c: comps[c] for c in order})
    pr.fixed, pr.lower = [], {}
    for p in pr.spec.params:
        if rng.random() < fixed_p and len(pr.fixed) < len(truth) - 1:
            pr.fixed.append(p)
    pr.start = dict(truth)
    best, _, _ = pr.solve()
    for p in pr.free:
        if p == P[0]:
            pr.start[p] = round(best[p] * rng.uniform(0.85, 1.3), 4)
            pr.lower[p] = round(0.4 * best[p], 4)
        else:
            pr.start[p] = round(best[p] + rng.uniform(-0.05, 0.05), 4)
    ctx.tag('likelihood:' + kind)
    return pr


def convex_problem(ctx, n=None):
    """Convex quadratic (+ quartic) in n parameters as a one-component Spec without independents."""
    rng, npr = ctx.rng, ctx.np
    n = n or rng.randint(1, 4)
    P = sorted(gen.names(rng, gen.PARAM_NAMES, n))
    C = gen.names(rng, gen.COMP_NAMES, 1, P)
    A = npr.normal(size=(n, n))
    H = np.round(A @ A.T + 0.7 * np.eye(n), 3)
    H = (H + H.T) / 2
    cen = np.round(npr.uniform(-2, 2, n), 3)
    off = round(rng.uniform(-3, 3), 2)
    d = [add(s_(p), c_(float(-k))) for p, k in zip(P, cen)]
    terms = [c_(off)]
    for i in range(n):
        for j in range(n):
            terms.append(mul(c_(float(0.5 * H[i, j])), d[i], d[j]))
    quart = rng.random() < 0.3
    if quart:
        terms += [mul(c_(0.1), ('^', k, 4)) for k in d]
    spec = Spec([], P, {C[0]: add(*terms)})
    return spec, H, dict(zip(P, cen.tolist())), off, quart


# -- what scipy makes of the same problem ------------------------------------------------

SCIPY = {'LBFGSB': 'L-BFGS-B', 'BFGS': 'BFGS', 'SLSQP': 'SLSQP', 'NelderMead': 'Nelder-Mead', 'Powell': 'Powell',
         'TrustConstr': 'trust-constr', 'COBYLA': 'COBYLA'}


def scipy_struggles(names, fun, grad, x0s, bounds, best_v, tol, cons=(), hess=None):
    """Does scipy alone, given the true functions, also stop away from the optimum?

    `x0s`: starting points, usually the start and the reported optimum.  Only consulted when a fit did not reach the known optimum, to separate weaknesses of
    the numerical algorithm (inconclusive) from symfit handing over another problem.
    """
    from scipy.optimize import minimize
    import warnings
    for name in names:
        if name not in SCIPY:
            continue
        for jac, tight in ((grad, True), (None, True), (grad, False), (None, False)):
            kw = dict(method=SCIPY[name], tol=1e-9) if tight else dict(method=SCIPY[name])
            if jac is not None and name in ('LBFGSB', 'BFGS', 'SLSQP', 'TrustConstr'):
                kw['jac'] = jac
            if name in ('LBFGSB', 'SLSQP', 'TrustConstr') and bounds is not None:
                kw['bounds'] = bounds
            if name in ('SLSQP', 'COBYLA', 'TrustConstr') and cons:
                kw['constraints'] = cons
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    res = [minimize(fun, np.asarray(x, dtype=float), **kw) for x in x0s]
            except Exception:
                return True
            for r in res:
                v = float(np.ravel(r.fun)[0])
                if not v - best_v <= tol * (1 + abs(best_v)) or not r.success:
                    return True
    return False


def struggles(pr, names, best_v, tol, found=None):
    """scipy_struggles for a least-squares or likelihood problem."""
    free = pr.free
    env = lambda x: dict(zip(free, x))
    bounds = None
    if getattr(pr, 'bounds', None):
        bounds = [pr.bounds.get(p, (None, None)) for p in free]
    elif getattr(pr, 'lower', None):
        bounds = [(pr.lower.get(p), None) for p in free]
    return scipy_struggles(names, lambda x: pr.expand(env(x))[0], lambda x: pr.expand(env(x))[1],
                           [[v[p] for p in free] for v in (pr.start, found) if v is not None], bounds, best_v, tol)


def second_chance(rng, syms, free, bounds, start, found, run, value, limit):
    """Does the same fit reach the optimum from another start?  Then missing it once was bad luck of the algorithm.

    `run()` makes and executes the same fit anew; `value(result)` its objective.  Consulted only for fits which stopped above the optimum.
    """
    keep = {p: syms[p].value for p in free}
    try:
        for k in range(3):
            for p in free:
                lo, hi = bounds.get(p, (None, None))
                v = 0.5 * (start[p] + found[p]) if k == 0 else found[p] + rng.uniform(-0.3, 0.3)
                if lo is not None:
                    v = max(v, lo)
                if hi is not None:
                    v = min(v, hi)
                syms[p].value = float(v)
            if value(run()) <= limit:
                return True
    except Exception:
        return False
    finally:
        for p in free:
            syms[p].value = keep[p]
    return False
