"""C25: models written with matrix symbols."""
import warnings

import numpy as np
import sympy
from sympy import HadamardPower, HadamardProduct, Idx, Inverse, MatrixSymbol, Sum, Symbol
from symfit import CallableModel, Eq, Fit, Parameter, Variable
from symfit.core.objectives import LeastSquares

from .. import gen
from ..core import Inconclusive, Skip

MATS = ['A', 'B', 'M', 'W', 'X', 'Z', 'c', 'v', 'y', 'I', 'aM', 'M10', 'M2', 'x_1', 'K', 'L']
COMPS = ['R', 'F', 'G_2', 'G_10', 'out', 'H', 'zz', 'Y']
PARS = ['a', 'b', 'a10', 'a2', 'lam', 'Zeta', 'k_1']


# -- own matrix expressions: nodes carry their shape ----------------------------------
#   ('m', name) ('add', a, b) ('sub', a, b) ('mul', a, b) ('scale', scalar, a) ('T', a) ('inv', a)
#   ('pow', a, n) ('had', a, b) ('hpow', a, n) ('expm', a)
# scalars: ('c', number) ('p', name) ('/', name) ('^', name)
def scalar_value(s, env):
    k, x = s
    return x if k == 'c' else env[x] if k == 'p' else 1.0 / env[x] if k == '/' else env[x] ** 2


def scalar_sympy(s, syms):
    k, x = s
    return x if k == 'c' else syms[x] if k == 'p' else 1 / syms[x] if k == '/' else syms[x] ** 2


class Cond(object):
    worst = 1.0


def value(n, env):
    k = n[0]
    if k == 'm':
        return np.asarray(env[n[1]], dtype=float)
    if k == 'scale':
        return scalar_value(n[1], env) * value(n[2], env)
    a = value(n[1], env)
    Cond.worst = max(Cond.worst, float(np.max(np.abs(a))) if a.size else 1)
    if k == 'add':
        return a + value(n[2], env)
    if k == 'sub':
        return a - value(n[2], env)
    if k == 'mul':
        return a @ value(n[2], env)
    if k == 'T':
        return a.T
    if k in ('inv', 'pow') and (k == 'inv' or n[2] < 0):
        c = np.linalg.cond(a)
        Cond.worst = max(Cond.worst, c)
        if not c < 1e4:
            raise Skip('nearly singular')
    if k == 'inv':
        return np.linalg.solve(a, np.eye(len(a)))
    if k == 'pow':
        out, base = np.eye(len(a)), a if n[2] > 0 else np.linalg.solve(a, np.eye(len(a)))
        for _ in range(abs(n[2])):
            out = out @ base
        return out
    if k == 'had':
        return np.multiply(a, value(n[2], env))
    if k == 'hpow':
        return np.array([[e ** n[2] for e in row] for row in a]).reshape(a.shape)
    if k == 'exp':
        return np.exp(-0.1 * a * a)
    raise ValueError(k)


def build(n, syms):
    k = n[0]
    if k == 'm':
        return syms[n[1]]
    if k == 'scale':
        return scalar_sympy(n[1], syms) * build(n[2], syms)
    a = build(n[1], syms)
    if k == 'add':
        return a + build(n[2], syms)
    if k == 'sub':
        return a - build(n[2], syms)
    if k == 'mul':
        return a * build(n[2], syms)
    if k == 'T':
        return a.T
    if k == 'inv':
        return Inverse(a)
    if k == 'pow':
        return a ** n[2]
    if k == 'had':
        return HadamardProduct(a, build(n[2], syms))
    if k == 'hpow':
        return HadamardPower(a, n[2])
    if k == 'exp':
        return sympy.exp(-HadamardProduct(a, a) / 10)
    raise ValueError(k)


def leaves_of(n, out=None):
    out = set() if out is None else out
    if n[0] == 'm':
        out.add(n[1])
    elif n[0] == 'scale':
        if n[1][0] != 'c':
            out.add(n[1][1])
        leaves_of(n[2], out)
    else:
        for c in n[1:]:
            if isinstance(c, tuple):
                leaves_of(c, out)
    return out


class Maker(object):
    def __init__(self, ctx, dims, pars):
        self.rng = ctx.rng
        self.dims, self.pars = dims, pars
        self.shapes = {}

    def scalar(self):
        r = self.rng.random()
        if r < 0.3 or not self.pars:
            return ('c', self.rng.choice([2, 3, -1, 0.5, -0.75]))
        return (self.rng.choice(['p', 'p', '/', '^']), self.rng.choice(self.pars))

    def make(self, shape, depth):
        rng = self.rng
        have = [n for n, s in self.shapes.items() if s == shape]
        turned = [n for n, s in self.shapes.items() if s == shape[::-1]]
        if depth <= 0 or rng.random() < 0.1:
            if have and (rng.random() < 0.75 or not turned):
                return ('m', rng.choice(have))
            if turned:
                return ('T', ('m', rng.choice(turned)))
            raise Skip('no matrix of that shape')
        sub = lambda s=shape: self.make(s, depth - 1)
        kinds = ['add', 'sub', 'mul', 'mul', 'scale', 'scale', 'T', 'had', 'hpow']
        if shape[0] == shape[1]:
            kinds += ['inv', 'pow', 'pow']
        k = rng.choice(kinds)
        if k in ('add', 'sub', 'had'):
            return (k, sub(), sub())
        if k == 'mul':
            inner = rng.choice(self.dims)
            return ('mul', sub((shape[0], inner)), sub((inner, shape[1])))
        if k == 'scale':
            return ('scale', self.scalar(), sub())
        if k == 'T':
            return ('T', sub(shape[::-1]))
        if k == 'pow':
            return ('pow', sub(), rng.choice([2, 3, 2, -1, -2]))
        if k == 'hpow':
            return ('hpow', sub(), rng.choice([2, 3]))
        return (k, sub())


def symbol_dims(ctx, dims):
    """Every size as a number or as an integer symbol."""
    if ctx.rng.random() < 0.5:
        return {d: d for d in dims}
    return {d: d if d == 1 else Symbol('n%d_' % d, integer=True, positive=True) for d in dims}


def matrix_value(ctx, shape):
    npr = ctx.np
    if shape[0] == shape[1]:
        return np.round(npr.uniform(-0.5, 0.5, shape) + np.eye(shape[0]) * ctx.rng.choice([2, -2, 1.5]), 4)
    return np.round(npr.uniform(-1.5, 1.5, shape), 4)


def make_case(ctx):
    rng = ctx.rng
    dims = sorted({rng.choice([1, 2, 3, 4]) for _ in range(rng.choice([1, 2, 2, 3]))} | ({1} if rng.random() < 0.5 else set()))
    pars = rng.sample(PARS, rng.randint(0, 3))
    mk = Maker(ctx, dims, pars)
    names = rng.sample(MATS, rng.randint(1, 4))
    for n in names:
        mk.shapes[n] = (rng.choice(dims), rng.choice(dims))
    given = dict(mk.shapes)
    comps = {}
    for c in rng.sample(COMPS, rng.randint(1, 4)):
        for _ in range(10):
            try:
                shape = (rng.choice(dims), rng.choice(dims))
                node = mk.make(shape, rng.choice([1, 2, 3]))
                if rng.random() < 0.15:
                    # only outermost: SymPy takes exp(A) inside products and powers for the matrix exponential
                    node = ('exp', node)
                    if rng.random() < 0.5:
                        node = ('scale', mk.scalar(), node)
                break
            except Skip:
                continue
        else:
            raise Skip('no matrix of that shape')
        comps[c] = (shape, node)
        mk.shapes[c] = shape
    return dims, pars, given, comps


def scalars(ctx, mk_shapes, pars, syms, sdims):
    """Indexed sums and elements: (sympy expression, oracle, leaves)."""
    rng = ctx.rng
    n = rng.choice(sorted(mk_shapes))
    r, c = mk_shapes[n]
    S = syms[n]
    kind = rng.choice(['row', 'all', 'element', 'quadratic', 'weighted', 'symbolic'])
    i, j = Idx('i', r), Idx('j', c)
    p = rng.choice(pars) if pars and rng.random() < 0.6 else None
    f = syms[p] if p else 2
    fv = (lambda e: e[p]) if p else (lambda e: 2.0)
    extra = {p} if p else set()
    if kind == 'element':
        a, b = rng.randrange(r), rng.randrange(c)
        return f * S[a, b], lambda e: fv(e) * e[n][a, b], {n} | extra
    if kind == 'row':
        b = rng.randrange(c)
        return f * Sum(S[i, b] ** 2, i), lambda e: fv(e) * np.sum(e[n][:, b] ** 2), {n} | extra
    if kind == 'all':
        return Sum(f * S[i, j], i, j) + 1, lambda e: fv(e) * np.sum(e[n]) + 1, {n} | extra
    if kind == 'quadratic':
        if c != 1:
            raise Skip('not a vector')
        return sympy.sqrt(S.T * S), lambda e: np.sqrt(np.sum(e[n] ** 2)).reshape(1, 1), {n}
    if kind == 'weighted':
        others = [m for m, s in mk_shapes.items() if s == (r, c)]
        m = rng.choice(others)
        return Sum(f * S[i, 0] * syms[m][i, 0], i), lambda e: fv(e) * np.sum(e[n][:, 0] * e[m][:, 0]), {n, m} | extra
    if isinstance(sdims[r], int):
        raise Skip('sizes are numbers')
    k = Idx('k', sdims[r])
    return Sum(f * S[k, 0], k), lambda e: fv(e) * np.sum(e[n][:, 0]), {n, str(sdims[r])} | extra


def evaluation(ctx):
    rng = ctx.rng
    dims, pars, given, comps = make_case(ctx)
    sdims = symbol_dims(ctx, dims)
    shapes = dict(given, **{c: s for c, (s, _) in comps.items()})
    syms = {n: MatrixSymbol(n, sdims[s[0]], sdims[s[1]]) for n, s in shapes.items()}
    syms.update({p: Parameter(p) for p in pars})
    env = {n: matrix_value(ctx, s) for n, s in given.items()}
    for p in pars:
        env[p] = round(rng.choice([-1, 1]) * rng.uniform(0.4, 1.8), 4)
    d, need, want = {}, {}, dict(env)
    Cond.worst = 1.0
    with np.errstate(all='ignore'):
        for c, (s, node) in comps.items():
            try:
                ex = build(node, syms)
            except (ValueError, TypeError, NotImplementedError, AttributeError) as err:
                raise Skip('sympy cannot write it: ' + type(err).__name__)
            if ex.has(sympy.Identity, sympy.ZeroMatrix) or not isinstance(ex, sympy.MatrixExpr):
                if not (isinstance(ex, sympy.exp)):
                    raise Skip('simplified away')
            got = {a.name for a in ex.free_symbols if a.name in shapes or a.name in pars}
            if got != leaves_of(node):
                raise Skip('lost symbols')
            d[syms[c]] = ex
            need[c] = leaves_of(node)
            want[c] = value(node, want)
            if not np.all(np.isfinite(want[c])) or np.max(np.abs(want[c])) > 1e6:
                raise Skip('large')
    extra = {}
    for k in range(rng.choice([0, 0, 1, 1, 2])):
        try:
            ex, f, lv = scalars(ctx, {n: s for n, s in shapes.items()}, pars, syms, sdims)
        except Skip:
            continue
        s = Variable('s_%d' % k)
        if {a.name for a in ex.free_symbols if a.name in shapes or a.name in pars} != lv - {str(x) for x in sdims.values()}:
            continue
        d[s] = ex
        extra[s.name] = f
        need[s.name] = lv
        want[s.name] = f(want)
        for x in sdims.values():
            if str(x) in lv:
                env[str(x)] = [v for v, y in sdims.items() if y is x or y == x][0]
    if Cond.worst > 1e6:
        raise Skip('ill-conditioned')
    order = gen.shuffled(rng, list(d))
    model = CallableModel({k: d[k] for k in order})
    names = sorted(k.name for k in d)
    used = set().union(*need.values())
    args = sorted(n for n in used if n in env and n not in pars) + sorted(n for n in used if n in pars)
    ctx.describe(mode='evaluation', components={k.name: str(v) for k, v in d.items()}, point=env, sizes={str(k): str(v) for k, v in sdims.items()})
    ctx.tag('components:%d' % len(d), 'symbolic-size' if any(not isinstance(v, int) for v in sdims.values()) else 'numeric-size')
    for _, node in comps.values():
        for kk in ('inv', 'pow', 'had', 'hpow', 'exp', 'mul', 'T', 'scale'):
            if repr(kk) in repr(node):
                ctx.tag('op:' + kk)
    ctx.check('parameters', [p.name for p in model.params] == [a for a in args if a in pars], got=[p.name for p in model.params], want=args)
    ctx.check('independent', [p.name for p in model.independent_vars] == [a for a in args if a not in pars],
              got=[p.name for p in model.independent_vars], want=args)
    ctx.check('components', [v.name for v in model] == names)
    ctx.check('connectivity', {k.name: {a.name for a in v} for k, v in model.connectivity_mapping.items()} == need,
              got={k.name: sorted(a.name for a in v) for k, v in model.connectivity_mapping.items()}, want={k: sorted(v) for k, v in need.items()})
    before = {a: np.array(env[a], copy=True) for a in args}
    for out in (model(**{a: env[a] for a in gen.shuffled(rng, args)}), model(*[env[a] for a in args])):
        asd = out._asdict()
        for i, c in enumerate(names):
            w = np.atleast_1d(np.asarray(want[c], dtype=float))
            tol = dict(rtol=1e-9 * Cond.worst ** 0.5, atol=1e-11 * Cond.worst * (1 + float(np.max(np.abs(w)))))
            ctx.close('value', out[i], w, component=c, **tol)
            ctx.close('by-attribute', getattr(out, c), w, component=c, **tol)
            key = [k for k in asd if k.name == c]
            if ctx.check('dict-keys', len(key) == 1):
                ctx.close('by-dict', asd[key[0]], w, component=c, **tol)
    for a, v in before.items():
        ctx.check('arguments-untouched', np.array_equal(v, env[a]), arg=a)
    # the same model with other numbers
    env2 = {a: (v if a.startswith('n') and np.ndim(v) == 0 and a not in pars else np.asarray(v) * 0.9 + 0.01) for a, v in env.items()}
    try:
        w2 = dict(env2)
        for c, (s, node) in comps.items():
            w2[c] = value(node, w2)
        for c, f in extra.items():
            w2[c] = f(w2)
    except Skip:
        return
    if Cond.worst > 1e6:
        return
    out = model(**{a: env2[a] for a in args})
    for i, c in enumerate(names):
        w = np.atleast_1d(np.asarray(w2[c], dtype=float))
        ctx.close('second-call', out[i], w, rtol=1e-9 * Cond.worst ** 0.5, atol=1e-11 * Cond.worst * (1 + float(np.max(np.abs(w)))), component=c)


def fitting(ctx):
    """Linear and interdependent matrix models, exact or noisy data."""
    rng, npr = ctx.rng, ctx.np
    n, k = rng.randint(3, 6), rng.randint(1, 3)
    N = n if rng.random() < 0.5 else Symbol('N_', integer=True)
    M, W = MatrixSymbol('M', N, N), MatrixSymbol('W', N, N)
    v, u, c, y = (MatrixSymbol(s, N, 1) for s in ('v', 'u', 'c', 'y'))
    a, b = Parameter('a', value=1.0), Parameter('b', value=1.0)
    Mn = npr.uniform(-0.4, 0.4, (n, n)) + np.eye(n) * 2
    vn, un = npr.uniform(-2, 2, (n, 1)), npr.uniform(-2, 2, (n, 1))
    truth = {'a': round(rng.uniform(0.4, 2), 3), 'b': round(rng.uniform(0.4, 2) * rng.choice([1, -1]), 3)}
    kind = rng.choice(['linear', 'interdependent', 'inverse', 'hadamard'])
    noise = rng.choice([0, 0, 0.05]) if kind in ('linear', 'interdependent') else 0
    ctx.describe(mode='fit', kind=kind, n=n, truth=truth, noise=noise, M=Mn, v=vn, u=un)
    ctx.tag('fit:' + kind)
    cols = None
    if kind == 'linear':
        md = {y: a * M * v + b * u}
        cols = [Mn @ vn, un]
        start = {}
    elif kind == 'interdependent':
        md = {c: M.T * v + HadamardProduct(u, u), y: a * M * c - b * HadamardProduct(c, u)}
        cn = Mn.T @ vn + un * un
        cols = [Mn @ cn, -cn * un]
    elif kind == 'inverse':
        md = {W: Inverse(M + M.T / a ** 2), y: b * W * v}
        a.value, b.value = truth['a'] * 1.15, truth['b'] * 0.85
        a.min = 0.1
    else:
        md = {c: v - b * u, y: a * sympy.exp(-HadamardProduct(c, c) / 10)}
        a.value, b.value = truth['a'] * 1.1, truth['b'] * 1.1

    def model_value(p):
        if cols is not None:
            return p[0] * cols[0] + p[1] * cols[1]
        if kind == 'inverse':
            return p[1] * np.linalg.solve(Mn + Mn.T / p[0] ** 2, vn)
        return p[0] * np.exp(-(vn - p[1] * un) ** 2 / 10)
    t = np.array([truth['a'], truth['b']])
    data = model_value(t) + noise * npr.normal(size=(n, 1))
    # how sharply do the data determine the parameters?
    J = np.column_stack([(model_value(t + e) - model_value(t - e)).ravel() / 2e-6 for e in 1e-6 * np.eye(2)])
    sv = np.linalg.svd(J, compute_uv=False)
    if sv[-1] < 0.2 or sv[0] / sv[-1] > 30:
        raise Skip('weakly determined')
    model = CallableModel(md)
    given = dict(M=Mn, v=vn, u=un, y=data)
    given = {m: x for m, x in given.items() if m in [s.name for s in model.independent_vars] + ['y']}
    fit = Fit(model, **given)
    res = fit.execute()
    if not res.minimizer_output.get('success', True):
        raise Inconclusive('not converged')
    want = np.linalg.lstsq(np.column_stack([x.ravel() for x in cols]), data.ravel(), rcond=None)[0] if cols is not None else t
    got = np.array([res.value(a), res.value(b)])
    r_got = np.sum((model_value(got) - data) ** 2)
    r_want = np.sum((model_value(want) - data) ** 2)
    if kind in ('inverse', 'hadamard') and not np.allclose(got, want, rtol=1e-3, atol=1e-3) and r_got > 1e-6:
        raise Inconclusive('another local minimum')
    ctx.close('fitted', got, want, rtol=2e-3, atol=2e-3, kind=kind)
    ctx.check('residual', r_got <= r_want + 1e-5 * (1 + np.sum(data ** 2)), got=r_got, want=r_want)
    out = model(**{m: x for m, x in given.items() if m != 'y'}, **res.params)
    ctx.close('model-at-result', out.y, model_value(got), rtol=1e-7, atol=1e-7)
    ll = LeastSquares(model, {s: given.get(s.name) if s.name in given else np.ones((n, 1)) for s in model.vars})
    ctx.close('objective', float(ll(**res.params)), 0.5 * r_got, rtol=1e-6, atol=1e-9)


def constrained(ctx):
    """A sum over the components of a matrix model, held at a value by a constraint with own data."""
    rng, npr = ctx.rng, ctx.np
    n = rng.randint(3, 7)
    N = Symbol('N_', integer=True) if rng.random() < 0.6 else n
    x, o, w, y, B = (MatrixSymbol(s, N, 1) for s in ('x', 'o', 'w', 'y', 'B'))
    Y = rng.choice([MatrixSymbol('Y', 1, 1), Variable('Y')])
    a, b = Parameter('a', value=1.0), Parameter('b', value=0.5)
    inter = rng.random() < 0.5
    md = {B: x - o, y: a * B + b * o} if inter else {y: a * x + b * o}
    model = CallableModel(md)
    xn, on, wn = npr.uniform(-2, 2, (n, 1)), np.ones((n, 1)), npr.uniform(0.2, 1, (n, 1))
    yn = npr.uniform(-2, 2, (n, 1)) + 1.5 * xn
    A = np.column_stack([(xn - on) if inter else xn, on])
    total = round(rng.uniform(-2, 3), 2)
    i = Idx('i', N)
    how = rng.choice(['model', 'model', 'plain'])
    expr = Sum(y[i, 0] * w[i, 0], i) - total
    con = CallableModel.as_constraint({Y: expr}, model=model, constraint_type=Eq)
    extra = {'N_': n} if not isinstance(N, int) else {}
    ctx.describe(mode='constrained', n=n, inter=inter, total=total, x=xn, y=yn, w=wn, symbolic=bool(extra))
    ctx.tag('constrained', 'symbolic-size' if extra else 'numeric-size')
    leaf = ['o', 'w', 'x'] + list(extra)
    ctx.check('constraint-variables', [s.name for s in con.independent_vars] == sorted(leaf), got=[s.name for s in con.independent_vars], want=sorted(leaf))
    ctx.check('constraint-parameters', [p.name for p in con.params] == ['a', 'b'])
    p0 = {'a': round(rng.uniform(-1, 2), 3), 'b': round(rng.uniform(-1, 2), 3)}
    got = con(x=xn, o=on, w=wn, **extra, **p0)
    ctx.close('constraint-value', np.ravel(got.Y), [float(wn.T @ A @ [[p0['a']], [p0['b']]]) - total], rtol=1e-9, atol=1e-9)
    g = (A.T @ wn).ravel()
    if np.linalg.norm(g) < 0.3 or np.linalg.cond(A) > 30:
        raise Skip('weakly determined')
    fit = Fit(model, x=xn, o=on, y=yn, w=wn, constraints=[con], **extra)
    res = fit.execute()
    if not res.minimizer_output.get('success', True):
        raise Inconclusive('not converged')
    K = np.block([[A.T @ A, g[:, None]], [g[None, :], np.zeros((1, 1))]])
    sol = np.linalg.solve(K, np.append((A.T @ yn).ravel(), total))[:2]
    v = np.array([res.value(a), res.value(b)])
    ctx.close('constraint-met', g @ v, total, rtol=1e-5, atol=1e-5)
    ctx.close('constrained-optimum', v, sol, rtol=5e-3, atol=5e-3)


def singular(ctx):
    """There is no inverse of a singular matrix: no answer, or none that looks like one."""
    rng, npr = ctx.rng, ctx.np
    n = rng.randint(1, 4)
    N = n if rng.random() < 0.5 else Symbol('n', integer=True)
    M, x, y = MatrixSymbol('M', N, N), MatrixSymbol('x', N, 1), MatrixSymbol('y', N, 1)
    a = Parameter('a')
    kind = rng.choice(['zero', 'row', 'column'])
    m = np.diag(npr.integers(1, 4, n)).astype(float)
    k = rng.randrange(n)
    if kind == 'zero':
        m[:] = 0
    elif kind == 'row':
        m[k] = 0
    else:
        m[:, k] = 0
    B = MatrixSymbol('B', N, N)
    md = rng.choice([{y: a * Inverse(M) * x}, {B: a * M, y: Inverse(B) * x}, {y: Inverse(M) * x * a, B: M}])
    model = CallableModel(md)
    xn = npr.uniform(0.5, 2, (n, 1))
    ctx.describe(mode='singular', n=n, kind=kind, model=str(md), M=m)
    ctx.tag('singular:' + kind)
    try:
        out = model(M=m, x=xn, a=1.5)
    except (np.linalg.LinAlgError, ZeroDivisionError):
        ctx.check('singular-refused', True)
        return
    ctx.check('singular-refused', not np.all(np.isfinite(np.asarray(out.y, dtype=float))), got=np.asarray(out.y))


def case(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        ctx.rng.choice([evaluation] * 16 + [fitting, constrained] * 2 + [singular])(ctx)
