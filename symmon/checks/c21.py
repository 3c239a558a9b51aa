"""C21: callable expressions and the built-in distributions."""
import warnings

import numpy as np
import scipy.special as sp
import sympy
from symfit import CallableModel, Fit, Model, Parameter, Variable, parameters, variables
from symfit.core.objectives import LogLikelihood
from symfit.distributions import BivariateGaussian, Exp, Gaussian

from .. import gen, expr as E
from ..core import Skip


# functions beyond the smooth core: sympy function -> numerical oracle and admissible range
SPECIAL = {
    'erf': (sympy.erf, sp.erf, (-2, 2)), 'erfc': (sympy.erfc, sp.erfc, (-2, 2)),
    'gamma': (sympy.gamma, sp.gamma, (0.3, 4)), 'loggamma': (sympy.loggamma, sp.gammaln, (0.3, 4)),
    'besselj': (lambda a: sympy.besselj(1, a), lambda a: sp.jv(1, a), (-3, 3)),
    'tan': (sympy.tan, np.tan, (-1.3, 1.3)), 'asin': (sympy.asin, np.arcsin, (-0.9, 0.9)),
    'acosh': (sympy.acosh, np.arccosh, (1.1, 4)), 'atan2': (lambda a: sympy.atan2(a, 2), lambda a: np.arctan2(a, 2), (-3, 3)),
    'sign': (sympy.sign, np.sign, (-2, 2)), 'floor': (sympy.floor, np.floor, (-3, 3)),
    'Heaviside': (lambda a: sympy.Heaviside(a, 0.5), lambda a: np.heaviside(a, 0.5), (-2, 2)),
    'log10': (lambda a: sympy.log(a, 10), np.log10, (0.2, 5)),
    'sinc': (sympy.sinc, lambda a: np.sinc(a / np.pi), (-5, 5)),
    'sqrt2': (lambda a: sympy.sqrt(a), np.sqrt, (0.0, 5)),
    'mod': (lambda a: sympy.Mod(a, 2), lambda a: np.mod(a, 2), (-5, 5)),
    'power': (lambda a: 2 ** a, lambda a: 2.0 ** np.asarray(a), (-3, 3)),
    'binom': (lambda a: a ** sympy.Rational(1, 3), lambda a: np.cbrt(a), (0.1, 5)),
    'min': (lambda a: sympy.Min(a, 1), lambda a: np.minimum(a, 1), (-3, 3)),
    'max': (lambda a: sympy.Max(a, 1), lambda a: np.maximum(a, 1), (-3, 3)),
}


def ordered(syms):
    """Variables then parameters, both alphabetical: the documented call order."""
    v = sorted(s.name for s in syms if not isinstance(s, Parameter))
    p = sorted(s.name for s in syms if isinstance(s, Parameter))
    return v + p


def calls(ctx, ex, env, want, rtol, atol, label):
    """Every way of passing the arguments gives the value; wrong ones are refused."""
    rng = ctx.rng
    args = ordered(ex.free_symbols)
    before = {a: np.array(v, copy=True) for a, v in env.items()}
    extra = {n: rng.choice([1.0, 'text', None, np.arange(5)]) for n in ['surplus', 'nothing_like_it'] if n not in args}
    styles = {
        'positional': lambda: ex(*[env[a] for a in args]),
        'named': lambda: ex(**{a: env[a] for a in gen.shuffled(rng, args)}),
        'surplus-named': lambda: ex(**dict(extra, **{a: env[a] for a in args})),
    }
    k = rng.randint(0, len(args))
    styles['mixed'] = lambda: ex(*[env[a] for a in args[:k]], **{a: env[a] for a in gen.shuffled(rng, args[k:])})
    styles['mixed-surplus'] = lambda: ex(*[env[a] for a in args[:k]], **dict({a: env[a] for a in args[k:]}, **extra))
    for style in rng.sample(sorted(styles), 3):
        ctx.close(label + ':' + style, styles[style](), want, rtol=rtol, atol=atol, expression=str(ex)[:300], args=args)
    if args:
        drop = rng.choice(args)
        ctx.raises('missing-refused', TypeError, ex, **{a: env[a] for a in args if a != drop})
        ctx.raises('missing-positional-refused', TypeError, ex, *[env[a] for a in args[:-1]])
        ctx.raises('duplicate-refused', TypeError, ex, *[env[a] for a in args[:1]], **{a: env[a] for a in args})
    ctx.raises('too-many-refused', TypeError, ex, *([env[a] for a in args] + [1.0]))
    for a in args:
        ctx.check('arguments-untouched', np.array_equal(before[a], env[a]), arg=a)


def point(ctx, names, ranges=None):
    """Values for every name, shapes broadcasting against each other."""
    rng, npr = ctx.rng, ctx.np
    pattern = rng.choice(['scalar', 'vec', 'mixed', 'grid', '2d', 'one', 'int', 'allvec', 'big'])
    n, m = rng.randint(2, 6), rng.randint(2, 4)
    ctx.tag('shape:' + pattern)
    out = {}
    for i, a in enumerate(names):
        lo, hi = (ranges or {}).get(a, (-1.6, 1.6))
        shape = {'scalar': (), 'vec': (n,) if i == 0 else (), 'mixed': (n,) if rng.random() < 0.5 else (),
                 'grid': [(n, 1), (1, m), ()][i % 3], '2d': (n, m), 'one': (1,), 'int': (n,) if rng.random() < 0.6 else (),
                 'allvec': (n,), 'big': (400,) if i == 0 else ()}[pattern]
        v = npr.uniform(lo, hi, size=shape)
        if pattern == 'int':
            v = np.clip(np.round(v), np.ceil(lo), np.floor(hi)).astype(int) if np.floor(hi) >= np.ceil(lo) else v
        v = v if shape else (v.item() if rng.random() < 0.8 else v[()])
        out[a] = v
    return out


def expression_case(ctx):
    rng = ctx.rng
    spec = gen.rand_spec(rng, n_comp=1, n_indep=rng.choice([0, 1, 1, 2, 3]), n_param=rng.choice([0, 1, 2, 3, 5]),
                         depth=rng.choice([1, 2, 3, 4]), rough=True)
    comp = spec.names[0]
    syms = spec.symbols()
    ex = spec.model_dict(syms)[syms[comp]]
    names = ordered(ex.free_symbols)
    env = point(ctx, names)
    ctx.describe(mode='expression', expression=spec.text(), point=env)
    for round_ in range(2):
        gen.Track.reset()
        want = E.ev(spec.comps[comp], {a: np.asarray(env[a], dtype=float) for a in names})
        tol = gen.tol()
        calls(ctx, ex, env, np.asarray(want, dtype=float), 1e-9, tol, 'value')
        env = {a: np.asarray(v) * 0.5 + 0.11 if np.ndim(v) else float(v) * 0.5 - 0.2 for a, v in env.items()}
    # derived expressions are callable just the same
    s = rng.choice(sorted(ex.free_symbols, key=str))
    twice = 2 * ex + s
    gen.Track.reset()
    want = 2 * E.ev(spec.comps[comp], {a: np.asarray(env[a], dtype=float) for a in names}) + env[s.name]
    ctx.close('derived', twice(**env), want, rtol=1e-9, atol=gen.tol(), shape=False)


def special_case(ctx):
    rng = ctx.rng
    k = rng.randint(1, 3)
    fs = [rng.choice(sorted(SPECIAL)) for _ in range(k)]
    pool = gen.shuffled(rng, gen.PARAM_NAMES + ['erf', 'Gamma', 'jv', 'sign', 'floor', 'heaviside', 'mod', 'log', 'lambda_', 'numpy', 'scipy', 'math', 'np_', 'j', 'inf', 'nan', 'euler_gamma', 'print_', 'abs', 'max', 'minimum'])[:k]
    syms = [Parameter(n) if rng.random() < 0.5 else Variable(n) for n in pool]
    env = point(ctx, pool, {n: SPECIAL[f][2] for n, f in zip(pool, fs)})
    # numpy itself refuses negative powers of integers
    env = {n: np.asarray(v, dtype=float)[()] if f == 'power' else v for (n, v), f in zip(env.items(), fs)}
    coeff = [round(rng.uniform(0.3, 2), 3) for _ in fs]
    ex = sum((c * SPECIAL[f][0](s) for c, f, s in zip(coeff, fs, syms)), sympy.Float(0.25))
    if {s.name for s in ex.free_symbols} != set(pool):
        raise Skip('lost symbols')
    want = 0.25
    with np.errstate(all='ignore'):
        for c, f, n in zip(coeff, fs, pool):
            want = want + c * SPECIAL[f][1](np.asarray(env[n], dtype=float))
    if any(f in ('floor', 'mod', 'sign') for f in fs):
        ctx.tag('discontinuous')
    ctx.describe(mode='special', functions=dict(zip(pool, fs)), point=env)
    ctx.tag(*['fn:' + f for f in fs])
    calls(ctx, ex, env, want, 1e-8, 1e-10, 'special')


def symbol_case(ctx):
    rng = ctx.rng
    cls = rng.choice([Parameter, Parameter, Variable])
    pool = gen.PARAM_NAMES + gen.VAR_NAMES
    n = rng.choice(pool)
    s = cls(n, value=3.3, fixed=rng.random() < 0.3) if cls is Parameter else cls(n)
    env = point(ctx, [n])
    ctx.describe(mode='symbol', kind=cls.__name__, name=n, point=env)
    calls(ctx, s, env, env[n], 0, 0, 'symbol')
    calls(ctx, s + 0 * s, env, env[n], 0, 0, 'symbol')
    if cls is Parameter:
        ctx.check('value-untouched', s.value == 3.3)
    # constants need no arguments at all
    c = sympy.Rational(rng.randint(1, 9), 7) * sympy.pi
    calls(ctx, c, {}, float(c), 1e-14, 0, 'constant')
    ctx.close('constant-surplus', sympy.Integer(2)(anything=3), 2.0)


# -- distributions ------------------------------------------------------------------
def argument(ctx, name, value, syms, env, variable=False):
    """An argument as symbol, plain number or expression; its numeric value goes along."""
    rng = ctx.rng
    r = rng.random()
    if variable or r < 0.6:
        s = Variable(name) if variable or rng.random() < 0.2 else Parameter(name, value=value if np.ndim(value) == 0 else 1.0)
        syms[name] = s
        env[name] = value
        if rng.random() < 0.2:
            shift = round(rng.uniform(0.2, 2), 3)
            scale = round(rng.uniform(0.3, 2), 3)
            env[name] = (np.asarray(value) - shift) / scale if np.ndim(value) else (value - shift) / scale
            return scale * s + shift
        return s
    if np.ndim(value):
        syms[name] = s = Parameter(name)
        env[name] = value
        return s
    return value if r < 0.9 else sympy.Float(value)


def sigma(rng):
    return round(10 ** rng.uniform(-2, 2), 5) if rng.random() < 0.8 else rng.choice([1, 2, 3, 10])


def closed(kind, a):
    """Log of the density, from the textbook formula."""
    a = {k: np.asarray(v, dtype=float) for k, v in a.items()}
    if kind == 'gauss':
        z = (a['x'] - a['mu']) / a['sig']
        return -0.5 * z * z - np.log(a['sig']) - 0.5 * np.log(2 * np.pi), 0.5 * z * z
    if kind == 'exp':
        return np.log(a['l']) - a['l'] * a['x'], a['l'] * a['x']
    zx, zy = (a['x'] - a['mu_x']) / a['sig_x'], (a['y'] - a['mu_y']) / a['sig_y']
    # conditional factorisation, p(x) p(y | x): not the formula of the implementation
    s = np.sqrt(1 - a['rho'] ** 2)
    w = (zy - a['rho'] * zx) / s
    q = 0.5 * (zx * zx + w * w)
    return -q - np.log(a['sig_x']) - np.log(a['sig_y'] * s) - np.log(2 * np.pi), (np.abs(zx) + np.abs(zy)) ** 2 / s ** 2


NAMES = {'gauss': ['x', 'mu', 'sig'], 'exp': ['x', 'l'],
         'bigauss': ['x', 'y', 'mu_x', 'mu_y', 'sig_x', 'sig_y', 'rho']}
MAKE = {'gauss': Gaussian, 'exp': Exp, 'bigauss': BivariateGaussian}


def draw(ctx, kind, shape):
    rng, npr = ctx.rng, ctx.np
    a = {}
    arr = lambda lo, hi: npr.uniform(lo, hi, size=shape) if rng.random() < 0.15 and shape else round(rng.uniform(lo, hi), 4)
    if kind == 'gauss':
        a['mu'], a['sig'] = (arr(-3, 3) if rng.random() < 0.8 else rng.choice([0, 1, -2])), sigma(rng)
        a['x'] = a['mu'] + a['sig'] * npr.uniform(-4, 4, size=shape)
    elif kind == 'exp':
        a['l'] = sigma(rng)
        a['x'] = npr.uniform(0, 8, size=shape) / a['l']
    else:
        a['mu_x'], a['mu_y'] = arr(-3, 3), (arr(-3, 3) if rng.random() < 0.7 else 0)
        a['sig_x'], a['sig_y'] = sigma(rng), sigma(rng)
        a['rho'] = round(rng.uniform(-0.97, 0.97), 3) if rng.random() < 0.85 else rng.choice([0, 0.0, 0.99, -0.99, 0.5])
        a['x'] = a['mu_x'] + a['sig_x'] * npr.uniform(-3, 3, size=shape)
        a['y'] = a['mu_y'] + a['sig_y'] * npr.uniform(-3, 3, size=shape)
    if not shape:
        a = {k: v.item() if isinstance(v, np.ndarray) else float(v) if isinstance(v, np.floating) else v for k, v in a.items()}
    return a


def distribution_case(ctx):
    rng = ctx.rng
    kind = rng.choice(['gauss', 'bigauss', 'bigauss', 'exp'])
    shape = rng.choice([(), (), (5,), (1,), (3, 2)])
    a = draw(ctx, kind, shape)
    names = NAMES[kind]
    labels = dict(zip(names, rng.sample(gen.PARAM_NAMES + gen.VAR_NAMES, len(names))) if rng.random() < 0.6 else zip(names, names))
    syms, env, given = {}, {}, {}
    for n in names:
        given[n] = argument(ctx, labels[n], a[n], syms, env, variable=n in 'xy')
    byname = rng.random() < 0.3
    ex = MAKE[kind](**given) if byname else MAKE[kind](*[given[n] for n in names])
    ctx.describe(mode='distribution', kind=kind, given=given, point=env)
    ctx.tag('dist:' + kind, 'numbers:%d' % (len(names) - len(syms)))
    if {s.name for s in ex.free_symbols} != set(env):
        raise Skip('lost symbols')
    logp, size = closed(kind, a)
    # relative accuracy of an exponential is the absolute accuracy of its exponent
    rtol = 1e-11 * (1 + float(np.max(size))) * (50 if kind == 'bigauss' else 1)
    calls(ctx, ex, env, np.exp(logp), rtol, 0, 'density')
    # as a model, and its summed logarithm
    y = Variable('density_')
    model = rng.choice([CallableModel, Model])({y: ex})
    ctx.close('density:model', np.asarray(model(**env)[0]), np.atleast_1d(np.exp(logp)), rtol=rtol, atol=0, component=y)
    ctx.close('density:log', np.sum(np.log(model(**env)[0])), np.sum(np.broadcast_to(logp, np.shape(np.exp(logp)))), rtol=1e-9, atol=rtol * max(1, np.size(logp)))
    data = {s: env[n] for n, s in syms.items() if isinstance(s, Variable)}
    par = {n: env[n] for n, s in syms.items() if isinstance(s, Parameter)}
    if all(np.ndim(v) == 0 for v in par.values()) and par and np.ndim(a['x']):
        model = Model({y: ex})
        ll = LogLikelihood(model, {v: np.asarray(env[v.name], dtype=float) if v in data else None for v in model.independent_vars + model.dependent_vars})
        ctx.close('density:likelihood', float(ll(**par)), -float(np.sum(logp)) if True else 0, rtol=1e-9, atol=rtol * np.size(logp))


def normalised_case(ctx):
    """The evaluated density integrates to one, with the moments its parameters name."""
    rng = ctx.rng
    kind = rng.choice(['gauss', 'bigauss', 'exp'])
    a = draw(ctx, kind, ())
    names = NAMES[kind]
    syms = {n: Variable(n) if n in 'xy' else Parameter(n) for n in names}
    ex = MAKE[kind](*[syms[n] for n in names])
    par = {n: a[n] for n in names if n not in 'xy'}
    ctx.describe(mode='normalised', kind=kind, parameters=par)
    ctx.tag('norm:' + kind)
    if kind == 'gauss':
        x = np.linspace(a['mu'] - 10 * a['sig'], a['mu'] + 10 * a['sig'], 2001)
        p, h = ex(x=x, **par), x[1] - x[0]
        ctx.close('normalised', np.sum(p) * h, 1, rtol=1e-9)
        ctx.close('mean', np.sum(p * x) * h, a['mu'], rtol=1e-8, atol=1e-8 * a['sig'])
        ctx.close('variance', np.sum(p * (x - a['mu']) ** 2) * h, a['sig'] ** 2, rtol=1e-8)
    elif kind == 'exp':
        nodes, weights = np.polynomial.laguerre.laggauss(20)
        x = nodes / a['l']
        p = ex(x=x, **par)
        w = weights * np.exp(nodes) / a['l']
        ctx.close('normalised', np.sum(p * w), 1, rtol=1e-8)
        ctx.close('mean', np.sum(p * x * w), 1 / a['l'], rtol=1e-8)
        ctx.close('variance', np.sum(p * (x - 1 / a['l']) ** 2 * w), 1 / a['l'] ** 2, rtol=1e-8)
    else:
        s = np.sqrt(1 - a['rho'] ** 2)
        if s < 0.2:
            raise Skip('narrow ridge')
        # coarse enough to be cheap, fine enough for the ridge: trapezium is spectrally accurate
        n = int(20 / s / 0.5)
        zx = np.linspace(-10, 10, n)
        x, y = a['mu_x'] + a['sig_x'] * zx[:, None], a['mu_y'] + a['sig_y'] * zx[None, :]
        p = ex(x=x, y=y, **par)
        h = (zx[1] - zx[0]) ** 2 * a['sig_x'] * a['sig_y']
        mom = lambda f: np.sum(p * f) * h
        dx, dy = x - a['mu_x'], y - a['mu_y']
        ctx.close('normalised', mom(1), 1, rtol=1e-6)
        ctx.close('mean', [mom(dx) / a['sig_x'], mom(dy) / a['sig_y']], [0, 0], atol=1e-6)
        ctx.close('variance', [mom(dx ** 2) / a['sig_x'] ** 2, mom(dy ** 2) / a['sig_y'] ** 2], [1, 1], rtol=1e-6)
        ctx.close('correlation', mom(dx * dy) / a['sig_x'] / a['sig_y'], a['rho'], rtol=1e-6, atol=1e-6)


def result_case(ctx):
    """expr(**fit_result.params) on an expression of some of the fitted parameters."""
    rng = ctx.rng
    names = rng.sample([n for n in gen.PARAM_NAMES if n not in 'xy'], 3)
    ps = [Parameter(n, value=1.0, fixed=(i == 2 and rng.random() < 0.4)) for i, n in enumerate(names)]
    x, y = variables('x, y')
    t = np.linspace(0, 2, 9)
    truth = [round(rng.uniform(0.5, 2), 3) for _ in ps]
    if ps[2].fixed:
        truth[2] = 1.0
    model = {y: ps[0] * x ** 2 + ps[1] * x + ps[2]}
    data = truth[0] * t ** 2 + truth[1] * t + truth[2]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = Fit(model, x=t, y=data).execute()
    sub = sympy.sin(ps[0]) * x + ps[0] ** 2
    ctx.describe(mode='fit-result', names=names, truth=truth)
    ctx.close('sub-expression', sub(x=t, **res.params), np.sin(truth[0]) * t + truth[0] ** 2, rtol=1e-5, atol=1e-5)
    whole = ps[0] * x ** 2 + ps[1] * x + ps[2]
    ctx.close('whole-expression', whole(x=t, **res.params), data, rtol=1e-5, atol=1e-5)
    ctx.close('single-parameter', ps[1](**res.params), truth[1], rtol=1e-5, atol=1e-5)
    ctx.close('positional', whole(t, *[res.params[n] for n in sorted(names)]), data, rtol=1e-5, atol=1e-5)


def case(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kind = ctx.rng.choice(['e'] * 6 + ['s'] * 2 + ['d'] * 5 + ['n', 'p', 'r'])
        {'e': expression_case, 's': special_case, 'd': distribution_case, 'n': normalised_case, 'p': symbol_case,
         'r': result_case}[kind](ctx)
