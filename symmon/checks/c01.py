"""C01: calling a symbolic model."""
import numpy as np
from symfit import Model, CallableModel, GradientModel
from symfit.core.models import HessianModel

from .. import gen, expr as E
from ..core import Skip


def build(ctx, spec, syms, cls=None):
    rng = ctx.rng
    d = spec.model_dict(syms, gen.shuffled(rng, spec.comps))
    cls = cls or rng.choice([Model, Model, CallableModel, GradientModel, HessianModel])
    return cls(d), d


def case(ctx):
    rng = ctx.rng
    spec = gen.rand_spec(rng, n_comp=rng.choice([1, 1, 2, 3, 4, 5]), n_indep=rng.choice([0, 1, 1, 2, 3]),
                         n_param=rng.choice([0, 1, 2, 3, 4]) if rng.random() < 0.9 else 6,
                         depth=rng.choice([1, 2, 3, 4]), dep_prob=rng.choice([0, 0, 0.4, 0.8, 1.0]), rough=True) \
        if True else None
    if not spec.params and not spec.indep:
        raise Skip('empty')
    env, pattern = gen.rand_shape_values(ctx, spec.indep)
    for p in spec.params:
        env[p] = gen.rand_param_value(rng)
    arr_par = spec.params and rng.random() < 0.15 and pattern in ('scalar', 'vec', 'mixed', 'list', 'int')
    if arr_par:
        n = max([np.size(v) for v in env.values()] + [1])
        n = n if n > 1 else 3
        env[rng.choice(spec.params)] = np.round(ctx.np.uniform(-1.5, 1.5, n), 4)
        ctx.tag('array-parameter')
    elif spec.params and rng.random() < 0.1:
        env[rng.choice(spec.params)] = rng.choice([0, 1, 2, -1])   # python int
    lev = max(spec.levels().values())
    ctx.describe(model=spec.text(), point=env, levels=lev)
    ctx.tag('levels:%d' % lev, 'components:%d' % len(spec.comps))
    want = spec.values(env)
    tol = gen.tol()
    syms = spec.symbols()
    model, d = build(ctx, spec, syms)
    ctx.check('names', [s.name for s in model] == spec.names and
              [s.name for s in model.independent_vars] == spec.indep and
              [s.name for s in model.params] == spec.params,
              got=[list(model), model.independent_vars, model.params], want=[spec.names, spec.indep, spec.params])
    args = spec.indep + spec.params
    before = {k: np.array(v, copy=True) for k, v in env.items()}
    for style in rng.sample(['pos', 'kw', 'mixed'], 2):
        if style == 'pos':
            out = model(*[env[a] for a in args])
        elif style == 'kw':
            out = model(**{a: env[a] for a in gen.shuffled(rng, args)})
        else:
            k = rng.randint(0, len(args))
            out = model(*[env[a] for a in args[:k]], **{a: env[a] for a in gen.shuffled(rng, args[k:])})
        ctx.check('length', len(out) == len(spec.names), got=len(out))
        asd = out._asdict()
        ctx.check('dict-keys', [k.name for k in asd] == spec.names, got=list(asd), want=spec.names)
        unpacked = list(iter(out))
        ctx.check('unpack-length', len(unpacked) == len(spec.names))
        for i, c in enumerate(spec.names):
            ctx.close('by-position', out[i], want[c], rtol=1e-9, atol=tol, component=c, style=style)
            ctx.close('by-attribute', getattr(out, c), want[c], rtol=1e-9, atol=tol, component=c)
            ctx.close('by-dict', asd[syms[c]], want[c], rtol=1e-9, atol=tol, component=c)
            ctx.close('by-unpacking', unpacked[i], want[c], rtol=1e-9, atol=tol, component=c)
            ctx.close('by-variable', out[syms[c]], want[c], rtol=1e-9, atol=tol, component=c)
        ctx.check('no-such-attribute', not hasattr(out, 'surely_absent_name'))
    for a, v in before.items():
        ctx.check('arguments-untouched', np.array_equal(v, env[a]), arg=a)
    # repeated evaluation at another point must not be influenced by the first one
    env2 = dict(env)
    for a in args:
        env2[a] = np.asarray(env[a]) * 0.5 + 0.21
    want2 = spec.values(env2)
    out2 = model(**env2)
    t2 = gen.tol()
    for i, c in enumerate(spec.names):
        ctx.close('second-call', out2[i], want2[c], rtol=1e-9, atol=t2, component=c)
    # refused argument lists
    full = {a: env[a] for a in args}
    drop = rng.choice(args)
    ctx.raises('missing-refused', TypeError, model, **{a: v for a, v in full.items() if a != drop})
    ctx.raises('missing-positional-refused', TypeError, model, *[env[a] for a in args[:-1]])
    ctx.raises('surplus-refused', TypeError, model, **dict(full, surely_not_here=1.0))
    ctx.raises('surplus-positional-refused', TypeError, model, *([env[a] for a in args] + [1.0]))
    ctx.raises('duplicate-refused', TypeError, model, env[args[0]], **full)
    dep = rng.choice(spec.names)
    ctx.raises('component-as-argument-refused', TypeError, model, **dict(full, **{dep: 1.0}))
