"""C07: binding of data to variables."""
import numpy as np
from symfit import Model, CallableModel, CallableNumericalModel, Fit, Variable, Ge, Le, Eq
from symfit.core.minimizers import BaseMinimizer, ConstrainedMinimizer, BFGS, SLSQP
from symfit.core.fit_results import FitResults
from symfit.core.objectives import LeastSquares, LogLikelihood, MinimizeModel

from .. import gen, expr as E
from ..core import Skip
from ..jet import Track
from .c05 import positive


class Spy(ConstrainedMinimizer):
    """Keeps what the fit hands over."""
    def __init__(self, *args, **kwargs):
        self.handed = kwargs
        super(Spy, self).__init__(*args, **kwargs)

    def execute(self, **options):
        raise NotImplementedError


def form(ctx, arr, kinds):
    """The same numbers in another container."""
    rng = ctx.rng
    k = rng.choice(kinds)
    ctx.tag('form:' + k)
    if k == 'list':
        return arr.tolist()
    if k == 'tuple':
        return tuple(arr.tolist())
    if k == 'noncontiguous':
        big = np.empty(tuple(2 * s for s in arr.shape))
        big[...] = np.nan
        view = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        view[...] = arr
        return view
    if k == 'fortran':
        return np.asfortranarray(arr)
    if k == 'readonly':
        out = np.array(arr)
        out.setflags(write=False)
        return out
    return np.array(arr)


FORMS = ['array', 'array', 'list', 'tuple', 'noncontiguous', 'fortran', 'readonly']


def case(ctx):
    rng, npr = ctx.rng, ctx.np
    kind = rng.choice(['ls', 'ls', 'ls', 'll', 'min'])
    n_comp = 1 if kind == 'min' else rng.choice([1, 2, 2, 3])
    ragged = kind == 'ls' and n_comp > 1 and rng.random() < 0.5
    n_indep = 0 if kind == 'min' else n_comp if ragged else rng.choice([1, 2, 2, 3])
    spec = gen.rand_spec(rng, n_comp=n_comp, n_indep=n_indep, n_param=rng.choice([1, 2, 3]), depth=rng.choice([1, 2]),
                         dep_prob=0 if ragged else rng.choice([0, 0, 0.6]), own_indep=ragged, need_x=True)
    if not spec.params:
        raise Skip('no parameters')
    if kind == 'll':
        for c in spec.dependent:
            spec.comps[c] = positive(rng, spec.comps[c])
    if kind == 'ls' and not spec.indep:
        raise Skip('no independent variables')
    if ragged:
        indep = {v: np.round(npr.uniform(-1.6, 1.6, rng.choice([(rng.randint(1, 6),), (2, 3)])), 4) for v in spec.indep}
    else:
        shape = rng.choice([(rng.randint(2, 6),), (rng.randint(2, 6),), (2, 3), (1,)])
        indep = {v: np.round(npr.uniform(-1.6, 1.6, shape), 4) for v in spec.indep}
    if rng.random() < 0.2:
        indep = {v: np.round(a * 2).astype(int) for v, a in indep.items()}
    values = {p: gen.rand_param_value(rng) for p in spec.params}
    env = dict(indep, **values)
    f = spec.values(env)
    if not np.isfinite(Track.m) or Track.m > 1e4:
        raise Skip('ill-conditioned')
    mag = max(Track.m, 1.0)
    syms = spec.symbols(values=values)
    md = spec.model_dict(syms, gen.shuffled(rng, spec.comps))
    model = Model(md) if rng.random() < 0.7 else md
    m = model if isinstance(model, Model) else Model(md)

    # the data, as numbers and in the form handed over
    y, s = {}, {}
    passed = {v: form(ctx, indep[v], FORMS) for v in spec.indep}
    none = []
    if kind == 'ls':
        for c in spec.dependent:
            y[c] = np.round(f[c] + npr.uniform(-2, 2, f[c].shape), 4)
            if len(spec.dependent) - len(none) > 1 and rng.random() < 0.2:
                none.append(c)
                y[c] = None
                passed[c] = None
                ctx.tag('none-data')
                continue
            passed[c] = form(ctx, y[c], FORMS)
        for c in spec.dependent:
            key = 'sigma_' + c
            if c in none:
                if rng.random() < 0.3:
                    passed[key] = None
                continue
            how = rng.choice(['absent', 'absent', 'none', 'scalar', 'int', 'numpy-scalar', '0d', 'array', 'array', 'list'])
            ctx.tag('sigma:' + how)
            if how in ('absent', 'none'):
                s[c] = np.ones(f[c].shape)
                if how == 'none':
                    passed[key] = None
                continue
            if how in ('array', 'list'):
                s[c] = np.round(npr.uniform(0.3, 2.0, f[c].shape), 4)
                passed[key] = form(ctx, s[c], FORMS if how == 'array' else ['list'])
            else:
                v = 3 if how == 'int' else round(rng.uniform(0.3, 2), 3)
                s[c] = np.full(f[c].shape, float(v))
                passed[key] = {'scalar': v, 'int': v, 'numpy-scalar': np.float64(v), '0d': np.array(float(v))}[how]
    # constraints with data of their own
    constraints, extra, con_want = [], {}, []
    if rng.random() < 0.35:
        taken = set(spec.indep + spec.names + spec.params)
        a = rng.choice(spec.params)
        ncon = rng.choice([1, 2])
        for i in range(ncon):
            vn = gen.names(rng, ['K', 'M', 'dx', 'u1', 'zeta_', 'B2', 'X9', 'w_'], 1, taken)[0]
            taken.add(vn)
            V = Variable(vn)
            num = round(rng.uniform(0.5, 2), 3)
            extra[vn] = num
            sgn = rng.choice(['ge', 'le', 'eq'])
            rel = {'ge': Ge, 'le': Le, 'eq': Eq}[sgn](syms[a] * V, 0.25 + V)
            g = values[a] * num - 0.25 - num
            if rng.random() < 0.4:
                rel = Model.as_constraint(rel, m)
            constraints.append(rel)
            con_want.append((-g if sgn == 'le' else g))
        ctx.tag('constraint-data')
    order = spec.indep + (spec.dependent if kind == 'ls' else []) + \
        (['sigma_' + c for c in spec.dependent] if kind == 'ls' else [])
    kw = dict(minimizer=Spy, constraints=constraints) if constraints else {}
    if kind == 'll':
        kw['objective'] = LogLikelihood
    if kind == 'min' and rng.random() < 0.5:
        kw['objective'] = MinimizeModel
    style = rng.choice(['named', 'positional', 'mixed'])
    if constraints:
        style = 'named'
    ctx.describe(kind=kind, model=spec.text(), values=values, indep=indep, y=y, sigma=s, style=style,
                 given=sorted(passed), none=none, extra=extra, constraints=[str(c) for c in constraints])
    ctx.tag('kind:' + kind, 'style:' + style)
    if style == 'positional':
        args = []
        for k in order:
            if k not in passed and k.startswith('sigma_') and not any(q in passed for q in order[order.index(k):]):
                break
            args.append(passed.get(k))
        named = {}
    elif style == 'mixed':
        k = rng.randint(0, len(spec.indep))
        args = [passed[v] for v in spec.indep[:k]]
        named = {q: passed[q] for q in gen.shuffled(rng, passed) if q not in spec.indep[:k]}
    else:
        args, named = [], {q: passed[q] for q in gen.shuffled(rng, passed)}
    named.update(extra)
    mk = lambda *a, **k: Fit(model, *a, **dict(kw, **k))
    fit = mk(*args, **named)

    # what the objective sees
    tol = 1e-9 + 1e-10 * mag ** 2 * 12
    if kind == 'ls':
        want = 0.0
        for c in spec.dependent:
            if c not in none:
                want += 0.5 * np.sum(((f[c] - y[c]) / s[c]) ** 2)
        ctx.check('objective-type', isinstance(fit.objective, LeastSquares), got=type(fit.objective))
    elif kind == 'll':
        want = -sum(np.sum(np.log(f[c])) for c in spec.dependent)
        ctx.check('objective-type', isinstance(fit.objective, LogLikelihood), got=type(fit.objective))
    else:
        want = f[spec.dependent[0]]
        ctx.check('objective-type', isinstance(fit.objective, MinimizeModel), got=type(fit.objective))
    got = fit.objective([values[p] for p in spec.params])
    ctx.close('objective-sees-its-data', np.ravel(got), np.ravel(want), rtol=1e-9, atol=tol)
    # the data by variable
    for v in spec.indep:
        d = fit.independent_data[syms[v]]
        ctx.check('independent-is-array', isinstance(d, np.ndarray), var=v, type=type(d))
        ctx.close('independent-data', d, indep[v], rtol=0, atol=0, var=v)
    if kind == 'ls':
        for c in spec.dependent:
            dv = syms[c]
            d = fit.dependent_data[dv]
            sv = [q for q in fit.sigma_data if q.name == 'sigma_' + c]
            if c in none:
                ctx.check('none-stays-none', d is None, var=c)
                continue
            ctx.check('dependent-is-array', isinstance(d, np.ndarray), var=c, type=type(d))
            ctx.close('dependent-data', d, y[c], rtol=0, atol=0, var=c)
            if ctx.check('sigma-bound', len(sv) == 1, var=c, keys=list(fit.sigma_data)):
                ctx.close('sigma-data', fit.sigma_data[sv[0]], s[c], rtol=1e-15, atol=0, var=c)
    # data of the constraints
    if constraints:
        handed = fit.minimizer.handed.get('constraints')
        ctx.check('constraints-handed', len(handed) == len(constraints))
        for con, g in zip(handed, con_want):
            ctx.close('constraint-sees-its-data', np.ravel(con([values[p] for p in spec.params])), [g],
                      rtol=1e-9, atol=1e-9)

    # refusals
    full = {v: indep[v] for v in spec.indep}
    if kind == 'ls':
        full.update({c: y[c] if y[c] is not None else f[c] for c in spec.dependent})
    full.update(extra)
    ctx.raises('unknown-name-refused', TypeError, mk, **dict(full, surely_not_here=np.ones(3)))
    for q in rng.sample(sorted(spec.params), 1):
        ctx.raises('parameter-as-data-refused', TypeError, mk, **dict(full, **{q: 1.0}))
    if kind != 'min':
        gone = rng.choice([k for k in full if k in spec.indep or k in spec.dependent])
        ctx.raises('missing-data-refused', TypeError, mk, **{k: v for k, v in full.items() if k != gone})
    if not constraints:
        n = len(spec.indep) + 2 * len(spec.dependent)
        ctx.raises('surplus-positional-refused', TypeError, mk, *([np.ones(3)] * (n + 1)))
        if spec.indep:
            ctx.raises('duplicate-refused', TypeError, mk, indep[spec.indep[0]], **full)
    if kind in ('ll', 'min'):
        obj = LogLikelihood if kind == 'll' else MinimizeModel
        c = rng.choice(spec.dependent)
        bad = rng.choice([c, 'sigma_' + c])
        ctx.raises('dependent-data-refused', TypeError, mk, **dict(full, objective=obj, **{bad: np.ones(4)}))
    else:
        c = rng.choice(spec.dependent)
        if len(spec.dependent) == 1:
            ctx.raises('dependent-data-refused', TypeError, mk, **dict(full, objective=MinimizeModel))
        ctx.raises('dependent-data-refused', TypeError, mk, **dict(full, objective=LogLikelihood))
