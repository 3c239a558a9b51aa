"""C19: minimizer selection, chaining and option routing are faithful."""
import numpy as np
from symfit import Fit, Model, CallableModel, ODEModel, D, Parameter, Variable, Eq, Ge, Le
from symfit.core.minimizers import (
    BFGS, LBFGSB, SLSQP, NelderMead, Powell, COBYLA, TrustConstr, DifferentialEvolution, BasinHopping, MINPACK, ChainedMinimizer,
    BoundedMinimizer, ConstrainedMinimizer, GradientMinimizer, HessianMinimizer, BaseMinimizer)
from symfit.core.objectives import LeastSquares, LogLikelihood, MinimizeModel

from .. import gen, fits, expr as E, record
from ..core import Skip, Inconclusive
from ..fits import add, mul, fun, s_, c_
from ..handed import Handed, scripted_result

METHOD = {'BFGS': 'bfgs', 'LBFGSB': 'l-bfgs-b', 'SLSQP': 'slsqp', 'NelderMead': 'nelder-mead', 'Powell': 'powell', 'COBYLA': 'cobyla', 'TrustConstr': 'trust-constr'}
ENTRY = {'DifferentialEvolution': 'differential_evolution', 'BasinHopping': 'basinhopping', 'MINPACK': 'least_squares'}


def which(call):
    """The algorithm a recorded call runs."""
    if call.entry != 'minimize':
        return {v: k for k, v in ENTRY.items()}[call.entry]
    return {v: k for k, v in METHOD.items()}.get(str(call['method']).lower(), str(call['method']))


def some_fit(ctx, n_free=None, bounded=None, n_fixed=None, fixed_bounds=False, wide=False):
    """A small problem: returns (make(minimizer, constraints) -> Fit, syms, info)."""
    rng = ctx.rng
    kind = rng.choice(['ls', 'ls', 'two', 'minimise', 'numerical', 'likelihood', 'ode', 'ordered'])
    n_free = n_free or rng.choice([1, 2, 3, 4])
    n_fixed = rng.choice([0, 0, 1, 2]) if n_fixed is None else n_fixed
    P = gen.names(rng, gen.PARAM_NAMES, n_free + n_fixed)
    fixed = set(rng.sample(P, n_fixed))
    free = [p for p in sorted(P) if p not in fixed]
    start = {p: round(rng.uniform(0.4, 1.6), 3) for p in P}
    attrs = {p: {} for p in P}
    has_bounds = set()
    for p in P:
        if p in fixed:
            attrs[p]['fixed'] = True
            if fixed_bounds or rng.random() < 0.4:
                attrs[p].update(min=rng.choice([None, 0.1]), max=rng.choice([None, 5.0]))
        elif bounded if not isinstance(bounded, float) else rng.random() < bounded:
            lo, hi = rng.choice([(0.1, None), (None, 3.0), (0.2, 2.5), (0.0, None), (None, 2.0), (0, 4), (0.0, 9.0)])
            if wide:
                lo, hi = 0.1, 4.0
            attrs[p].update(min=lo, max=hi)
            has_bounds.add(p)
    if has_bounds or any('min' in a for a in attrs.values()):
        ctx.tag('with bounds')
    syms = {p: Parameter(p, value=start[p], **attrs[p]) for p in gen.shuffled(rng, P)}
    taken = set(P)
    xs = gen.names(rng, gen.VAR_NAMES, 1, taken)
    ys = gen.names(rng, gen.COMP_NAMES, 2, taken | set(xs))
    x, y, z = (Variable(n) for n in xs + ys)
    xd = np.linspace(0.2, 2, 9)
    ctx.tag('problem:' + kind)
    if kind == 'likelihood':
        from symfit import exp
        m = Model({y: exp(-x * sum(syms[p] for p in P)) * sum(syms[p] for p in P)})
        make = lambda mini, cons=(): Fit(m, minimizer=mini, constraints=list(cons), objective=LogLikelihood, **{x.name: np.array(xd)})
    elif kind == 'minimise':
        m = Model({y: sum((syms[p] - round(rng.uniform(0.5, 1.5), 2)) ** 2 for p in P)})
        make = lambda mini, cons=(): Fit(m, minimizer=mini, constraints=list(cons))
    elif kind == 'ode':
        m = ODEModel({D(y, x): -y * sum(syms[p] for p in P)}, initial={x: 0.0, y: 1.0})
        make = lambda mini, cons=(): Fit(m, minimizer=mini, constraints=list(cons), **{x.name: np.array(xd), y.name: np.exp(-xd)})
    else:
        powers = {p: i + 1 for i, p in enumerate(P)}
        node = add(*[mul(s_(p), ('^', s_(x.name), k)) for p, k in powers.items()])
        yd = sum(round(rng.uniform(0.5, 1.5), 2) * xd ** k for k in powers.values()) + ctx.np.normal(0, 0.05, 9)
        e = sum((syms[p] * x ** k for p, k in powers.items()), 0)
        if kind == 'numerical':
            from symfit import CallableNumericalModel
            m = CallableNumericalModel({y: record.Callable(node)}, connectivity_mapping={y: {x} | set(syms.values())})
        elif kind == 'two':
            m = Model({y: e, z: e * syms[P[0]] + x})
        else:
            m = CallableModel({y: e}) if rng.random() < 0.2 else Model({y: e})
        if kind == 'ordered':
            make = lambda mini, cons=(): Fit(m, np.array(xd), np.array(yd), minimizer=mini, constraints=list(cons))
        else:
            data = {x.name: xd, y.name: yd}
            if kind == 'two':
                data[z.name] = yd * 1.1
            make = lambda mini, cons=(): Fit(m, minimizer=mini, constraints=list(cons), **{k: np.array(v) for k, v in data.items()})
    ctx.describe(kind=kind, params={p: dict(value=start[p], **attrs[p]) for p in P})
    return make, syms, dict(kind=kind, free=free, fixed=sorted(fixed), all=sorted(P), start=start, bounded=sorted(has_bounds), model=m)


def some_constraints(ctx, syms, info):
    rng = ctx.rng
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        e = sum(syms[p] for p in info['all'])
        v = sum(info['start'].values())
        out.append(rng.choice([Ge(e, v - 1), Le(e, v + 1), Le(v - 2, e), Ge(syms[info['all'][0]], 0.01)]))
    if len(info['free']) > 1 and rng.random() < 0.3:
        out.append(Eq(syms[info['free'][0]], syms[info['free'][1]]))
    return out


def selection(ctx):
    rng = ctx.rng
    make, syms, info = some_fit(ctx, bounded=rng.choice([False, False, True, 0.4, 0.4]), n_free=None)
    cons = some_constraints(ctx, syms, info) if info['kind'] not in ('ode',) and rng.random() < 0.4 else []
    ctx.describe(what='selection', constraints=[str(c) for c in cons], bounded=info['bounded'])
    ctx.tag('selection', 'constraints' if cons else 'no constraints', 'bounded' if info['bounded'] else 'unbounded')
    picks = [('auto', make(None, cons).minimizer)]
    if rng.random() < 0.4:
        picks.append(('hopping', make(BasinHopping, cons).minimizer.local_minimizer))
    for label, m in picks:
        text = dict(label=label, got=type(m).__name__, constraints=len(cons), bounded=info['bounded'])
        if cons:
            ctx.check('constraints-get-a-capable-minimizer', isinstance(m, ConstrainedMinimizer), **text)
        elif not info['bounded'] and not info['fixed']:
            ctx.check('unconstrained-otherwise', not isinstance(m, (ConstrainedMinimizer, BoundedMinimizer)), **text)
        if info['bounded']:
            ctx.check('bounds-get-a-capable-minimizer', isinstance(m, BoundedMinimizer), **text)
        ctx.check('free-parameters', [p.name for p in m.params] == info['free'], got=[p.name for p in m.params], want=info['free'])
        if cons:
            ctx.check('all-constraints-handed-over', len(m.constraints) == len(cons), got=len(m.constraints), want=len(cons))
    # an explicit choice is used as it is
    choice = rng.choice([BFGS, NelderMead, Powell, SLSQP, LBFGSB, TrustConstr, COBYLA])
    if not (choice is TrustConstr and info['kind'] == 'ode'):
        fit = make(choice, cons if choice in (SLSQP, COBYLA, TrustConstr) else [])
        ctx.check('choice-honoured', type(fit.minimizer) is choice, got=type(fit.minimizer), want=choice)
    # what runs is what was selected
    nits = []
    with Handed(lambda call, n: scripted_result(call, np.array([info['start'][p] for p in info['free']]) * 1.01, 7)) as h:
        fit = make(None, cons)
        res = fit.execute()
    if not h.calls:
        raise Inconclusive('scipy not reached')
    ctx.check('selected-algorithm-runs', [which(c) for c in h.calls] == [type(fit.minimizer).__name__], got=[which(c) for c in h.calls], want=type(fit.minimizer).__name__)
    ctx.check('iterations', res.iterations == 7, got=res.iterations)


STAGES = [BFGS, LBFGSB, SLSQP, NelderMead, Powell, COBYLA, TrustConstr, DifferentialEvolution, BasinHopping, MINPACK]
STAGE_OPTIONS = {
    'BFGS': [dict(tol=1e-3), dict(options={'maxiter': 3}), dict(tol=1e-5, options={'gtol': 1e-3})],
    'LBFGSB': [dict(tol=1e-4), dict(options={'maxiter': 4})],
    'SLSQP': [dict(tol=1e-4), dict(options={'maxiter': 5, 'ftol': 1e-4})],
    'NelderMead': [dict(tol=0.1), dict(options={'xatol': 0.1, 'maxiter': 50})],
    'Powell': [dict(tol=0.01), dict(options={'maxfev': 60})],
    'COBYLA': [dict(tol=0.01), dict(options={'rhobeg': 0.1, 'maxiter': 90})],
    'TrustConstr': [dict(tol=0.01), dict(options={'maxiter': 12}), dict(options={'initial_tr_radius': 0.5, 'xtol': 1e-4})],
    'DifferentialEvolution': [dict(seed=3, maxiter=4), dict(tol=0.2, popsize=7, seed=1, maxiter=3), dict(mutation=(0.2, 0.9), strategy='best1bin', maxiter=3),
                              dict(recombination=0.3, init='random', polish=True, maxiter=2)],
    'BasinHopping': [dict(niter=2, seed=5), dict(niter=1, T=0.3, stepsize=0.2, seed=2), dict(niter=1, minimizer_kwargs={'tol': 1e-3})],
    'MINPACK': [dict(max_nfev=50), dict(ftol=1e-4, xtol=1e-5), dict(loss='soft_l1')],
}
DE_DEFAULTS = ('strategy', 'popsize', 'mutation', 'recombination', 'polish', 'init')


def option_names(stages):
    """The name each stage's options go by."""
    names = [s.__name__ for s in stages]
    seen, out = {}, []
    for n in names:
        seen[n] = seen.get(n, 0) + 1
        out.append(n if seen[n] == 1 else '{}_{}'.format(n, seen[n]))
    return out


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a is b or bool(np.all(a == b))


def reached(ctx, call, options, stage, label):
    """The options given are the ones scipy gets, and nobody else's."""
    flat = dict(call.given)
    for k, v in options.items():
        got = flat.get(k)
        if k in ('options', 'minimizer_kwargs'):
            ok = isinstance(got, dict) and all(same(got.get(q), w) for q, w in v.items())
        else:
            ok = same(got, v)
        ctx.check('option-reaches-its-stage', ok, stage=label, option=k, given=v, got=got)


def no_leaks(ctx, call, options, others, stage, label):
    flat = dict(call.given)
    for k, v in others.items():
        if k in options:
            continue
        got = flat.get(k)
        if isinstance(v, dict):
            own = set(v) & set(got or {}) if isinstance(got, dict) else set()
            ctx.check('option-stays-with-its-stage', not own, stage=label, option=k, leaked=sorted(own))
        elif k in flat and not (k == 'tol' or k in DE_DEFAULTS):
            ctx.check('option-stays-with-its-stage', False, stage=label, option=k, got=got)


def chain(ctx):
    rng = ctx.rng
    scripted = rng.random() < 0.7
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    pool = rng.sample(STAGES, rng.randint(1, 4)) if scripted else rng.sample([BFGS, LBFGSB, SLSQP, NelderMead, Powell, COBYLA, BasinHopping, DifferentialEvolution], 2)
    stages = [rng.choice(pool) for _ in range(n)]
    need_box = DifferentialEvolution in stages
    make, syms, info = some_fit(ctx, n_free=rng.choice([1, 2, 3]), bounded=True if need_box else rng.choice([False, False, True, 0.5]), wide=need_box)
    if info['kind'] == 'ode' and not scripted:
        raise Skip('slow')
    if not scripted and need_box and len(info['free']) > 2:
        raise Skip('slow')
    if not scripted and stages[0] is DifferentialEvolution and n == 1:
        raise Skip('one DE')
    free, start = info['free'], info['start']
    names = option_names(stages)
    options = {}
    for s, nm in zip(stages, names):
        if rng.random() < (0.5 if s is not DifferentialEvolution and s is not BasinHopping or scripted else 1):
            options[nm] = dict(rng.choice(STAGE_OPTIONS[s.__name__]))
    keep = {k: {q: dict(w) if isinstance(w, dict) else w for q, w in v.items()} for k, v in options.items()}
    ctx.describe(what='chain', stages=[s.__name__ for s in stages], options=options, scripted=scripted)
    ctx.tag('chain', 'scripted' if scripted else 'real', 'stages:%d' % n, 'repeats' if len(set(stages)) < n else 'distinct', *['stage:' + s.__name__ for s in stages])
    answers = [[round(rng.uniform(0.5, 1.5), 4) for _ in free] for _ in stages]
    nits = [rng.randint(0, 40) for _ in stages]
    script = (lambda call, k: scripted_result(call, answers[k % n], nits[k % n])) if scripted else None
    form = rng.choice(['list', 'list', 'tuple', 'instances', 'direct'])
    if MINPACK in stages and form == 'instances':
        form = 'list'
    if form == 'list':
        fit = make(list(stages))
    elif form == 'tuple':
        fit = make(tuple(stages))
    elif form == 'instances':
        once = {s: make(s).minimizer for s in stages}
        if rng.random() < 0.5:
            # the same minimizer object may do several stages
            fit = make([once[s] for s in stages])
            ctx.tag('one object several stages')
        else:
            fit = make([make(s).minimizer if rng.random() < 0.6 else s for s in stages])
    else:
        owner = make(BFGS)
        minis = [owner._init_minimizer(s) if hasattr(owner, '_init_minimizer') else make(s).minimizer for s in stages]
        fit = ChainedMinimizer(owner.objective, owner.model.params, minimizers=minis)
    ctx.tag('given as:' + form)
    order = gen.shuffled(rng, list(options.items()))
    first = [start[p] for p in free]
    if rng.random() < 0.3:
        # told where to start
        first = [round(v * rng.uniform(0.8, 1.2), 4) for v in first]
        (fit if form == 'direct' else fit.minimizer).initial_guesses = list(first)
        ctx.tag('guesses given')
    rounds = rng.choice([1, 1, 2])
    for rnd in range(rounds):
        with Handed(script) as h:
            res = fit.execute(**dict(order))
        ran = [which(c) for c in h.calls]
        if not ran:
            raise Inconclusive('scipy not reached')
        if not ctx.check('each-stage-once-in-order', ran == [s.__name__ for s in stages], got=ran, want=[s.__name__ for s in stages]):
            return
        guess = first
        for k, (call, s, nm) in enumerate(zip(h.calls, stages, names)):
            if s is not DifferentialEvolution:
                ctx.close('starts-from-the-previous-result' if k else 'starts-from-the-initial-values', np.ravel(call['x0']), guess, rtol=1e-12, atol=1e-12,
                          stage=nm, round=rnd, number=k)
            guess = np.ravel(call.answer['x']).tolist()
            reached(ctx, call, options.get(nm, {}), s, nm)
            others = {}
            for other, o in options.items():
                if other != nm:
                    others.update(o)
            no_leaks(ctx, call, options.get(nm, {}), others, s, nm)
        want = dict(zip(free, guess))
        want.update({p: start[p] for p in info['fixed']})
        ctx.check('result-names', list(res.params) == info['all'], got=list(res.params), want=info['all'])
        ctx.check('result-of-the-last-stage', all(float(res.params[p]) == want[p] for p in info['all']), got=dict(res.params), want=want)
        total, optional = 0, 0
        for call, s in zip(h.calls, stages):
            if s is COBYLA:
                optional += call.answer['nfev'] if 'nfev' in call.answer else 0
            else:
                total += call.answer.get('nit', 0) or 0
        counted = [total] if COBYLA not in stages else [total, total + sum(nits[k] * 3 + 1 for k, s in enumerate(stages) if s is COBYLA)] if scripted else None
        if counted is not None:
            ctx.check('iterations-summed', res.iterations in counted, got=res.iterations, want=counted, stages=names)
        ctx.check('options-not-altered', options == keep, got=options, want=keep)
    for bad in unknown_names(rng, stages, names):
        with Handed(script) as h:
            ctx.raises('unknown-option-refused', TypeError, fit.execute, **{bad: {}})
        ctx.check('nothing-ran', not h.calls, option=bad, got=[which(c) for c in h.calls])


def unknown_names(rng, stages, names):
    out = ['tol', 'NotThere', 'options', 'minimizer_kwargs']
    for s in set(stages):
        out += [v for v in (s.__name__, s.__name__ + '_1', s.__name__ + '_%d' % (stages.count(s) + 1), s.__name__ + '_0', s.__name__.lower()) if v not in names]
    for s in STAGES:
        if s not in stages:
            out.append(s.__name__)
    return rng.sample(sorted(set(out)), 3)


def single(ctx):
    """Options of a single minimizer reach the algorithm."""
    rng = ctx.rng
    s = rng.choice(STAGES)
    make, syms, info = some_fit(ctx, n_free=rng.choice([1, 2]), bounded=True if s is DifferentialEvolution else rng.choice([False, 0.5]), wide=s is DifferentialEvolution)
    if info['kind'] == 'ode':
        raise Skip('slow')
    if s is MINPACK and info['kind'] in ('minimise', 'likelihood'):
        s = BFGS
    if s is MINPACK and info['kind'] == 'two':
        raise Skip('flat')
    if s is BasinHopping and info['bounded'] and info['kind'] == 'likelihood':
        raise Skip('hops out of the domain')
    free = info['free']
    options = dict(rng.choice(STAGE_OPTIONS[s.__name__]))
    options = {k: dict(v) if isinstance(v, dict) else v for k, v in options.items()}
    seen = []
    if s in (BFGS, LBFGSB, SLSQP, NelderMead, Powell, TrustConstr, DifferentialEvolution, BasinHopping) and rng.random() < 0.6:
        options['callback'] = lambda *a, **k: seen.append(a) and None
    ctx.describe(what='single', minimizer=s.__name__, options=options)
    ctx.tag('single', 'minimizer:' + s.__name__, *['option:' + k for k in options])
    keep = {k: dict(v) if isinstance(v, dict) else v for k, v in options.items()}
    fit = make(s)
    with Handed() as h:
        res = fit.execute(**options)
    if h.calls:
        ctx.check('one-call', len(h.calls) == 1 and which(h.calls[0]) == s.__name__, got=[which(c) for c in h.calls])
        reached(ctx, h.calls[0], options, s, s.__name__)
    ctx.check('options-not-altered', options == keep, got=options, want=keep)
    if 'callback' in options and (res.iterations or 0) > 0:
        ctx.check('callback-called', len(seen) > 0, iterations=res.iterations)
    # observable effects, whoever passes them on
    limit = options.get('options', {}).get('maxiter')
    if limit is not None and s is not COBYLA:
        ctx.check('iteration-limit-respected', res.iterations <= limit, got=res.iterations, limit=limit)
    if s is DifferentialEvolution:
        ctx.check('iteration-limit-respected', res.iterations <= options['maxiter'], got=res.iterations, limit=options['maxiter'])
    if s is BasinHopping and 'niter' in options:
        ctx.check('iteration-limit-respected', res.iterations == options['niter'], got=res.iterations, limit=options['niter'])
    if s is MINPACK and 'max_nfev' in options:
        ctx.check('iteration-limit-respected', res.minimizer_output['nfev'] <= options['max_nfev'])
    if 'seed' in options:
        again = make(s).execute(**options)
        ctx.check('seed-respected', dict(again.params) == dict(res.params), got=dict(again.params), want=dict(res.params))
    bad = rng.choice(['not_an_option', 'max_iterations', 'toll', 'BFGS_1'])
    ctx.raises('unknown-option-refused', TypeError, make(s).execute, **{bad: 1})
    if s in (BFGS, LBFGSB, SLSQP, TrustConstr) and info['kind'] not in ('numerical',) and rng.random() < 0.5:
        calls = []
        inner = fit.minimizer

        def jac(x, *args):
            calls.append(np.array(x))
            return inner.wrapped_jacobian(x)
        if getattr(inner, 'wrapped_jacobian', None) is not None:
            res2 = make(s).execute(jacobian=jac)
            ctx.check('jacobian-override-used', len(calls) > 0, minimizer=s.__name__)


def handed_instances(ctx):
    """Ready-made minimizers are used as they are."""
    rng = ctx.rng
    make, syms, info = some_fit(ctx, n_free=rng.choice([1, 2, 3]), bounded=rng.choice([False, 0.5]))
    s = rng.choice([BFGS, NelderMead, SLSQP, LBFGSB, Powell])
    mini = make(s).minimizer
    fit = make(mini)
    ctx.describe(what='instance', minimizer=s.__name__)
    ctx.tag('instance')
    ctx.check('instance-kept', fit.minimizer is mini)
    x = [round(rng.uniform(0.5, 1.5), 4) for _ in info['free']]
    with Handed(lambda call, n: scripted_result(call, x, 3)) as h:
        res = fit.execute(tol=1e-3)
    if not h.calls:
        raise Inconclusive('scipy not reached')
    ctx.check('instance-runs', [which(c) for c in h.calls] == [s.__name__], got=[which(c) for c in h.calls])
    ctx.check('option-reaches-its-stage', h.calls[0].given.get('tol') == 1e-3, got=h.calls[0].given.get('tol'))
    ctx.check('result-of-the-last-stage', all(float(res.params[p]) == v for p, v in zip(info['free'], x)), got=dict(res.params))


def hopping(ctx):
    """Basin hopping runs the local minimizer it was told to."""
    rng = ctx.rng
    make, syms, info = some_fit(ctx, n_free=rng.choice([1, 2]), bounded=rng.choice([False, False, True]))
    if info['kind'] in ('ode', 'numerical', 'likelihood'):
        raise Skip('slow')
    local = rng.choice([BFGS, LBFGSB, SLSQP, NelderMead, Powell])
    owner = make(BFGS)
    as_instance = rng.random() < 0.5
    loc = make(local).minimizer if as_instance else local
    bh = BasinHopping(owner.objective, owner.model.params, local_minimizer=loc)
    x = [round(rng.uniform(0.5, 1.5), 4) for _ in info['free']]
    ctx.describe(what='hopping', local=local.__name__, instance=as_instance)
    ctx.tag('hopping', 'local:' + local.__name__)
    opts = dict(niter=2, seed=3)
    override = None
    if rng.random() < 0.4:
        override = rng.choice(['Nelder-Mead', 'Powell', 'L-BFGS-B'])
        opts['minimizer_kwargs'] = {'method': override, 'tol': 1e-4}
    with Handed(lambda call, n: scripted_result(call, x, 2)) as h:
        res = bh.execute(**opts)
    if not h.calls:
        raise Inconclusive('scipy not reached')
    mk = h.calls[0]['minimizer_kwargs'] or {}
    ctx.check('local-minimizer-used', str(mk.get('method')).lower() == (override.lower() if override else METHOD[local.__name__]), got=mk.get('method'), want=override or local.__name__)
    if override:
        ctx.check('local-options-reach', mk.get('tol') == 1e-4, got=mk.get('tol'))
        ctx.check('options-not-altered', opts['minimizer_kwargs'] == {'method': override, 'tol': 1e-4}, got=opts)
    if isinstance(loc, BoundedMinimizer) if as_instance else issubclass(local, BoundedMinimizer):
        want = [(syms[p].min, syms[p].max) for p in info['free']]
        got = mk.get('bounds')
        ctx.check('local-bounds', got is not None and [tuple(b) for b in got] == want, got=got, want=want)
    ctx.check('result-of-the-last-stage', all(float(res.params[p]) == v for p, v in zip(info['free'], x)), got=dict(res.params))
    # anything scipy cannot use locally is refused
    class Mine(BaseMinimizer):
        def execute(self, **options):
            raise NotImplementedError
    ctx.raises('unusable-local-minimizer-refused', TypeError, BasinHopping, owner.objective, owner.model.params, local_minimizer=Mine)
    ctx.raises('unusable-local-minimizer-refused', TypeError, BasinHopping, owner.objective, owner.model.params, local_minimizer=Mine(owner.objective, owner.model.params))


def case(ctx):
    r = ctx.rng.random()
    (selection if r < 0.3 else chain if r < 0.65 else single if r < 0.85 else handed_instances if r < 0.92 else hopping)(ctx)
