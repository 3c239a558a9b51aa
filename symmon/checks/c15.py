"""C15: pickled objects behave identically when restored, here, in a fresh interpreter and in a pool."""
import atexit
import copy
import json
import multiprocessing
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np
from symfit import (Fit, Model, CallableModel, GradientModel, CallableNumericalModel, ODEModel, Parameter, Variable, Eq, Ge, Le)
from symfit.core.models import ModelOutput
from symfit.core.minimizers import (BFGS, LBFGSB, SLSQP, NelderMead, Powell, TrustConstr, MINPACK, DifferentialEvolution, BasinHopping, COBYLA)
from symfit.core.objectives import LeastSquares, LogLikelihood, VectorLeastSquares, MinimizeModel

from .. import gen, fits, odes, expr as E, record
from ..behave import behave, differences, execute
from ..core import Skip, Inconclusive
from ..fits import add, mul, fun, s_, c_

NS = dict(BFGS=BFGS, LBFGSB=LBFGSB, SLSQP=SLSQP, NelderMead=NelderMead, Powell=Powell, TrustConstr=TrustConstr, MINPACK=MINPACK,
          DE=DifferentialEvolution, BasinHopping=BasinHopping, COBYLA=COBYLA)
_server = [None]


def fresh(kind, blob, inputs):
    """Behaviour in an interpreter which has never seen these symbols (other hash seed)."""
    if _server[0] is None or _server[0].poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str((int(os.environ.get('PYTHONHASHSEED', '1') or 1) * 31 + 17) % 4294967295))
        _server[0] = subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-m', 'symmon.behave'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, text=True, env=env)
        atexit.register(_server[0].kill)
        if _server[0].stdout.readline().strip() != 'ready':
            raise Inconclusive('no fresh interpreter')
    fd, path = tempfile.mkstemp(dir=os.environ.get('SYMMON_TMP'))
    with os.fdopen(fd, 'wb') as fh:
        pickle.dump((kind, blob, inputs), fh)
    try:
        _server[0].stdin.write(path + '\n')
        _server[0].stdin.flush()
        _server[0].stdout.readline()
        with open(path + '.out') as fh:
            return json.load(fh)
    finally:
        for p in (path, path + '.out'):
            if os.path.exists(p):
                os.unlink(p)


def judge(ctx, kind, obj, inputs, rtol=1e-9, warm=True):
    """Round trips of `obj`; its own behaviour before and after as well."""
    rng = ctx.rng
    if not warm:
        # pickled before anything is computed or cached
        blob = pickle.dumps(obj, protocol=rng.choice([2, 4, pickle.HIGHEST_PROTOCOL]))
    before = json.loads(json.dumps(behave(kind, obj, inputs)))
    if warm:
        blob = pickle.dumps(obj, protocol=rng.choice([2, 4, pickle.HIGHEST_PROTOCOL]))
    ctx.tag('kind:' + kind, 'pickled ' + ('after' if warm else 'before') + ' use')
    after = json.loads(json.dumps(behave(kind, obj, inputs)))
    d = differences(before, after, rtol)
    ctx.check('original-unchanged:' + kind, not d, differences=d[:4])
    new = pickle.loads(blob)
    got = json.loads(json.dumps(behave(kind, new, inputs)))
    d = differences(before, got, rtol)
    ctx.check('restored-here:' + kind, not d and type(new) is type(obj), differences=d[:4])
    if rng.random() < 0.25:
        got = json.loads(json.dumps(behave(kind, copy.deepcopy(obj), inputs)))
        d = differences(before, got, rtol)
        ctx.check('deep-copied:' + kind, not d, differences=d[:4])
    out = fresh(kind, blob, inputs)
    if 'error' in out:
        ctx.check('restored-in-fresh-interpreter:' + kind, False, error=out['error'], where=out['where'])
        return
    d = differences(before, out['first'], rtol)
    ctx.check('restored-in-fresh-interpreter:' + kind, not d, differences=d[:4])
    d = differences(before, out['again'], rtol)
    ctx.check('second-round-trip:' + kind, not d, differences=d[:4])


# -- workloads ----------------------------------------------------------------------------

def make_symbols(ctx):
    rng = ctx.rng
    out = []
    for n in gen.names(rng, gen.PARAM_NAMES, rng.randint(1, 4)):
        kw = {}
        if rng.random() < 0.6:
            kw['value'] = rng.choice([0.0, -2.5, 1e-9, 3, 1e6, round(rng.uniform(-3, 3), 4)])
        if rng.random() < 0.4:
            kw['min'] = rng.choice([0, 0.0, -1.5, -1e3, 2])
        if rng.random() < 0.4:
            kw['max'] = rng.choice([5, 7.5, 1e6, 2])
        if rng.random() < 0.3:
            kw['fixed'] = True
        out.append(Parameter(n, **kw))
    for n in gen.names(rng, gen.VAR_NAMES, rng.randint(0, 2)):
        out.append(Variable(n))
    if rng.random() < 0.3:
        out.append(Parameter(value=2.5, min=0))
    if rng.random() < 0.3:
        out.append(Variable())
    rng.shuffle(out)
    ctx.describe(kind='symbols', symbols=[str(s) for s in out])
    judge(ctx, 'symbols', out, None, warm=rng.random() < 0.5)


def make_model(ctx):
    rng = ctx.rng
    kind = rng.choice(['Model', 'Model', 'CallableModel', 'GradientModel', 'numeric', 'mixed', 'ode', 'list', 'output', 'constraint',
                       'numeric constraint'])
    ctx.tag('model:' + kind)
    if kind == 'ode':
        pr = odes.ode_problem(ctx, fixed_initial=rng.random() < 0.3)
        kw = rng.choice([{}, dict(rtol=1e-8), dict(atol=1e-7, rtol=1e-7)])
        args = rng.choice([(), (), (None, 1e-8)]) if False else ()
        model = ODEModel(pr.model_dict, pr.initial, *args, **kw)
        t = np.sort(pr.times(ctx))
        if rng.random() < 0.5:
            t = t[t >= pr.t0]
        if len(t) == 0:
            t = np.array([pr.t0 + 0.5])
        inputs = dict(pr.values, **{pr.tname: t})
        ctx.describe(kind=kind, model=str(pr.model_dict), initial=str(pr.initial), t=t, kw=kw)
        judge(ctx, 'model', model, inputs, rtol=1e-7, warm=rng.random() < 0.5)
        return
    for _ in range(20):
        try:
            spec = gen.rand_spec(rng, n_comp=rng.randint(1, 3), n_indep=rng.randint(1, 2), n_param=rng.randint(1, 4), dep_prob=rng.choice([0, .6]))
            break
        except Skip:
            continue
    else:
        raise Skip('no model')
    env = {p: round(rng.uniform(0.3, 2), 3) for p in spec.params}
    n = rng.randint(1, 5)
    inputs = dict(env, **{v: np.round(ctx.np.uniform(0.2, 2, n), 3) for v in spec.indep})
    attrs = {}
    for p in spec.params:
        attrs[p] = rng.choice([{}, {}, {'min': 0.0}, {'max': 5.0}, {'fixed': True}, {'min': 0, 'max': 4}])
    syms = spec.symbols(values=env, **attrs)
    ctx.describe(kind=kind, model=spec.text(), inputs=inputs)
    if kind in ('numeric', 'mixed'):
        mixed = [c for c in spec.comps if rng.random() < 0.5] if kind == 'mixed' else []
        if len(mixed) == len(spec.comps):
            mixed = mixed[1:]
        model = record.numerical(spec, syms, mixed=mixed)
        judge(ctx, 'model', model, inputs, warm=rng.random() < 0.5)
        return
    order = gen.shuffled(rng, spec.comps)
    md = spec.model_dict(syms, order)
    if kind == 'list':
        if any(E.symbols_of(spec.comps[c]) & set(spec.comps) for c in spec.comps):
            raise Skip('dependent')
        model = Model([md[syms[c]] for c in order])
        judge(ctx, 'model', model, inputs, warm=rng.random() < 0.5)
        return
    cls = {'Model': Model, 'CallableModel': CallableModel, 'GradientModel': GradientModel}.get(kind, Model)
    model = cls(md)
    if kind == 'output':
        out = model(**inputs)
        judge(ctx, 'output', out, None, warm=rng.random() < 0.5)
        return
    if kind == 'constraint':
        p = rng.choice(spec.params)
        rel = rng.choice([Ge, Le, Eq])(syms[p] * 2.0 + syms[spec.params[0]] ** 2, 0.5)
        con = cls.as_constraint(rel, model)
        judge(ctx, 'model', con, dict(env), warm=rng.random() < 0.5)
        return
    if kind == 'numeric constraint':
        p = rng.choice(spec.params)
        con = CallableNumericalModel.as_constraint({Variable('Con'): record.Callable(add(s_(p), c_(-0.5)))}, model,
                                                   connectivity_mapping={Variable('Con'): {syms[p]}}, constraint_type=rng.choice([Ge, Le, Eq]))
        judge(ctx, 'model', con, dict(env), warm=rng.random() < 0.5)
        return
    judge(ctx, 'model', model, inputs, warm=rng.random() < 0.5)


def make_objective(ctx):
    rng = ctx.rng
    kind = rng.choice(['LeastSquares', 'LeastSquares', 'VectorLeastSquares', 'LogLikelihood', 'MinimizeModel'])
    ctx.tag('objective:' + kind)
    if kind == 'LogLikelihood':
        pr = fits.like_problem(ctx)
        syms = pr.symbols()
        model = Model(pr.spec.model_dict(syms))
        fit = Fit(model, objective=LogLikelihood, **pr.data())
        vals = {p: pr.start[p] for p in pr.spec.params}
    elif kind == 'MinimizeModel':
        spec, H, cen, off, quart = fits.convex_problem(ctx)
        syms = spec.symbols(values=cen)
        fit = Fit(rng.choice([Model, CallableModel])(spec.model_dict(syms)), objective=MinimizeModel)
        vals = {p: round(rng.uniform(-1, 1), 3) for p in spec.params}
    else:
        pr = fits.ls_problem(ctx, fixed_p=0.2, ragged=False if kind == 'VectorLeastSquares' else None)
        syms = pr.symbols()
        cls = rng.choice([Model, Model, GradientModel, CallableModel])
        model = cls(pr.spec.model_dict(syms))
        if rng.random() < 0.15:
            model = record.numerical(pr.spec, syms)
        fit = Fit(model, objective=dict(LeastSquares=LeastSquares, VectorLeastSquares=VectorLeastSquares)[kind], **pr.data())
        vals = {p: pr.start[p] for p in pr.spec.params}
    obj = fit.objective
    ctx.describe(kind=kind, model=str(obj.model), values=vals)
    judge(ctx, 'objective', obj, vals, warm=rng.random() < 0.5)


def configure(ctx, name, free, bounded):
    rng = ctx.rng
    if name == 'DE':
        return DifferentialEvolution, dict(seed=rng.randrange(99), maxiter=8, popsize=4)
    if name == 'BasinHopping':
        return BasinHopping, dict(niter=1, seed=rng.randrange(99))
    if '+' in name:
        parts = name.split('+')
        opts = {}
        for n in parts:
            if n == 'DE':
                opts['DifferentialEvolution'] = dict(seed=3, maxiter=5, popsize=4)
            elif n == 'BasinHopping':
                opts['BasinHopping'] = dict(seed=3, niter=1)
            elif rng.random() < 0.4:
                opts[n if parts.count(n) == 1 else n + '_2'] = dict(tol=1e-6)
        return [NS[n] for n in parts], opts
    return NS.get(name), {}


def fit_of(ctx):
    rng = ctx.rng
    what = rng.choice(['ls', 'ls', 'ls', 'like', 'min', 'ode'])
    names = ['auto', 'BFGS', 'LBFGSB', 'SLSQP', 'NelderMead', 'Powell', 'BasinHopping', 'COBYLA', 'BFGS+NelderMead', 'LBFGSB+LBFGSB',
             'NelderMead+BFGS', 'BasinHopping+BFGS']
    kw = {}
    cons = None
    if what == 'ls':
        pr = fits.ls_problem(ctx, fixed_p=0.2)
        best, _, _, _ = pr.solve(pr.truth)
        if rng.random() < 0.5:
            for p in pr.free:
                pr.bounds[p] = (round(min(best[p], pr.start[p]) - rng.uniform(.5, 1.5), 3), round(max(best[p], pr.start[p]) + rng.uniform(.5, 1.5), 3))
            names += ['DE', 'DE+LBFGSB', 'DE+BFGS+NelderMead']
        syms = pr.symbols()
        cls = rng.choice([Model, Model, GradientModel, CallableModel, 'numeric'])
        if cls == 'numeric':
            model = record.numerical(pr.spec, syms)
        else:
            model = cls(pr.spec.model_dict(syms))
            if cls is Model:
                names += ['TrustConstr', 'TrustConstr+BFGS']
            if len({pr.y[c].shape for c in pr.alive}) == 1:
                names += ['MINPACK', 'MINPACK']
        kw = pr.data()
        free, start = pr.free, pr.start
    elif what == 'like':
        pr = fits.like_problem(ctx)
        syms = pr.symbols()
        model = Model(pr.spec.model_dict(syms))
        kw = dict(pr.data(), objective=LogLikelihood)
        names = ['auto', 'LBFGSB', 'SLSQP', 'NelderMead+LBFGSB']
        free, start = pr.free, pr.start
    elif what == 'min':
        spec, H, cen, off, quart = fits.convex_problem(ctx)
        start = {p: v + round(rng.uniform(-1, 1), 3) for p, v in cen.items()}
        syms = spec.symbols(values=start)
        model = Model(spec.model_dict(syms))
        free = spec.params
        names += ['TrustConstr']
    else:
        pr = odes.ode_problem(ctx, kind=rng.choice(['decay', 'logistic', 'driven']))
        model = ODEModel(pr.model_dict, pr.initial)
        t = pr.t0 + np.linspace(0.1, 2, 8)
        sol = pr.solution(t, pr.values)
        kw = {pr.tname: t}
        for d in pr.deps:
            kw[d] = np.round(sol[d] + 0.02 * ctx.np.normal(size=t.shape), 4)
        names = ['auto', 'LBFGSB', 'NelderMead']
        free, start, syms = None, None, None
    name = rng.choice(names)
    if free and name in ('auto', 'SLSQP', 'COBYLA', 'TrustConstr', 'BasinHopping') and what in ('ls', 'min') and rng.random() < 0.6:
        cons = []
        for _ in range(rng.randint(1, 2)):
            ps = rng.sample(free, min(len(free), 2))
            L = sum(round(rng.uniform(0.5, 2), 2) * syms[p] for p in ps)
            at = float(L.subs({syms[p]: start[p] for p in ps}))
            cons.append(rng.choice([Ge(L, at - 0.3), Le(L, at + 0.3)]))
        if rng.random() < 0.4:
            p = rng.choice(free)
            cons.append(CallableNumericalModel.as_constraint(
                {Variable('Con'): record.Callable(add(s_(p), c_(-start[p] + 0.7)))}, model, connectivity_mapping={Variable('Con'): {syms[p]}},
                constraint_type=Ge))
        kw['constraints'] = cons
    mini, opts = configure(ctx, name, free, None)
    ctx.tag('minimizer:' + name, 'problem:' + what, 'constraints' if cons else 'no constraints')
    ctx.describe(what=what, minimizer=name, model=str(model), cons=str(cons), opts=str(opts), data={k: v for k, v in kw.items() if k != 'constraints'})
    return Fit(model, minimizer=mini, **kw), opts, name


def make_minimizer(ctx):
    rng = ctx.rng
    fit, opts, name = fit_of(ctx)
    warm = rng.random() < 0.4
    if rng.random() < 0.35:
        # told to start elsewhere
        guesses = []
        for p, v in zip(fit.minimizer.params, fit.minimizer.initial_guesses):
            v = v * 1.02 + 0.03
            v = v if p.max is None else min(v, p.max)
            guesses.append(float(v if p.min is None else max(v, p.min)))
        fit.minimizer.initial_guesses = guesses
        ctx.tag('guesses given')
    loose = any(k in name for k in ('Nelder', 'Powell', 'COBYLA', 'DE', 'Trust', 'Basin', 'MINPACK'))
    judge(ctx, 'minimizer', fit.minimizer, {'options': opts, 'loose': loose}, rtol=2e-4 if loose else 1e-6, warm=warm)


def make_result(ctx):
    rng = ctx.rng
    fit, opts, name = fit_of(ctx)
    res = fit.execute(**opts)
    judge(ctx, 'result', res, None, warm=rng.random() < 0.5)
    new = pickle.loads(pickle.dumps(res))
    a = behave('minimizer', fit.minimizer, {'options': opts, 'loose': True})
    b = behave('minimizer', new.minimizer, {'options': opts, 'loose': True})
    d = differences(json.loads(json.dumps(a)), json.loads(json.dumps(b)), 2e-4)
    ctx.check('minimizer-of-restored-result', not d, differences=d[:4])


def pool(ctx):
    """Fits mapped over processes."""
    rng = ctx.rng
    jobs, taken = [], set()
    for _ in range(rng.randint(2, 4)):
        try:
            fit, opts, name = fit_of(ctx)
        except Skip:
            # symbols made on the way may have redefined the ones of earlier jobs
            jobs, taken = [], set()
            continue
        names = {q.name for q in fit.model.params}
        if names & taken:
            jobs, taken = [], set()            # one name is one parameter in a process (K-alias)
        taken |= names
        jobs.append((fit.minimizer, opts))
    if not jobs:
        raise Skip('no fits')
    method = 'fork' if rng.random() < 0.8 else 'spawn'
    ctx.tag('pool:' + method, 'pool size %d' % len(jobs))
    with multiprocessing.get_context(method).Pool(2) as p:
        par = p.map_async(execute, jobs).get(timeout=50)
    serial = [execute(j) for j in jobs]
    for a, b in zip(serial, par):
        d = differences(json.loads(json.dumps(a)), json.loads(json.dumps(b)), 1e-5)
        ctx.check('pool-equals-serial', not d, differences=d[:4])


def alias(ctx):
    """Known finding: a parameter shares its state with every other one of its name in the process."""
    a = Parameter('alias_p', value=2.0)
    blob = pickle.dumps(a)
    a.value = 5.0
    b = pickle.loads(blob)
    ctx.check('restored-attributes', b.value == 2.0, got=b.value)
    if a is b and a.value == 2.0:
        ctx.known_finding('K-alias-pickle', got=a.value)
    else:
        ctx.check('live-parameter-untouched', a.value == 5.0, got=a.value)


def case(ctx):
    if ctx.index == 0:
        return alias(ctx)
    r = ctx.rng.random()
    if r < 0.08:
        make_symbols(ctx)
    elif r < 0.34:
        make_model(ctx)
    elif r < 0.5:
        make_objective(ctx)
    elif r < 0.8:
        make_minimizer(ctx)
    elif r < 0.95:
        make_result(ctx)
    else:
        pool(ctx)
