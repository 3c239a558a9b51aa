"""What the optimiser is handed: scipy's entry points, recorded at the boundary."""
import inspect
import sys

import numpy as np
import scipy.optimize
from scipy.optimize import OptimizeResult

ENTRIES = ('minimize', 'least_squares', 'differential_evolution', 'basinhopping')
REAL = {name: getattr(scipy.optimize, name) for name in ENTRIES}
SIGNATURES = {name: inspect.signature(f) for name, f in REAL.items()}


class Call(object):
    def __init__(self, entry, args, kwargs):
        self.entry = entry
        bound = SIGNATURES[entry].bind(*args, **kwargs)
        self.given = dict(bound.arguments)
        for extra in ('kwargs', 'options') if 'kwargs' in self.given else ():
            if extra == 'kwargs':
                self.given.update(self.given.pop('kwargs'))
        bound.apply_defaults()
        self.all = dict(bound.arguments)

    def __getitem__(self, key):
        return self.all.get(key)

    @property
    def fun(self):
        return self.all.get('fun', self.all.get('func'))


class Handed(object):
    """Within the context every call symfit makes to scipy's optimisers is
    recorded; `script(call, number)` may answer it instead of scipy."""
    def __init__(self, script=None):
        self.calls, self.script, self.depth, self.undo = [], script, 0, []

    def wrapper(self, name):
        real = REAL[name]

        def entry(*args, **kwargs):
            if self.depth:
                return real(*args, **kwargs)
            call = Call(name, args, kwargs)
            self.calls.append(call)
            self.depth += 1
            try:
                answer = self.script(call, len(self.calls) - 1) if self.script else None
                if answer is None:
                    answer = real(*args, **kwargs)
            finally:
                self.depth -= 1
            call.answer = OptimizeResult(answer)
            return answer
        return entry

    def __enter__(self):
        wrappers = {name: self.wrapper(name) for name in ENTRIES}
        modules = [m for n, m in list(sys.modules.items()) if n == 'scipy.optimize' or n.split('.')[0] == 'symfit']
        for mod in modules:
            for attr, value in list(vars(mod).items()):
                for name in ENTRIES:
                    if value is REAL[name]:
                        self.undo.append((mod, attr, value))
                        setattr(mod, attr, wrappers[name])
        return self

    def __exit__(self, *exc):
        for mod, attr, value in self.undo:
            setattr(mod, attr, value)


def scripted_result(call, x, nit, fun=0.5):
    """An answer shaped like the one the algorithm gives."""
    x = np.array(x, dtype=float)
    method = call['method'] if call.entry == 'minimize' else call.entry
    out = OptimizeResult(x=x, success=True, message='scripted', nfev=nit * 3 + 1, fun=fun)
    if call.entry == 'least_squares':
        out.update(cost=fun, fun=np.array([fun]), jac=np.ones((1, len(x))), grad=np.zeros(len(x)), optimality=0.0, active_mask=np.zeros(len(x), dtype=int),
                   njev=nit, status=1)
    elif call.entry == 'basinhopping':
        out.update(nit=nit, message=['scripted'], minimization_failures=0, njev=1, lowest_optimization_result=OptimizeResult(x=x, fun=fun, success=True))
    elif str(method).lower() == 'cobyla':
        out.update(status=1, maxcv=0.0)
    else:
        out.update(nit=nit, status=0)
        if str(method).lower() == 'trust-constr':
            out.update(niter=nit, nhev=0, njev=1, constr_violation=0.0, cg_niter=1, grad=np.zeros(len(x)), method='tr_interior_point', constr=[], jac=[],
                       lagrangian_grad=np.zeros(len(x)), optimality=0.0)
        elif str(method).lower() in ('bfgs', 'l-bfgs-b', 'slsqp'):
            out.update(jac=np.zeros(len(x)), njev=1)
    return out
