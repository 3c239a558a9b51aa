"""Recorders: every evaluation of a model, as it happens."""
import numpy as np

from . import expr as E


def recording(cls, log):
    """Subclass of a model class appending (kind, {parameter name: value}) to `log`."""
    class Recorded(cls):
        def _note(self, kind, args, kwargs):
            names = [v.name for v in self.independent_vars] + [p.name for p in self.params]
            env = dict(zip(names, args))
            env.update(kwargs)
            log.append((kind, {p.name: env.get(p.name, None) for p in self.params if p.name in env}))

        def __call__(self, *args, **kwargs):
            self._note('value', args, kwargs)
            return super(Recorded, self).__call__(*args, **kwargs)

        if hasattr(cls, 'eval_jacobian'):
            def eval_jacobian(self, *args, **kwargs):
                self._note('jacobian', args, kwargs)
                return super(Recorded, self).eval_jacobian(*args, **kwargs)

        if hasattr(cls, 'eval_hessian'):
            def eval_hessian(self, *args, **kwargs):
                self._note('hessian', args, kwargs)
                return super(Recorded, self).eval_hessian(*args, **kwargs)
    Recorded.__name__ = cls.__name__
    return Recorded


class Callable(object):
    """Python function computing a component's formula; records its keyword arguments."""
    def __init__(self, node, log=None, name=None):
        self.node, self.log, self.name = node, log, name

    def __call__(self, **kw):
        if self.log is not None:
            self.log.append((self.name, {k: v if np.ndim(v) == 0 else None for k, v in kw.items()}, sorted(kw)))
        if set(kw) != E.symbols_of(self.node):
            raise AssertionError('component {} got {}'.format(self.name, sorted(kw)))
        return E.ev(self.node, kw)


def numerical(spec, syms, log=None, mixed=(), cls=None):
    """CallableNumericalModel with the formulas of `spec`; components in `mixed` stay symbolic."""
    from symfit import CallableNumericalModel
    md, conn = {}, {}
    for c in spec.comps:
        if c in mixed:
            md[syms[c]] = E.to_sympy(spec.comps[c], syms)
        else:
            md[syms[c]] = Callable(spec.comps[c], log, c)
            conn[syms[c]] = {syms[s] for s in E.symbols_of(spec.comps[c])}
    return (cls or CallableNumericalModel)(md, connectivity_mapping=conn)
