"""Random models, names, values and data shapes."""
import numpy as np

from . import expr as E
from .core import Skip
from .jet import Jet, Track

PARAM_NAMES = ['a', 'b', 'c', 'A', 'B', 'a10', 'a2', 'a1', 'k_1', 'k_10', 'k_2', 'tau', 'alpha', 'beta_', '_p', 'Zeta',
               'p0', 'p00', 'scale', 'x0', 'y_0', 'w2', 'omega', 'b_a', 'aa', 'Ab', 'gamma', 'mu', 'zz', 'amp', 'beta', 'zeta', 'S', 'N', 'E', 'I', 'pi', 'EulerGamma', 'sin', 'e', 'select', 'sqrt']
VAR_NAMES = ['x', 'z', 't', 'x1', 'x10', 'x2', 'X', 'u_a', 'v', 'time', 'q', 'w', 'r_1', 'ph', '_x', 'a_x', 'Q', 'O', 'E1', 'exp', 'array', 'less']
COMP_NAMES = ['y', 'f', 'y1', 'y10', 'y2', 'Y', 'g_b', 'h', 'out', 'e_', 'd', 'm_z', 'F', 'aY', 'zY', '_y', 'n', 'yy', 'C', 're_']


def names(rng, pool, n, taken=()):
    pool = [p for p in pool if p not in taken]
    return rng.sample(pool, n)


class Spec(object):
    """A model as data: independents, parameters and components (own AST)."""
    def __init__(self, indep, params, comps, order=None):
        self.indep = sorted(indep)
        self.params = sorted(params)
        self.comps = comps
        self.topo = order or self._topo()
        self.names = sorted(comps)
        lev = self.levels()
        top = max(lev[c] for c in comps)
        self.dependent = sorted(c for c in comps if lev[c] == top)
        self.interdep = sorted(c for c in comps if lev[c] != top)
        self.sinks = sorted(c for c in comps if not any(c in E.symbols_of(o) for k, o in comps.items() if k != c))

    def _topo(self):
        done, out = set(), []
        while len(out) < len(self.comps):
            for c in sorted(self.comps):
                deps = E.symbols_of(self.comps[c]) & set(self.comps)
                if c not in done and deps <= done:
                    done.add(c)
                    out.append(c)
                    break
            else:
                raise ValueError('cycle')
        return out

    def levels(self):
        lev = {}
        for c in self.topo:
            deps = E.symbols_of(self.comps[c]) & set(self.comps)
            lev[c] = 1 + max([lev[d] for d in deps], default=0)
        return lev

    def uses(self, comp):
        """All leaf symbols the component depends on, through other components."""
        out = set()
        for s in E.symbols_of(self.comps[comp]):
            out |= self.uses(s) if s in self.comps else {s}
        return out

    def values(self, env):
        Track.reset()
        out = self._values(env)
        m, slack = Track.m, 0.0
        for eps in (3e-14, -2e-14):
            near = {k: np.asarray(v, dtype=float) * (1 + eps * np.cos(2.3 * i)) for i, (k, v) in enumerate(sorted(env.items()))}
            for c, v in self._values(near).items():
                with np.errstate(all='ignore'):
                    move = np.abs(v - out[c])
                    move = np.max(move) if move.size else 0.0
                slack = max(slack, move if np.isfinite(move) else 0.0)
        Track.m, Track.slack = m, slack
        return out

    def _values(self, env):
        full = dict(env)
        for c in self.topo:
            full[c] = E.ev(self.comps[c], full)
        return {c: np.atleast_1d(np.asarray(full[c], dtype=float)) for c in self.comps}

    def jets(self, env, wrt=None):
        """Second order expansion of every component in the parameters `wrt`."""
        Track.reset()
        wrt = self.params if wrt is None else wrt
        full = {k: v for k, v in env.items()}
        for i, p in enumerate(wrt):
            full[p] = Jet.seed(env[p], i)
        out = {}
        for c in self.topo:
            full[c] = Jet.wrap(E.ev(self.comps[c], full))
        for c in self.comps:
            j = full[c]
            shape = np.broadcast_shapes(np.shape(j.v), *[np.shape(a) for a in j.g.values()],
                                        *[np.shape(a) for a in j.h.values()])
            j = j.broadcast(shape)
            if shape == ():
                j = j.broadcast((1,))
            out[c] = j
        return out

    # -- symfit side -----------------------------------------------------------
    def symbols(self, values=None, **attrs):
        from symfit import Parameter, Variable
        syms = {v: Variable(v) for v in self.indep + self.names}
        for p in self.params:
            kw = dict((attrs.get(p) or {}))
            if values is not None:
                kw.setdefault('value', values[p])
            syms[p] = Parameter(p, **kw)
        return syms

    def model_dict(self, syms, order=None):
        out = {}
        for c in (order or list(self.comps)):
            ex = E.to_sympy(self.comps[c], syms)
            have = {s.name for s in getattr(ex, 'free_symbols', ())}
            if have != E.symbols_of(self.comps[c]) or not have:
                raise Skip('expression lost symbols')
            out[syms[c]] = ex
        return out

    def text(self):
        return {c: E.to_text(self.comps[c]) for c in self.comps}


def rand_spec(rng, n_comp=1, n_indep=1, n_param=2, depth=3, dep_prob=0.0, same_level=False, names_fn=E.SMOOTH,
              rough=False, own_indep=False, need_x=False):
    """dep_prob: chance that a component refers to earlier components.
    own_indep: component k uses only independent variable k (ragged data)."""
    if not n_param and not n_indep:
        raise Skip('empty model')
    P = names(rng, PARAM_NAMES, n_param)
    V = names(rng, VAR_NAMES, n_indep, P)
    C = names(rng, COMP_NAMES, n_comp, P + V)
    comps = {}
    unused_p, unused_v = list(P), list(V)
    for k, c in enumerate(C):
        vs = [V[k % len(V)]] if own_indep and V else (rng.sample(V, rng.randint(1 if need_x else 0, len(V))) if V else [])
        ps = rng.sample(P, rng.randint(1, len(P))) if P else []
        deps = [d for d in C[:k] if rng.random() < dep_prob]
        leaves = vs + ps + deps
        if not leaves:
            leaves = [rng.choice(P or V)]
        node = E.rand_expr(rng, leaves, depth, names_fn, rough)
        need = list(deps)
        if own_indep or need_x:
            need += vs
        if k == len(C) - 1:
            need += [s for s in unused_p if s not in set().union(*[E.symbols_of(n) for n in comps.values()], set())]
            if not own_indep:
                need += [s for s in unused_v if s not in set().union(*[E.symbols_of(n) for n in comps.values()], set())]
        if not E.symbols_of(node):
            need.append(rng.choice(leaves))
        comps[c] = E.cover(rng, node, need)
    spec = Spec(V, P, comps)
    used = set().union(*[E.symbols_of(n) for n in comps.values()])
    spec.indep = [v for v in spec.indep if v in used]
    spec.params = [p for p in spec.params if p in used]
    if same_level and len(spec.dependent) != len(spec.sinks):
        raise Skip('levels')
    return spec


def shuffled(rng, seq):
    seq = list(seq)
    rng.shuffle(seq)
    return seq


def rand_param_value(rng):
    r = rng.random()
    if r < 0.08:
        return 0.0
    if r < 0.16:
        return float(rng.choice([1, -1, 2]))
    return round(rng.choice([-1, 1]) * rng.uniform(0.15, 1.8), 4)


def rand_shape_values(ctx, vars_, pattern=None):
    """Values for the independent variables, following a broadcast pattern."""
    rng, npr = ctx.rng, ctx.np
    pattern = pattern or rng.choice(['scalar', 'vec', 'vec', 'vec', 'grid', 'mixed', '2d', 'int', 'one', 'list'])
    n, m = rng.randint(2, 6), rng.randint(2, 4)
    out = {}
    for i, v in enumerate(vars_):
        u = lambda shape: np.round(npr.uniform(-1.6, 1.6, size=shape), 4)
        if pattern == 'scalar':
            out[v] = float(u(()))
        elif pattern == 'vec':
            out[v] = u((n,))
        elif pattern == 'grid':
            out[v] = u((n, 1)) if i % 2 == 0 else u((1, m))
        elif pattern == 'mixed':
            out[v] = u((n,)) if rng.random() < 0.6 else float(u(()))
        elif pattern == '2d':
            out[v] = u((n, m))
        elif pattern == 'int':
            out[v] = npr.integers(-2, 3, size=(n,))
        elif pattern == 'one':
            out[v] = u((1,))
        elif pattern == 'ragged':
            out[v] = u((rng.randint(1, 6),))
        elif pattern == 'list':
            out[v] = u((n,)) if rng.random() < 0.7 else np.float64(u(()))
    ctx.tag('shape:' + pattern)
    return out, pattern


def tol(factor=1e-10):
    """Absolute tolerance from the largest magnitude the oracle met."""
    if not np.isfinite(Track.m) or Track.m > 1e6:
        raise Skip('ill-conditioned evaluation')
    return 1e-9 + factor * Track.m + 100 * Track.slack
