"""Own expression trees: rendered to sympy for symfit, evaluated here for the oracle."""
import numpy as np

from .jet import Jet, Track, fn

# nodes are tuples:
#   ('c', number) ('s', name) ('+', a, b, ...) ('*', a, b, ...) ('-', a)
#   ('/', a, b) ('^', a, n) ('f', fname, a) ('pw', thr_sym, thr, a, b)
#   ('abs', a) ('min', a, b) ('max', a, b)


def symbols_of(node, out=None):
    out = set() if out is None else out
    if node[0] == 's':
        out.add(node[1])
    elif node[0] == 'pw':
        out.add(node[1])
        symbols_of(node[3], out)
        symbols_of(node[4], out)
    elif node[0] == 'f':
        symbols_of(node[2], out)
    elif node[0] == '^':
        symbols_of(node[1], out)
    elif node[0] != 'c':
        for child in node[1:]:
            symbols_of(child, out)
    return out


def ev(node, env):
    """Evaluate with env: name -> float/array/Jet."""
    k = node[0]
    if k == 'c':
        return node[1]
    if k == 's':
        return env[node[1]]
    if k == '+':
        r = ev(node[1], env)
        for c in node[2:]:
            r = r + ev(c, env)
    elif k == '*':
        r = ev(node[1], env)
        for c in node[2:]:
            r = r * ev(c, env)
    elif k == '-':
        r = -ev(node[1], env)
    elif k == '/':
        r = ev(node[1], env) / ev(node[2], env)
    elif k == '^':
        base = ev(node[1], env)
        if not isinstance(base, Jet):
            # complex steps have to come through: MINPACK takes them
            base = np.asarray(base)
            if base.dtype.kind != 'c':
                base = base.astype(float)
        r = base ** node[2]
    elif k == 'f':
        return fn(node[1], ev(node[2], env))
    elif k == 'abs':
        x = ev(node[1], env)
        r = abs(x)
    elif k == 'min':
        r = np.minimum(ev(node[1], env), ev(node[2], env))
    elif k == 'max':
        r = np.maximum(ev(node[1], env), ev(node[2], env))
    elif k == 'pw':
        r = np.where(np.asarray(env[node[1]]) > node[2], ev(node[3], env), ev(node[4], env))
    else:
        raise ValueError(k)
    if not isinstance(r, Jet):
        Track.see(r)
    return r


def to_sympy(node, syms):
    import sympy
    k = node[0]
    if k == 'c':
        return sympy.Float(node[1]) if isinstance(node[1], float) else sympy.Integer(node[1])
    if k == 's':
        return syms[node[1]]
    if k == '+':
        r = to_sympy(node[1], syms)
        for c in node[2:]:
            r = r + to_sympy(c, syms)
        return r
    if k == '*':
        r = to_sympy(node[1], syms)
        for c in node[2:]:
            r = r * to_sympy(c, syms)
        return r
    if k == '-':
        return -to_sympy(node[1], syms)
    if k == '/':
        return to_sympy(node[1], syms) / to_sympy(node[2], syms)
    if k == '^':
        n = node[2]
        n = sympy.Integer(n) if isinstance(n, int) else sympy.Float(n)
        return to_sympy(node[1], syms) ** n
    if k == 'f':
        return getattr(sympy, node[1])(to_sympy(node[2], syms))
    if k == 'abs':
        return sympy.Abs(to_sympy(node[1], syms))
    if k == 'min':
        return sympy.Min(to_sympy(node[1], syms), to_sympy(node[2], syms))
    if k == 'max':
        return sympy.Max(to_sympy(node[1], syms), to_sympy(node[2], syms))
    if k == 'pw':
        return sympy.Piecewise((to_sympy(node[3], syms), syms[node[1]] > node[2]), (to_sympy(node[4], syms), True))
    raise ValueError(k)


def to_text(node):
    k = node[0]
    if k == 'c':
        return repr(node[1])
    if k == 's':
        return node[1]
    if k in '+*':
        return '(' + (' %s ' % k).join(map(to_text, node[1:])) + ')'
    if k == '-':
        return '-' + to_text(node[1])
    if k == '/':
        return '(%s / %s)' % (to_text(node[1]), to_text(node[2]))
    if k == '^':
        return '(%s ** %r)' % (to_text(node[1]), node[2])
    if k == 'f':
        return '%s(%s)' % (node[1], to_text(node[2]))
    if k == 'pw':
        return 'piecewise(%s > %r ? %s : %s)' % (node[1], node[2], to_text(node[3]), to_text(node[4]))
    return '%s(%s)' % (k, ', '.join(map(to_text, node[1:])))


def rename(node, mapping):
    k = node[0]
    if k == 'c':
        return node
    if k == 's':
        return ('s', mapping.get(node[1], node[1]))
    if k == 'pw':
        return ('pw', mapping.get(node[1], node[1]), node[2], rename(node[3], mapping), rename(node[4], mapping))
    if k == 'f':
        return ('f', node[1], rename(node[2], mapping))
    if k == '^':
        return ('^', rename(node[1], mapping), node[2])
    return (k,) + tuple(rename(c, mapping) for c in node[1:])


def substitute(node, values):
    """Replace symbols by constants."""
    k = node[0]
    if k == 'c':
        return node
    if k == 's':
        return ('c', float(values[node[1]])) if node[1] in values else node
    if k == 'f':
        return ('f', node[1], substitute(node[2], values))
    if k == '^':
        return ('^', substitute(node[1], values), node[2])
    if k == 'pw':
        return ('pw', node[1], node[2], substitute(node[3], values), substitute(node[4], values))
    return (k,) + tuple(substitute(c, values) for c in node[1:])


# -- random smooth expressions ---------------------------------------------------

def const(rng):
    r = rng.random()
    if r < 0.25:
        return ('c', rng.choice([2, 3, -1, -2, 4]))
    return ('c', round(rng.choice([-1, 1]) * rng.uniform(0.2, 2.5), 3))


SMOOTH = ['sin', 'cos', 'exp', 'tanh', 'atan', 'sqrt', 'log', 'cosh']


def safe_fun(rng, arg, names=SMOOTH):
    """A function application which is well conditioned for any real argument."""
    f = rng.choice(names)
    if f == 'exp':
        return ('f', 'exp', ('*', ('c', rng.choice([-0.3, -0.5, 0.4, 0.25])), arg))
    if f in ('sqrt', 'log'):
        return ('f', f, ('+', ('^', arg, 2), ('c', round(rng.uniform(0.8, 2), 2))))
    if f == 'cosh':
        return ('f', 'cosh', ('*', ('c', 0.4), arg))
    return ('f', f, arg)


def rand_expr(rng, leaves, depth, names=SMOOTH, rough=False):
    """Random expression; `leaves` are symbol names."""
    if depth <= 0 or (rng.random() < 0.12):
        if rng.random() < 0.12:
            return const(rng)
        return ('s', rng.choice(leaves))
    r = rng.random()
    sub = lambda: rand_expr(rng, leaves, depth - 1, names, rough)
    if rough and r < 0.12:
        q = rng.random()
        if q < 0.4:
            return ('pw', rng.choice(leaves), round(rng.uniform(-1, 1), 3), sub(), sub())
        if q < 0.6:
            return (rng.choice(['min', 'max']), sub(), sub())
        return ('abs', sub())
    if r < 0.3:
        return ('+',) + tuple(sub() for _ in range(rng.choice([2, 2, 3])))
    if r < 0.6:
        return ('*',) + tuple(sub() for _ in range(rng.choice([2, 2, 3])))
    if r < 0.68:
        return ('-', sub())
    if r < 0.76:
        return ('/', sub(), ('+', ('^', sub(), 2), ('c', round(rng.uniform(0.6, 2), 2))))
    if r < 0.86:
        return ('^', sub(), rng.choice([2, 2, 3]))
    return safe_fun(rng, sub(), names)


def cover(rng, node, required):
    """Make sure `node` contains every symbol in `required`."""
    have = symbols_of(node)
    for s in required:
        if s not in have:
            c = ('c', round(rng.uniform(0.3, 1.7), 3))
            if rng.random() < 0.5:
                node = ('+', node, ('*', c, ('s', s)))
            else:
                node = ('+', node, ('*', c, ('s', s), safe_fun(rng, ('s', s), ['sin', 'cos', 'atan'])))
    return node
