"""C22: creation of parameters and variables."""
import warnings

import numpy as np
import sympy
from sympy.core.cache import clear_cache
from symfit import Parameter, Variable, parameters, variables

from .. import gen
from ..core import Skip

DEFAULT = {'value': 1.0, 'min': None, 'max': None, 'fixed': False}
POOL = gen.PARAM_NAMES + gen.VAR_NAMES + gen.COMP_NAMES + ['self', 'None_', 'x_1_2', 'αβ', 'ŷ', 'UPPER', 'lower', 'i', 'Q1', 'oo', 'zoo', 'False_']


def same(got, want):
    if want is None or isinstance(want, (bool, np.bool_)):
        return (got is None) == (want is None) and (want is None or bool(got) == bool(want))
    return got == want or (got is not None and np.isnan(float(want)) and np.isnan(float(got)))


def check_symbol(ctx, s, name, cls, attrs=None, label=''):
    ctx.check('kind' + label, type(s) is cls, got=str(type(s)))
    ctx.check('name' + label, s.name == name and str(s) == name, got=s.name, want=name)
    for k, v in (attrs or {}).items():
        ctx.check('attribute' + label, same(getattr(s, k), v), symbol=name, attribute=k, got=getattr(s, k), want=v)
    ctx.check('real' + label, s.is_real is True and s.is_Symbol and s.is_commutative)


def use(ctx, s, attrs=None):
    """A real-valued sympy symbol that survives algebra with its attributes."""
    ctx.check('real-valued', sympy.sqrt(s ** 2) == sympy.Abs(s) and sympy.conjugate(s) == s and sympy.im(s) == 0)
    ctx.check('differentiable', sympy.diff(3 * s ** 2, s) == 6 * s and sympy.expand((s + 1) ** 2) == s ** 2 + 2 * s + 1)
    other = Variable('surely_other')
    ex = (s * other + sympy.sin(s)) * 2
    for e in (ex, sympy.expand(ex), sympy.diff(ex, other), ex.subs(other, 3)):
        mine = [t for t in e.free_symbols if t.name == s.name]
        ctx.check('kept-in-expressions', len(mine) == 1 and type(mine[0]) is type(s) and mine[0] == s and hash(mine[0]) == hash(s))
        for k, v in (attrs or {}).items():
            ctx.check('attributes-in-expressions', same(getattr(mine[0], k), v), attribute=k, got=getattr(mine[0], k), want=v)
    ctx.check('substitutable', (s + other).subs(s, 2) == other + 2 and (s + other).xreplace({s: other}) == 2 * other)


def number(rng):
    r = rng.random()
    v = rng.choice([0, 1, -1, 2.5, -0.3, 1e-12, 1e12, -1e5, 3, 0.0, rng.uniform(-5, 5)])
    if r < 0.15:
        return np.float64(v)
    if r < 0.2:
        return np.int64(round(v)) if abs(v) < 1e6 else np.float64(v)
    return v


def wanted(rng):
    """Requested attributes; bounds in order unless fixed."""
    out = {}
    if rng.random() < 0.7:
        out['value'] = number(rng)
    if rng.random() < 0.5:
        out['min'] = rng.choice([number(rng), None, -np.inf])
    if rng.random() < 0.5:
        out['max'] = rng.choice([number(rng), None, np.inf])
    if rng.random() < 0.4:
        out['fixed'] = rng.random() < 0.5
    return out


def contradictory(a):
    lo, hi = a.get('min'), a.get('max')
    return lo is not None and hi is not None and lo > hi and not a.get('fixed', False)


def single(ctx):
    rng = ctx.rng
    name = rng.choice(POOL)
    ctx.tag('single')
    if rng.random() < 0.25:
        v = Variable(name)
        ctx.describe(mode='single', name=name, kind='Variable')
        check_symbol(ctx, v, name, Variable)
        use(ctx, v)
        return
    a = wanted(rng)
    order = ['value', 'min', 'max', 'fixed']
    style = rng.choice(['kw', 'pos', 'mixed'])
    ctx.describe(mode='single', name=name, attrs=a, style=style)
    if style == 'kw':
        make = lambda: Parameter(name, **a) if rng.random() < 0.5 else Parameter(name=name, **a)
    else:
        k = 4 if style == 'pos' else rng.randint(0, 4)
        full = dict(DEFAULT, **a)
        make = lambda: Parameter(name, *[full[o] for o in order[:k]], **{o: a[o] for o in order[k:] if o in a})
    if contradictory(a):
        ctx.tag('contradictory')
        ctx.raises('contradictory-refused', ValueError, make)
        return
    p = make()
    full = dict(DEFAULT, **a)
    check_symbol(ctx, p, name, Parameter, full)
    use(ctx, p, full)
    if rng.random() < 0.3:
        extra = rng.choice(['positive', 'nonnegative', 'integer'])
        clear_cache()
        q = Parameter(name, **dict(a, **{extra: True}))
        check_symbol(ctx, q, name, Parameter, full, ':assumption')
        ctx.check('assumption', getattr(q, 'is_' + extra) is True)
        ctx.check('assumptions-distinguish', not (p == q) and p != q)
        ctx.tag('assumption')


def spelling(rng, names):
    """One string naming them all, the way sympy reads it."""
    r = rng.random()
    if r < 0.5:
        return ', '.join(names)
    if r < 0.7:
        return ' '.join(names)
    if r < 0.85:
        return ','.join(names)
    return '  ' + ' ,  '.join(names) + (',' if rng.random() < 0.5 else ' ')


def several(ctx):
    rng, npr = ctx.rng, ctx.np
    ctx.tag('several')
    if rng.random() < 0.15:
        stem, lo, n = rng.choice(['a', 'k_', 'Z']), rng.randint(0, 3), rng.randint(1, 12)
        names = ['%s%d' % (stem, i) for i in range(lo, lo + n)]
        text = '%s%d:%d' % (stem, lo, lo + n) if lo else '%s:%d' % (stem, n)
        ctx.tag('range')
    else:
        names = rng.sample([p for p in POOL if p not in ('self',)], rng.randint(1, 6))
        text = spelling(rng, names)
    n = len(names)
    if rng.random() < 0.2:
        vs = variables(text)
        ctx.describe(mode='several', text=text, kind='variables')
        ctx.check('count', len(vs) == n, got=len(vs), want=n)
        for v, name in zip(vs, names):
            check_symbol(ctx, v, name, Variable, label=':several')
            use(ctx, v)
        return
    attrs = [dict(DEFAULT) for _ in names]
    kw, lengths, shapes = {}, [], {}
    for key in ['value', 'min', 'max', 'fixed']:
        r = rng.random()
        draw = (lambda: rng.random() < 0.4) if key == 'fixed' else (lambda: number(rng))
        if r < 0.35:
            continue
        if r < 0.6:
            v = draw()
            kw[key] = v
            shapes[key] = 'scalar'
            for a in attrs:
                a[key] = v
            continue
        vals = [draw() for _ in names]
        if key in ('min', 'max') and rng.random() < 0.5:
            vals = [None if rng.random() < 0.3 else v for v in vals]
        form = rng.choice(['list', 'tuple', 'array', 'generator', 'map'])
        if form == 'array' and any(v is None for v in vals):
            form = 'list'
        shapes[key] = form
        if rng.random() < 0.06 and form in ('list', 'tuple', 'array'):
            vals = vals + [draw()] if rng.random() < 0.5 or n == 1 else vals[:-1]
            shapes[key] += ':wrong-length'
            lengths.append(key)
        else:
            for a, v in zip(attrs, vals):
                a[key] = v
        kw[key] = {'list': list, 'tuple': tuple, 'array': np.array, 'generator': lambda v: (x for x in v),
                   'map': lambda v: map(lambda x: x, v)}[form](vals)
    ctx.describe(mode='several', text=text, shapes=shapes, attrs=attrs)
    ctx.tag(*['form:' + s for s in shapes.values()])
    keep = {k: list(v) for k, v in kw.items() if isinstance(v, (list, tuple, np.ndarray))}
    if lengths:
        ctx.tag('wrong-length')
        ctx.raises('wrong-length-refused', ValueError, parameters, text, **kw)
        return
    if any(contradictory(a) for a in attrs):
        ctx.tag('contradictory')
        ctx.raises('contradictory-refused', ValueError, parameters, text, **kw)
        return
    ps = parameters(text, **kw)
    ctx.check('count', len(ps) == n, got=len(ps), want=n)
    for p, name, a in zip(ps, names, attrs):
        check_symbol(ctx, p, name, Parameter, a, ':several')
    use(ctx, ps[-1], attrs[-1])
    for k, v in keep.items():
        ctx.check('sequence-untouched', list(kw[k]) == v, which=k)
    # they are separate objects: changing one leaves the others
    if n > 1:
        i = rng.randrange(n)
        ps[i].value, ps[i].min, ps[i].max, ps[i].fixed = 77.0, 70, 80, not attrs[i]['fixed']
        for j in range(n):
            if j != i:
                check_symbol(ctx, ps[j], names[j], Parameter, attrs[j], ':after-change')


def equality(ctx):
    """Symbols with one name that are different objects, as after sympy's cache moved on."""
    rng = ctx.rng
    ctx.tag('equality')
    n1 = rng.choice(POOL)
    n2 = n1 if rng.random() < 0.75 else rng.choice([p for p in POOL if p != n1])
    a1 = wanted(rng)
    while contradictory(a1):
        a1 = wanted(rng)
    a1 = dict(DEFAULT, **a1)
    a2 = dict(a1)
    r = rng.random()
    changed = None
    if r < 0.6:
        changed = rng.choice(['value', 'min', 'max', 'fixed'])
        a2[changed] = (not a1['fixed']) if changed == 'fixed' else rng.choice([v for v in (1e13, -1e13, None, 0.123) if v != a1[changed] and (changed != 'value' or v is not None)])
        if contradictory(a2):
            raise Skip('contradictory')
    kinds = rng.choice([(Parameter, Parameter)] * 6 + [(Parameter, Variable), (Variable, Variable)])
    clear_cache()
    s1 = kinds[0](n1, **(a1 if kinds[0] is Parameter else {}))
    clear_cache()
    s2 = kinds[1](n2, **(a2 if kinds[1] is Parameter else {}))
    ctx.describe(mode='equality', names=[n1, n2], kinds=[k.__name__ for k in kinds], first=a1, second=a2)
    for s, n, a, k in ((s1, n1, a1, kinds[0]), (s2, n2, a2, kinds[1])):
        check_symbol(ctx, s, n, k, a if k is Parameter else None, ':two')
    if s1 is s2:
        raise Skip('one object')
    equal = n1 == n2 and kinds[0] is kinds[1] and (kinds[0] is Variable or all(same(a1[k], a2[k]) for k in a1))
    ctx.tag('equal' if equal else 'unequal')
    ctx.check('equality', bool(s1 == s2) is equal and bool(s2 == s1) is equal, want=equal, changed=changed)
    ctx.check('inequality', bool(s1 != s2) is (not equal) and bool(s2 != s1) is (not equal), want=equal)
    ctx.check('reflexive', s1 == s1 and not (s1 != s1))
    if equal:
        ctx.check('equal-hash', hash(s1) == hash(s2))
        ctx.check('dictionary', {s1: 5}[s2] == 5 and len({s1, s2}) == 1)
    for thing in (1, None, 3.5, n1 + '_other', [s1], sympy.Integer(2), object()):
        try:
            ctx.check('foreign-unequal', not (s1 == thing) and s1 != thing, thing=str(thing)[:30])
        except Exception as err:
            ctx.check('comparing-never-raises', False, error=repr(err), thing=str(thing)[:30])
    ctx.check('not-a-plain-symbol', s1 != sympy.Symbol(n1, real=True) and s1 != sympy.Symbol(n1))


def unnamed(ctx):
    rng = ctx.rng
    ctx.tag('unnamed')
    made = []
    plan = []
    for _ in range(rng.randint(2, 12)):
        r = rng.random()
        if r < 0.5:
            a = wanted(rng)
            while contradictory(a):
                a = wanted(rng)
            p = Parameter(**a) if rng.random() < 0.7 else Parameter(None, **a)
            made.append((p, Parameter, dict(DEFAULT, **a)))
            plan.append('par')
        elif r < 0.8:
            made.append((Variable() if rng.random() < 0.7 else Variable(None), Variable, None))
            plan.append('var')
        elif r < 0.9:
            Parameter(rng.choice(POOL))
            plan.append('named')
        else:
            parameters('m1, m2')
            plan.append('several')
    ctx.describe(mode='unnamed', plan=plan)
    names = [p.name for p, _, _ in made]
    ctx.check('unique-names', len(set(names)) == len(names), got=names)
    for p, cls, a in made:
        check_symbol(ctx, p, p.name, cls, a, ':unnamed')
        ctx.check('identifier', p.name.isidentifier(), got=p.name)
    if len(made) > 1:
        ctx.check('unnamed-unequal', made[0][0] != made[1][0])
    ctx.raises('number-as-name-refused', TypeError, Parameter, rng.choice([3.0, 10, np.float64(2.5)]))


def case(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        clear_cache()
        if ctx.index == 0:
            # one name, two requests: sympy's cache makes them one object
            ctx.describe(mode='known', what='second parameter of one name')
            first = Parameter('twice_named', value=2.0)
            second = Parameter('twice_named', value=5.0)
            ctx.check('second-honoured', second.value == 5.0)
            if first.value == 5.0 and first is second:
                ctx.known_finding('K-alias', got=first.value)
            else:
                ctx.check('first-kept', first.value == 2.0 and first != second, got=first.value)
            return
        ctx.rng.choice([single, single, several, several, several, equality, equality, unnamed])(ctx)
