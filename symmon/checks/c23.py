"""C23: interactive guessing."""
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.backend_bases import MouseEvent
from matplotlib.widgets import Slider
from symfit import CallableModel, Model, ODEModel, Variable
from symfit.contrib.interactive_guess import InteractiveGuess

from .. import gen
from ..core import Inconclusive, Skip
from ..odes import ode_problem


def find_sliders(ig):
    """The sliders by parameter name, wherever the object keeps them."""
    out = {}

    def walk(o, depth):
        if isinstance(o, Slider):
            out[str(o.label.get_text())] = o
        elif depth and isinstance(o, dict):
            for v in o.values():
                walk(v, depth - 1)
        elif depth and isinstance(o, (list, tuple)):
            for v in o:
                walk(v, depth - 1)
    walk(vars(ig), 3)
    return out


def projections(ig, indep, comps):
    """The subplot of every projection, by its axis labels."""
    out = {}
    for ax in ig.fig.axes:
        xl, yl = ax.get_xlabel().strip('$'), ax.get_ylabel().strip('$')
        if xl in indep and yl in comps:
            out.setdefault((xl, yl), []).append(ax)
    return out


def drag(slider, value):
    """Move the slider with the mouse: press and release on its track."""
    canvas = slider.ax.figure.canvas
    x, y = slider.ax.transData.transform((value, 0.5))
    for name in ('button_press_event', 'button_release_event'):
        canvas.callbacks.process(name, MouseEvent(name, canvas, x, y, button=1))


class Session(object):
    def __init__(self, ctx, ig, evaluate, indep, comps, data, attrs, n_points, percentile):
        self.ctx, self.ig, self.evaluate = ctx, ig, evaluate
        self.indep, self.comps, self.data, self.attrs = indep, comps, data, attrs
        self.n, self.percentile = n_points, percentile
        self.sliders = find_sliders(ig)
        self.axes = projections(ig, indep, comps)

    def check_figure(self):
        ctx = self.ctx
        ctx.check('slider-per-parameter', sorted(self.sliders) == sorted(self.attrs), got=sorted(self.sliders), want=sorted(self.attrs))
        want = {(x, y) for x in self.indep for y in self.comps}
        ctx.check('plot-per-projection', set(self.axes) == want and all(len(v) == 1 for v in self.axes.values()),
                  got=sorted(map(str, self.axes)), want=sorted(map(str, want)))
        for p, a in self.attrs.items():
            s = self.sliders.get(p)
            if s is None:
                continue
            # the default range is spanned by zero and twice the value
            lo = a['min'] if a['min'] is not None else min(0, 2 * a['value'])
            hi = a['max'] if a['max'] is not None else max(0, 2 * a['value'])
            ctx.close('slider-range', [s.valmin, s.valmax], [lo, hi], rtol=1e-12, atol=0, parameter=p, attrs=a)
            ctx.close('slider-start', s.val, a['value'], rtol=1e-12, atol=0, parameter=p, attrs=a)
        for (x, y), axs in self.axes.items():
            lo, hi = axs[0].get_xlim()
            ctx.check('data-in-view', lo <= np.min(self.data[x]) and hi >= np.max(self.data[x]) or len(set(np.ravel(self.data[x]))) == 1,
                      view=[lo, hi], data=self.data[x])
            lo, hi = axs[0].get_ylim()
            ctx.check('data-in-view', lo <= np.min(self.data[y]) and hi >= np.max(self.data[y]) or len(set(np.ravel(self.data[y]))) == 1,
                      view=[lo, hi], data=self.data[y])
            if len(self.indep) == 1:
                offs = [c.get_offsets() for c in axs[0].collections if hasattr(c, 'get_offsets') and len(c.get_offsets())]
                pts = [np.asarray(o, dtype=float) for o in offs]
                wanted = np.column_stack([np.ravel(self.data[x]), np.ravel(self.data[y])])
                ctx.check('own-data', any(p.shape == wanted.shape and np.allclose(p, wanted) for p in pts), plot=(x, y),
                          got=pts[:1], want=wanted)
            else:
                # a filled contour of the density of the projected points
                ctx.check('own-data-contour', len(axs[0].collections) > 2 or any(
                    type(c).__name__ == 'QuadContourSet' for c in axs[0].collections), plot=(x, y))

    def check_state(self, params, values):
        """params: the Parameter objects; values: what every slider was set to."""
        ctx = self.ctx
        for p, v in values.items():
            ctx.close('parameter-is-slider', params[p].value, v, rtol=1e-12, atol=1e-14, parameter=p)
            ctx.close('slider-kept', self.sliders[p].val, v, rtol=1e-12, atol=1e-14, parameter=p)
            a = self.attrs[p]
            ctx.check('attributes-kept', (params[p].min, params[p].max, params[p].fixed) == (a['min'], a['max'], a['fixed']), parameter=p)
        text = str(self.ig)
        for p, v in values.items():
            ctx.check('printed', any(l.split(':')[0].strip() == p and float(l.split(':')[1]) == params[p].value
                                     for l in text.splitlines() if l.count(':') == 1 and l.split(':')[1].strip()), text=text, parameter=p)
        for (x, y), axs in self.axes.items():
            ax = axs[0]
            if len(self.indep) == 1:
                lines = [l for l in ax.lines if len(l.get_xdata()) == self.n]
                if not ctx.check('one-model-line', len(lines) == 1, n=len(ax.lines), plot=(x, y)):
                    continue
                xs, ys = (np.asarray(d, dtype=float) for d in lines[0].get_data())
                self.check_range(x, xs, ax)
                want, tol = self.evaluate({x: xs}, values)
                ctx.close('model-line', ys, np.broadcast_to(want[y], xs.shape), rtol=tol[0], atol=tol[1], plot=(x, y), values=values)
            else:
                self.check_errorbars(x, y, ax, values)

    def check_range(self, x, xs, ax):
        ctx = self.ctx
        lo, hi = ax.get_xlim()
        if len(set(np.ravel(self.data[x]))) > 1:
            ctx.close('plotted-range', [xs[0], xs[-1]], [lo, hi], rtol=1e-9, atol=1e-12, variable=x)
            ctx.check('sorted-range', np.all(np.diff(xs) > 0), variable=x)

    def check_errorbars(self, x, y, ax, values):
        ctx = self.ctx
        bars = [c for c in ax.containers if hasattr(c, 'has_yerr') or type(c).__name__ == 'ErrorbarContainer']
        if not ctx.check('one-errorbar', len(bars) == 1, plot=(x, y), n=len(bars)):
            return
        line, caps, cols = bars[0].lines
        xs, ys = (np.asarray(d, dtype=float) for d in line.get_data())
        if not ctx.check('points', len(xs) == self.n, got=len(xs), want=self.n):
            return
        self.check_range(x, xs, ax)
        # the other independent variables run over their own plotted ranges
        grids = {}
        for v in self.indep:
            lo, hi = self.axes[(v, y)][0].get_xlim() if len(set(np.ravel(self.data[v]))) > 1 else (self.data[v][0], self.data[v][0])
            grids[v] = np.linspace(lo, hi, self.n)
        grids[x] = xs
        mesh = np.meshgrid(*[grids[v] for v in self.indep], indexing='ij')
        want, tol = self.evaluate({v: m.ravel() for v, m in zip(self.indep, mesh)}, values)
        full = np.broadcast_to(want[y], mesh[0].ravel().shape).reshape(mesh[0].shape)
        axis = self.indep.index(x)
        per = np.moveaxis(full, axis, 0).reshape(self.n, -1)
        ctx.close('mean-line', ys, per.mean(axis=1), rtol=1e-8, atol=max(tol[1], 1e-9) * 10, plot=(x, y), values=values)
        q = np.percentile(per, self.percentile, axis=1).T
        seen = []
        for c in cols:
            try:
                segs = np.asarray(c.get_segments(), dtype=float)
            except ValueError:
                continue
            if segs.shape == (self.n, 2, 2):
                seen.append(segs)
        good = any(np.allclose(s[:, :, 0], xs[:, None]) and np.allclose(s[:, :, 1], q, rtol=1e-7, atol=max(tol[1], 1e-9) * 10)
                   for s in seen)
        ctx.check('percentile-bars', good, plot=(x, y), percentile=list(self.percentile), got=seen[0] if seen else None, want=q)


def attributes(rng, value):
    a = {'value': value, 'min': None, 'max': None, 'fixed': rng.random() < 0.15}
    if rng.random() < 0.45:
        a['min'] = round(value - rng.uniform(0.3, 3), 3)
    if rng.random() < 0.45:
        a['max'] = round(value + rng.uniform(0.3, 3), 3)
    return a


def case(ctx):
    rng, npr = ctx.rng, ctx.np
    kind = rng.choice(['one', 'one', 'one', 'many', 'many', 'ode'])
    percentile = rng.choice([(5, 95), [5, 95], (25, 75), (0, 100), (10, 60)])
    kw = {}
    if kind == 'ode':
        pr = ode_problem(ctx, fixed_initial=False)
        params, comps, indep = list(pr.params), list(pr.deps), [pr.tname]
        attrs = {p: {'value': pr.values[p], 'min': None, 'max': None, 'fixed': False} for p in params}
        n_points = rng.choice([10, 25])
        m = rng.randint(4, 8)
        data = {pr.tname: pr.t0 + np.sort(np.round(npr.uniform(0.05, 1.5, m), 4))}
        if len(set(data[pr.tname])) < 2:
            raise Skip('one time')
        for c in comps:
            data[c] = npr.uniform(-1, 1, m)
        model = ODEModel(pr.model_dict, initial=pr.initial)
        symbols = {p.name: p for p in model.params}

        def evaluate(pts, values):
            t = np.asarray(pts[pr.tname], dtype=float)
            try:
                sol = pr.solution(t, values)
            except ZeroDivisionError:
                raise Inconclusive('closed form does not apply')
            if not all(np.all(np.isfinite(v)) for v in sol.values()):
                raise Inconclusive('closed form does not apply')
            return sol, (2e-4, 2e-4)
        if not attrs:
            raise Skip('no parameters')
        ctx.describe(kind=kind, ode=pr.kind, values=pr.values, t0=pr.t0)
        handed = model
    else:
        n_indep = 1 if kind == 'one' else rng.choice([2, 2, 2, 3])
        for _ in range(30):
            spec = gen.rand_spec(rng, n_comp=rng.choice([1, 2, 3]), n_indep=n_indep, n_param=rng.choice([1, 2, 3, 4]),
                                 depth=rng.choice([1, 2, 3]), dep_prob=rng.choice([0, 0, 0.6]))
            # mathtext does not typeset these
            if not any(n.startswith('_') or n.endswith('_') for n in spec.indep + spec.params + spec.names):
                break
        else:
            raise Skip('names')
        if len(spec.indep) != n_indep or not spec.params:
            raise Skip('independents lost')
        indep, comps, params = spec.indep, spec.dependent, spec.params
        attrs = {}
        for p in params:
            v = gen.rand_param_value(rng) or 0.7
            attrs[p] = attributes(rng, v)
        n_points = rng.choice([10, 25, 50]) if kind == 'one' else rng.choice([5, 8]) if n_indep == 2 else 5
        if kind == 'one' and rng.random() < 0.3:
            n_points = None
        m = rng.randint(5, 12)
        data = {}
        for v in indep:
            data[v] = np.round(npr.uniform(-2, 2, m), 3) * rng.choice([1, 1, 0.1, 3]) + rng.choice([0, 0, 2])
            if rng.random() < 0.3:
                data[v] = np.sort(data[v])
        for c in comps + spec.interdep:
            data[c] = npr.uniform(-1, 1, m) * rng.choice([1, 10, 0.1])
        syms = spec.symbols(**{p: attrs[p] for p in params})
        d = spec.model_dict(syms, gen.shuffled(rng, list(spec.comps)))
        symbols = {p: syms[p] for p in params}
        handed = rng.choice([lambda: d, lambda: Model(d), lambda: CallableModel(d)])()
        data = {k: v for k, v in data.items() if k in indep or k in comps}

        def evaluate(pts, values):
            with np.errstate(all='ignore'):
                out = spec.values(dict(pts, **values))
            return out, (1e-9, gen.tol())
        ctx.describe(kind=kind, model=spec.text(), attrs=attrs, percentile=percentile)
        kw['percentile'] = percentile
        if kind == 'many' and rng.random() < 0.4:
            kw['log_contour'] = rng.random() < 0.5
        if spec.interdep:
            ctx.tag('interdependent')
    if n_points:
        kw['n_points'] = n_points
    before = {k: v.copy() for k, v in data.items()}
    values = {p: attrs[p]['value'] for p in attrs}
    ctx.tag('kind:' + kind, 'sliders:%d' % len(attrs))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        try:
            ig = InteractiveGuess(handed, **data, **kw)
            try:
                run(ctx, ig, evaluate, indep, comps, data, attrs, n_points or 50, kw.get('percentile', (5, 95)), symbols, values)
            except (Inconclusive, Skip):
                raise
        finally:
            plt.close('all')
    for k, v in before.items():
        ctx.check('data-untouched', np.array_equal(v, data[k]), which=k)


def run(ctx, ig, evaluate, indep, comps, data, attrs, n, percentile, symbols, values):
    rng = ctx.rng
    s = Session(ctx, ig, evaluate, indep, comps, data, attrs, n, percentile)
    if not s.sliders or not s.axes:
        raise Inconclusive('figure not understood')
    s.check_figure()
    s.check_state(symbols, values)
    moves = rng.randint(1, 6)
    ctx.tag('moves:%d' % moves)
    for k in range(moves):
        p = rng.choice(sorted(attrs))
        sl = s.sliders[p]
        if kind_of(rng) == 'drag' and sl.valmax > sl.valmin:
            v = rng.uniform(sl.valmin + 0.02 * (sl.valmax - sl.valmin), sl.valmax - 0.02 * (sl.valmax - sl.valmin))
            drag(sl, v)
            # pixels are positions of the event loop's choosing: accept what the slider took
            got = float(sl.val)
            ctx.close('drag-arrives', got, v, rtol=0, atol=0.02 * (sl.valmax - sl.valmin), parameter=p)
            values[p] = got
            ctx.tag('move:drag')
        elif rng.random() < 0.1:
            sl.reset()
            values[p] = attrs[p]['value']
            ctx.tag('move:reset')
        else:
            v = rng.choice([sl.valmin, sl.valmax]) if rng.random() < 0.15 else rng.uniform(sl.valmin, sl.valmax)
            sl.set_val(v)
            values[p] = v
            ctx.tag('move:set')
        s.check_state(symbols, values)
    ig.execute(show=False)
    s.check_state(symbols, values)


def kind_of(rng):
    return 'drag' if rng.random() < 0.3 else 'set'
