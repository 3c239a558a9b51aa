"""Demonstrations of the planted bugs: id -> (needs, what it breaks, demo)."""
S = {}
S['c01-sig'] = ('two independent variables whose names differ in length, called by position',
 'positional arguments of a model go to the wrong independent variable', '''
a, = parameters('a')
long_name, z, y = variables('long_name, z, y')
m = Model({y: a * long_name + z})
near(m(np.array([2.0]), np.array([5.0]), 3.0)[0], [11.0])
near(m(long_name=np.array([2.0]), z=np.array([5.0]), a=3.0)[0], [11.0])
''')
S['c02-skip'] = ('a component depending on a parameter through three or more other components',
 'the Jacobian of components nested deeper than two levels misses parameters', '''
p, = parameters('p')
x, u, v, w, y = variables('x, u, v, w, y')
m = Model({u: p * x, v: exp(u), w: v + 1, y: w * 2})
xd = np.array([0.1, 0.5, 1.0])
near(m.eval_jacobian(x=xd, p=0.7).y[0], 2 * xd * np.exp(0.7 * xd))
''')
S['c02-shape'] = ('independent variables of shapes (n, 1) and (1, m) with a derivative which depends on one of them only',
 'Jacobian entries are repeated along the wrong axis', '''
a, = parameters('a')
x, z, y = variables('x, z, y')
m = Model({y: a * x + z ** 2})
xd, zd = np.array([[1.0], [2.0], [3.0]]), np.array([[1.0, 2.0]])
near(m.eval_jacobian(x=xd, z=zd, a=2.0).y[0], np.broadcast_to(xd, (3, 2)))
''')
S['c03-shape'] = ('independent variables of shapes (n, 1) and (1, m) with a second derivative which depends on one of them only',
 'Hessian entries are repeated along the wrong axis', '''
a, = parameters('a')
x, z, y = variables('x, z, y')
m = Model({y: a ** 2 * x + z})
xd, zd = np.array([[1.0], [2.0], [3.0]]), np.array([[1.0, 2.0]])
near(np.asarray(m.eval_hessian(x=xd, z=zd, a=2.0).y)[0, 0], np.broadcast_to(2 * xd, (3, 2)))
''')
S['c04-abs'] = ('a numerical model with a large negative parameter', 'finite differences lose all accuracy for large negative parameters', '''
a, = parameters('a')
x, y = variables('x, y')
m = GradientModel({y: a ** 2 * x})
xd = np.array([1.0, 2.0])
near(np.asarray(m.finite_difference(x=xd, a=1e7)[0])[0] / 1e7, 2 * xd, rtol=1e-5)
near(np.asarray(m.finite_difference(x=xd, a=-1e7)[0])[0] / 1e7, -2 * xd, rtol=1e-5)
''')
S['c05-truthy'] = ('a data set which is zero everywhere', 'components measured as all zero are left out of the objective', '''
a, = parameters('a')
x, y, z = variables('x, y, z')
m = Model({y: a * x, z: a + x})
xd = np.array([1.0, 2.0])
o = LeastSquares(m, {x: xd, y: np.zeros(2), z: np.ones(2), m.sigmas[y]: np.ones(2), m.sigmas[z]: np.ones(2)})
near(o(a=2.0), 0.5 * (4 + 16 + 4 + 9))
''')
S['c06-ll'] = ('a likelihood of two or more components', 'the Hessian of a likelihood counts only the last component', '''
a, b = parameters('a, b')
x, z, y, w = variables('x, z, y, w')
m = Model({y: exp(-x / a) / a, w: exp(-z / b) / b})
o = LogLikelihood(m, {x: np.array([1.0, 2.0]), z: np.array([0.5, 3.0, 1.0])})
h = 1e-4
f = lambda s: o(a=1.5, b=2.0 + s)
near(o.eval_hessian(a=1.5, b=2.0)[1, 1], (f(h) - 2 * f(0) + f(-h)) / h ** 2, rtol=1e-4)
''')
S['c06-vlsjac'] = ('points with different uncertainties', 'the Jacobian of the vector of residuals is weighted wrongly', '''
a, = parameters('a')
x, y = variables('x, y')
m = Model({y: a * x ** 2})
xd = np.array([1.0, 2.0, 3.0])
o = VectorLeastSquares(m, {x: xd, y: np.array([0.5, 2.0, 11.0]), m.sigmas[y]: np.array([0.1, 1.0, 2.0])})
h = 1e-6
near(np.squeeze(o.eval_jacobian(a=1.3)), (o(a=1.3 + h) - o(a=1.3 - h)) / (2 * h), rtol=1e-5)
''')
S['c07-sigshape'] = ('components with data of different shapes and no sigmas', 'default uncertainties take the shape of another data set', '''
a, = parameters('a')
x, z, y, w = variables('x, z, y, w')
fit = Fit(Model({y: a * x, w: a * z}), x=np.arange(5.0), z=np.arange(3.0), y=np.arange(5.0), w=np.arange(3.0))
for v in (y, w):
    near(fit.data[fit.model.sigmas[v]], np.ones(fit.data[v].shape))
''')
S['c08-fixedval'] = ('a parameter fixed at zero', 'objectives do not know the value of parameters which are fixed at zero', '''
a, b = parameters('a, b')
b.fixed, b.value = True, 0.0
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
res = Fit({y: a * x + b}, x=xd, y=2 * xd, minimizer=BFGS).execute()
near(res.value(a), 2.0, rtol=1e-4)
assert res.value(b) == 0
''')
S['c08-pack'] = ('a fixed parameter with bounds which exclude its value', 'a fixed parameter is reported at its bound', '''
a = Parameter('a')
b = Parameter('b', value=5.0, min=0.0, max=1.0, fixed=True)
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
res = Fit({y: a * x + b}, x=xd, y=2 * xd + 5).execute()
assert res.value(b) == 5.0 and res.params['b'] == 5.0, res.params
''')
S['c09-minpack'] = ('MINPACK with an upper bound of zero', 'an upper bound of zero is ignored', '''
a = Parameter('a', value=-1.0, max=0.0)
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
res = Fit({y: a * x}, x=xd, y=2 * xd, minimizer=MINPACK).execute()
assert res.value(a) <= 1e-8, res.value(a)
''')
S['c09-bh'] = ('basin hopping with a parameter which is only bounded from above', 'local minimizations of basin hopping lose an upper bound', '''
a = Parameter('a', value=-1.0, max=0.5)
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
fit = Fit({y: a * x}, x=xd, y=2 * xd, minimizer=BasinHopping)
res = fit.execute(niter=1, seed=3)
assert res.value(a) <= 0.5 + 1e-8, res.value(a)
''')
S['c10-expand'] = ('a relation with a negative denominator', 'a constraint is turned around', '''
a, b = parameters('a, b')
b.fixed, b.value = True, -2.0
y, = variables('y')
res = Fit(Model({y: (a - 1) ** 2 + b}), constraints=[Ge(3 / b, a / b)], minimizer=SLSQP).execute()
# a / -2 <= 3 / -2  means a >= 3
near(res.value(a), 3.0, rtol=1e-4)
''')
S['c11-guess'] = ('a chain which is told where to start, or in which one minimizer object does several stages',
 'the first stage of a chain does not start where the chain starts', '''
a, = parameters('a')
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
fit = Fit({y: a * x}, x=xd, y=2 * xd, minimizer=[BFGS, BFGS])
fit.minimizer.initial_guesses = [7.0]
seen = []
real = fit.minimizer.minimizers[0].objective
import symfit.core.minimizers as M
mini = M.minimize
M.minimize = lambda fun, x0, **kw: seen.append(list(x0)) or mini(fun, x0, **kw)
fit.execute()
near(seen[0], [7.0])
''')
S['c12-inv'] = ('negatively correlated parameters', 'covariances lose their sign', '''
a, b = parameters('a, b')
x, y = variables('x, y')
xd = np.linspace(1, 5, 9)
res = Fit({y: a * x + b}, x=xd, y=2 * xd + 1 + 0.1 * np.sin(7 * xd)).execute()
A = np.column_stack([xd, np.ones(9)])
r = (2 * xd + 1 + 0.1 * np.sin(7 * xd)) - A @ [res.value(a), res.value(b)]
C = np.linalg.inv(A.T @ A) * (r @ r) / 7
near(res.covariance(a, b), C[0, 1], rtol=1e-3)
''')
S['c13-r2b'] = ('a model with a component without data before another one', 'R squared compares components with the data of others', '''
a, b = parameters('a, b')
x, y, z = variables('x, y, z')
xd = np.linspace(1, 5, 9)
zd = 3 * xd + 1 + 0.3 * np.sin(5 * xd)
res = Fit(Model({y: a * x ** 3 + b, z: a * x + b}), x=xd, y=None, z=zd).execute()
f = res.value(a) * xd + res.value(b)
near(res.r_squared, 1 - np.sum((zd - f) ** 2) / np.sum((zd - np.mean(zd)) ** 2), rtol=1e-5)
''')
S['c13-mean'] = ('two components with data around different means', 'R squared measures spread around the mean of everything', '''
a, b = parameters('a, b')
x, y, z = variables('x, y, z')
xd = np.linspace(1, 5, 9)
yd, zd = 2 * xd + 0.3 * np.cos(5 * xd), 50 + 3 * xd + 0.3 * np.sin(5 * xd)
res = Fit(Model({y: a * x, z: 50 + b * x}), x=xd, y=yd, z=zd).execute()
ss = np.sum((yd - res.value(a) * xd) ** 2) + np.sum((zd - 50 - res.value(b) * xd) ** 2)
near(res.r_squared, 1 - ss / (np.sum((yd - yd.mean()) ** 2) + np.sum((zd - zd.mean()) ** 2)), rtol=1e-5)
''')
S['c14-chain'] = ('executing a fit with a chain of minimizers twice', 'a chain starts again where it last ended', '''
a, = parameters('a')
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
fit = Fit({y: a ** 2 * x}, x=xd, y=2 * xd, minimizer=[NelderMead, BFGS])
one = fit.execute().iterations
near(fit.execute().iterations, one)
near(fit.minimizer.initial_guesses, [1.0])
''')
S['c14-setval'] = ('a parameter whose initial value lies below its minimum', 'fitting alters a parameter of the user', '''
a = Parameter('a', value=-1.0, min=0.0)
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
Fit({y: a * x}, x=xd, y=2 * xd).execute()
assert a.value == -1.0, a.value
''')
S['c15-init'] = ('pickling a minimizer which was told where to start', 'a restored minimizer starts somewhere else', '''
a, = parameters('a')
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
mini = Fit({y: a * x}, x=xd, y=2 * xd, minimizer=NelderMead).minimizer
mini.initial_guesses = [5.0]
near(pickle.loads(pickle.dumps(mini)).initial_guesses, [5.0])
''')
S['c16-jacT'] = ('a coupled system and an implicit integrator', 'the integrator gets the derivatives of another system', '''
a, b = parameters('a, b')
t, u, v = variables('t, u, v')
m = ODEModel({D(u, t): -a * u, D(v, t): a * u - b * v}, initial={t: 0.0, u: 1.0, v: 0.0}, method='Radau')
import symfit.core.models as M
seen, real = [], M.solve_ivp
def spy(fun, t_span, y0, **kw):
    seen.append((fun, kw['jac'], kw['args']))
    return real(fun, t_span, y0, **kw)
M.solve_ivp = spy
m(t=np.linspace(0, 2, 5), a=1.0, b=0.5)
fun, jac, args = seen[0]
y = np.array([0.4, 0.3])
want = np.array([[(fun(0.5, y + 1e-6 * e, *args)[i] - fun(0.5, y - 1e-6 * e, *args)[i]) / 2e-6 for e in np.eye(2)] for i in range(2)])
near(jac(0.5, y, *args), want, rtol=1e-5, atol=1e-7)
''')
S['c16-init'] = ('an initial condition which is a fixed parameter, evaluated for another value', 'the value passed for an initial condition is ignored', '''
a = Parameter('a')
c = Parameter('c', value=1.0, fixed=True)
t, y = variables('t, y')
m = ODEModel({D(y, t): -a * y}, initial={t: 0.0, y: c})
td = np.linspace(0, 2, 5)
near(m(t=td, a=1.0, c=3.0).y, 3 * np.exp(-td), rtol=1e-4)
''')
S['c17-natural'] = ('parameters numbered with one and with two digits', 'parameters are no longer in alphabetical order', '''
a10, a2 = parameters('a10, a2')
x, y = variables('x, y')
m = Model({y: a10 * x + a2})
assert [p.name for p in m.params] == ['a10', 'a2'], m.params
near(m(np.array([2.0]), 3.0, 4.0)[0], [10.0])
''')
S['c17-sep'] = ('parameters made in an order which is not alphabetical', 'seperate_symbols no longer sorts parameters by name', '''
from symfit.core.support import seperate_symbols
b, a = Parameter('b'), Parameter('a')
assert [p.name for p in seperate_symbols(b + a)[1]] == ['a', 'b']
''')
S['c19-count'] = ('a chain of two stages with the same minimizer', 'options of repeated stages go by the wrong name', '''
a, = parameters('a')
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
fit = Fit({y: a * x}, x=xd, y=2 * xd, minimizer=[BFGS, BFGS])
near(fit.execute(BFGS={'tol': 1e-3}, BFGS_2={'tol': 1e-6}).value(a), 2.0, rtol=1e-4)
''')
S['c19-fixguess'] = ('a chain whose last stage ends worse than an earlier one', 'the result of a chain is not the one of its last stage', '''
a = Parameter('a', min=0.0, max=100.0)
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
opts = dict(seed=1, maxiter=1, popsize=2)
one = Fit({y: a * x}, x=xd, y=2 * xd, minimizer=DifferentialEvolution).execute(**opts)
two = Fit({y: a * x}, x=xd, y=2 * xd, minimizer=[BFGS, DifferentialEvolution]).execute(DifferentialEvolution=opts)
near(two.value(a), one.value(a), rtol=1e-12)
''')
S['c19-tol'] = ('a tolerance above 1e-6', 'the tolerance asked for does not reach the minimizer', '''
a, = parameters('a')
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
make = lambda: Fit({y: a * x}, x=xd, y=2 * xd, minimizer=NelderMead)
assert make().execute(tol=0.5).iterations < make().execute(tol=1e-6).iterations
''')
S['c21-rho2'] = ('a negative correlation', 'the bivariate Gaussian ignores the sign of the correlation', '''
from symfit.distributions import BivariateGaussian
g = BivariateGaussian(x=1.0, y=-1.0, mu_x=0, mu_y=0, sig_x=1, sig_y=1, rho=-0.5)
z = 1 + 1 + 2 * -0.5
near(float(g), np.exp(-z / (2 * 0.75)) / (2 * np.pi * np.sqrt(0.75)))
''')
S['c22-eq'] = ('comparing free parameters which only differ in value', 'different parameters are equal', '''
from sympy.core.cache import clear_cache
p = Parameter('a', value=1.0)
clear_cache()
q = Parameter('a', value=2.0)
assert q is not p and p != q and q != p
clear_cache()
assert Parameter('a', value=2.0) == q
''')
S['c23-fixed'] = ('an interactive guess for a model with a fixed parameter', 'sliders of fixed parameters have no effect', '''
from symfit.contrib.interactive_guess import InteractiveGuess
a = Parameter('a', value=1.0)
b = Parameter('b', value=1.0, fixed=True)
x, y = variables('x, y')
xd = np.array([1.0, 2.0, 3.0])
g = InteractiveGuess({y: a * x + b}, x=xd, y=2 * xd, n_points=5)
g.execute(show=False)
for p in (a, b):
    if p in g._sliders:
        s = g._sliders[p]
        s.set_val(0.5 * (s.valmax + s.val))
        near(p.value, s.val)
''')
S['c24-shared'] = ('parameters shared between components which are not next to each other', 'sharing of parameters goes unnoticed', '''
a, b = parameters('a, b')
x, u, v, w = variables('x, u, v, w')
assert Model({u: a * x, v: b * x, w: a + x}).shared_parameters
assert not Model({u: a * x, v: b * x}).shared_parameters
''')
S['c25-inv'] = ('the inverse of a singular matrix', 'a singular matrix gets an inverse', '''
from sympy import MatrixSymbol, Inverse
M, x, y = MatrixSymbol('M', 2, 2), MatrixSymbol('x', 2, 1), MatrixSymbol('y', 2, 1)
a, = parameters('a')
m = CallableModel({y: a * Inverse(M) * x})
near(m(M=np.diag([2.0, 4.0]), x=np.ones((2, 1)), a=1.0).y, [[0.5], [0.25]])
try:
    out = m(M=np.diag([2.0, 0.0]), x=np.ones((2, 1)), a=1.0).y
except np.linalg.LinAlgError:
    pass
else:
    assert not np.all(np.isfinite(out)), out
''')
