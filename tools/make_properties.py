#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the wording lives in one diffable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M, O, F, R, Z, S, A = ("symfit/core/models.py", "symfit/core/objectives.py", "symfit/core/fit.py",
    "symfit/core/fit_results.py", "symfit/core/minimizers.py", "symfit/core/support.py", "symfit/core/argument.py")

p("C01", "Calling a symbolic model gives the mathematical value of every component",
  "Calling a model built from symbolic expressions returns, for every component, the value of its expression at the supplied arguments, with components that depend on other components substituted to any depth and array arguments broadcast as numpy broadcasts them. Arguments bind positionally (independent variables first, then parameters, alphabetically within each group) or by name with the same outcome, and missing, surplus or duplicate arguments are refused with TypeError. Every component is retrievable by position in alphabetical order, by attribute, by unpacking and from the dict form, and always under its own variable.",
  ["inputs", "programs"], "all scalar/vector/interdependent symbolic models, all names, all argument values, shapes and calling styles",
  "Tests evaluate about a dozen hand-written models at one point each; name orderings, dependency depth and shape combinations are unbounded.",
  [M, S], [("BaseCallableModel.eval_components/_make_signature", M), ("ModelOutput", M), ("sympy_to_py", S), ("toposort over connectivity_mapping", M)],
  ["return value of Model/GradientModel/CallableModel calls"])
p("C02", "Analytical Jacobians equal the true first derivatives",
  "For every symbolic model the evaluated Jacobian of each component is the exact first derivative with respect to every parameter in alphabetical parameter order, with the chain rule applied through components that depend on other components. It has the shape of the component with a leading parameter axis, with zeros where a component does not depend on a parameter. The symbolic Jacobian agrees with the evaluated one.",
  ["inputs", "programs"], "all differentiable symbolic models, incl. interdependent ones, all points, all broadcastable shapes",
  "Tests compare a few fixed models against hand-derived results; chain depth, shared parameters and shapes are open-ended.",
  [M], [("jacobian_from_model", M), ("GradientModel.eval_jacobian", M), ("vars_as_functions / function_dict", M)], ["Model.eval_jacobian, Model.jacobian"])
p("C03", "Analytical Hessians equal the true second derivatives and are symmetric",
  "For every symbolic model the evaluated Hessian of each component contains the exact second derivatives with respect to every pair of parameters, including the terms the chain rule produces through components that depend on other components. It is symmetric in the two leading parameter axes, which precede the component's own shape, and zero for pairs the component does not depend on.",
  ["inputs", "programs"], "all twice differentiable symbolic models, incl. interdependent ones, all points and shapes",
  "One interdependent model is checked at one point in the tests.",
  [M], [("hessian_from_model", M), ("_partial_diff/_partial_subs", M), ("HessianModel.eval_hessian", M)], ["Model.eval_hessian"])
p("C04", "Finite-difference Jacobians approximate the true derivative at any scale",
  "For models without an analytical gradient (ODE models and user-defined gradient models) and for the explicit finite-difference call, the Jacobian matches the true first derivatives to finite-difference accuracy, for positive, negative, zero, tiny and large parameter values. Components with different data lengths and several independent variables are supported, and the layout is the same as that of the analytical Jacobian.",
  ["inputs", "programs"], "all smooth models, all parameter points including zero and negative values, all data shapes",
  "Tests use positive parameters near 1-30 on six models.",
  [M], [("BaseGradientModel.finite_difference", M)], ["Model.finite_difference, ODEModel.eval_jacobian"])
p("C05", "Objective values equal their definitions",
  "Least squares evaluates to half the sum over components with data of the squared residuals divided by squared sigmas; its vector form gives the absolute weighted residuals; log-likelihood gives minus the sum of the logarithms of the model values; model minimisation gives the model value. Components whose data is None contribute nothing, components may have different shapes, and a constant component is broadcast to the shape of its data. Parameter values supplied as an ordered list (free parameters, alphabetical) and by name are equivalent, and omitted fixed parameters take their fixed value.",
  ["inputs", "programs"], "all models, data sets, sigma combinations, None patterns, parameter points",
  "Tests check single-component fits at one point; None patterns, per-component shapes and weights are combinatorial.",
  [O, F], [("LeastSquares/VectorLeastSquares/LogLikelihood/MinimizeModel.__call__", O), ("BaseObjective._shape_of_dependent_data/_invariant_kwargs", O)], ["objective calls"])
p("C06", "Objective gradients and Hessians are the derivatives of the objective value",
  "For each built-in objective the evaluated gradient is exactly the gradient of that objective's value with respect to all model parameters in order, and the evaluated Hessian is exactly its matrix of second derivatives and symmetric. This holds for weighted, partially absent (None), multi-component and differently shaped data, and for the residual Jacobian of the vector least-squares form.",
  ["inputs", "programs"], "all differentiable symbolic models, data sets, weights, parameter points",
  "Tests check gradient/Hessian of a handful of scalar objectives.",
  [O], [("eval_jacobian / eval_hessian of each objective", O)], ["objective.eval_jacobian/eval_hessian"])
p("C07", "Data given to a fit is bound to the right variables, in the right form",
  "Data may be passed positionally (independent variables, then dependent variables, then their sigmas, each alphabetically) or by name, and either way each array is used for exactly its own variable, including extra variables that only constraints use. Sequences become arrays, a scalar sigma applies to every point of its own component, absent sigmas weigh every point by one, and components explicitly given None are left out of the fit. Missing independent or dependent data, surplus data, unknown names, and dependent data for likelihood or minimisation problems are refused with TypeError.",
  ["inputs", "programs"], "all models, all argument styles, data types and name orderings",
  "Tests bind data for a few models with conveniently ordered names.",
  [F, O], [("TakesData.__init__/_make_signature", F), ("Fit._make_signature/_determine_objective", F)], ["Fit.data, dependent_data, independent_data, sigma_data, objective value"])
p("C08", "Fixed parameters never move",
  "A parameter marked fixed keeps exactly its given value in every evaluation made during a fit and in the reported result, whichever built-in minimizer or chain of minimizers is used and wherever it sits in the parameter order. Fixing a parameter is equivalent to writing its value into the model as a constant: the remaining parameters, their uncertainties and the objective value come out the same, and a fixed parameter has zero variance and covariance.",
  ["inputs", "programs", "configurations"], "all models, subsets of fixed parameters (incl. value 0, negative, first/last), minimizers, chains",
  "Tests fix one parameter of one model and only look at the final value.",
  [Z, O, F], [("_fixed_params / resize_jac / resize_hess / _pack_output", Z), ("BaseObjective._invariant_kwargs", O), ("HasCovarianceMatrix._covariance_matrix", F), ("ChainedMinimizer.execute", Z)],
  ["every evaluation of a recording model, FitResults"])
p("C09", "Bounded fits stay inside the bounds",
  "With a minimizer that supports bounds (and by default whenever a free parameter has a bound), every reported parameter lies within its own minimum and maximum, one-sided, zero and negative bounds included, and the objective is never evaluated outside them by minimizers that guarantee feasibility. When the unconstrained optimum of a convex problem lies outside the box the reported optimum is the constrained one; parameters without bounds are never restricted.",
  ["inputs", "programs", "configurations"], "all models, bound patterns, bounded minimizers (L-BFGS-B, SLSQP, trust-constr, MINPACK, differential evolution, basin hopping)",
  "Tests check x>=1 for x**2 and a few two-sided boxes.",
  [Z, M, F, A], [("BoundedMinimizer.bounds / MINPACK.bounds", Z), ("Fit._determine_minimizer", F), ("BaseModel.bounds", M)], ["evaluations of a recording model, FitResults.params"])
p("C10", "Reported optima satisfy the constraints as the user wrote them",
  "For a successful constrained fit, every equality, >= and <= constraint holds at the reported parameters to solver tolerance, whichever way round it was written, including constraints on model components and on extra data, and with fixed parameters present. Equivalent ways of writing a constraint give the same optimum, which for convex problems is the true constrained optimum. Strict inequalities, vector constraints and constraints using unknown parameters are refused with ModelError.",
  ["inputs", "programs", "configurations"], "all constrained problems over the supported relations, constraint-capable minimizers (SLSQP, trust-constr, COBYLA, basin hopping)",
  "Tests check a fixed set of constraint problems with one or two constraints.",
  [M, Z, F], [("BaseModel.as_constraint/with_dependencies", M), ("scipy_constraints", Z), ("Fit._init_constraints", F)], ["FitResults.params/constraints"])
p("C11", "Fits converge to the optimum of the stated problem",
  "On well-posed problems (weighted linear least squares, smooth nonlinear least squares started near the solution, standard maximum-likelihood families, convex minimisation) the reported parameters are the known optimum to the minimizer's accuracy, for every built-in minimizer and for the automatically selected one. The reported optimum is never worse than the initial guess. Datasets that share no parameters give jointly the same answer as fitted separately.",
  ["inputs", "programs", "configurations"], "all well-posed problems of these classes, all built-in minimizers",
  "Tests fit a few fixed data sets, mostly with the default minimizer.",
  [F, Z, O], [("Fit", F), ("ScipyMinimize.execute/_pack_output", Z)], ["FitResults"])
p("C12", "Reported uncertainties are the statistically defined ones",
  "The covariance matrix of a least-squares fit is the inverse Hessian of the objective at the optimum (its Gauss-Newton form when no second derivatives exist), unscaled when sigmas are absolute and scaled by the residual variance chi2/(points - free parameters) otherwise; for likelihood fits it is the inverse Hessian. Sigmas count as absolute exactly when at least one was provided, unless absolute_sigma says otherwise. Rows and columns follow the parameter order, and where no Hessian can be formed the uncertainties are None rather than wrong.",
  ["inputs", "programs", "configurations"], "all models, weights, absolute_sigma settings, minimizers",
  "Tests compare a few fits with curve_fit and one analytical case.",
  [F, R], [("HasCovarianceMatrix.covariance_matrix", F), ("TakesData absolute_sigma", F), ("FitResults.variance/stdev/covariance", R)], ["FitResults.covariance_matrix/stdev/variance/covariance"])
p("C13", "Fit results are internally consistent",
  "In every fit result the objective value is the objective at the reported parameters, and r-squared, chi-squared, log-likelihood and likelihood are the defined functions of those parameters and the data. Values, standard deviations, variances and covariances looked up by parameter agree with the parameter dict and covariance matrix entries of that parameter, and stdev is the root of variance. The printed report shows each parameter with its own value and standard deviation, every qualifier, and every constraint with its relation and value.",
  ["inputs", "programs", "configurations"], "all fits, objectives, minimizers, constraints",
  "Tests check presence of the qualifiers and a few values.",
  [R, F], [("FitResults", R), ("r_squared", R), ("Fit.execute", F)], ["FitResults attributes and str()"])
p("C14", "Fitting has no side effects and is repeatable",
  "Building, evaluating and executing fits never alters the user's parameters (value, bounds, fixed), data arrays, model dictionaries, constraint expressions or option dictionaries. Executing the same fit again, or building an identical fit later, after other fits on the same model, data and parameters have run, gives the same result for deterministic minimizers. A change the user makes to a parameter or data before building a fit is always honoured by that fit.",
  ["histories", "inputs", "programs"], "all interleavings of building/evaluating/executing several fits over shared models, parameters, data and options",
  "Tests run each fit once on fresh objects.",
  [F, Z, O, M, S], [("TakesData copies", F), ("Minimizer option handling", Z), ("cached_property", S)], ["deep snapshots of all user objects before/after each operation"])
p("C15", "Pickled objects behave identically when restored",
  "Parameters, variables, models (symbolic, numerical, ODE), model outputs, objectives, minimizers (with constraints, chains, basin hopping) and fit results survive a pickle round trip, within the process or into a fresh interpreter, with the same attributes, the same evaluation results and, when executed, the same fit outcome. Pickling does not change the original. Fits mapped over a process pool return what serial execution returns.",
  ["inputs", "programs", "histories"], "all picklable symfit objects and states (fresh, used, executed), across interpreters with different hash seeds",
  "Tests pickle a handful of objects in the same process and compare selected attributes.",
  [A, M, O, Z, R], [("__getstate__/__setstate__/__getnewargs__ of each class", A)], ["objects restored in this and in spawned interpreters"])
p("C16", "ODE models return the solution of the initial value problem",
  "Calling an ODE model returns, for each dependent variable and each requested time, the solution of the initial value problem to integrator accuracy, in the order the times were requested. This holds for times before, at and after the initial time, whether or not the initial time is among them, for scalars and arrays of any length, and for initial conditions given as numbers or as (free or fixed) parameters. Derivatives of the system which are handed to the integrator are the derivatives of that system. Fits of ODE models recover the generating parameters.",
  ["inputs", "programs"], "all well-behaved ODE systems, all increasing time grids relative to the initial time, all integrator options",
  "Tests integrate a few systems from t=0 forward and one grid spanning the initial time.",
  [M], [("ODEModel.eval_components", M), ("ODEModel system/jacobian functions", M)], ["ODEModel calls, Fit on ODEModel"])
p("C17", "Names, definition order and hash seed do not influence results",
  "Renaming parameters and variables, permuting the order in which components are defined or data is passed by name, or running under another hash seed only permutes the outputs accordingly: evaluations, derivatives, objective values, fit results and uncertainties attached to each symbol stay the same. Unnamed component lists keep the order in which they were written.",
  ["programs", "inputs", "configurations"], "all renamings/permutations of all models and fits, all hash seeds",
  "Tests use conventional names whose alphabetical order equals the definition order, under one hash seed.",
  [M, F, O, Z], [("alphabetical sorting of params/vars", M), ("signature construction", F)], ["metamorphic pairs of runs"])
p("C18", "Numerical models behave like the symbolic model they encode",
  "A numerical model whose components are Python callables (alone or mixed with symbolic components, with any dependency structure described by its connectivity mapping) evaluates identically to the symbolic model with the same formulas, calls each callable with exactly its declared dependencies, and fits, constrains and minimises to the same results. Negating it negates its output without altering the original, and models without a usable connectivity mapping are refused.",
  ["programs", "inputs"], "all numerical/mixed models with a symbolic twin",
  "Tests compare three numerical models.",
  [M, Z], [("CallableNumericalModel/BaseNumericalModel", M), ("BaseMinimizer._baseobjective_from_callable", Z)], ["recorded callable invocations, evaluation and fit results"])
p("C19", "Minimizer selection, chaining and option routing are faithful",
  "Without an explicit choice a fit uses a constraint-capable minimizer when there are constraints, a bounded one when a free parameter has bounds, and an unconstrained one when no parameter is bounded or fixed. A chain runs its minimizers in the given order, each exactly once and starting from the previous one's result, the first from the parameters' initial values; the chain's result is the last stage's with the summed iteration count. Options addressed to a stage by its name (numbered from the second one on when repeated) reach exactly that stage, options of single minimizers reach the algorithm, and unknown option names are refused.",
  ["configurations", "programs", "histories"], "all chains (length, repeats, fixed parameters), all option assignments, repeated execution",
  "Tests run two short chains and one signature example.",
  [Z, F], [("ChainedMinimizer", Z), ("Fit._determine_minimizer/_init_minimizer", F)], ["recording minimizers supplied by the harness, FitResults"])
p("C20", "The optimiser is handed one consistent problem",
  "Whatever minimizer runs, the starting point, bounds, gradient, Hessian, constraint functions and constraint derivatives handed to the numerical optimiser are about the free parameters only, in one common order, and describe the same problem: gradients and Hessians (objective and each constraint) are the derivatives of the very functions handed over, constraint signs and kinds match the user's relations, and bounds and start equal the parameters' own. With several constraints each keeps its own derivatives.",
  ["inputs", "programs", "configurations"], "all models, fixed subsets, bounds, constraint sets, minimizers that take derivatives",
  "Solvers silently tolerate wrong derivatives, so end-result tests cannot see them.",
  [Z, O, F], [("resize_jac/resize_hess/scipy_constraints/wrapped_*", Z), ("Fit._init_minimizer", F)], ["arguments arriving at scipy.optimize.minimize/least_squares/basinhopping/differential_evolution"])
p("C21", "Expressions are callable and the built-in distributions are correct",
  "Calling a symbolic expression or a single parameter with values, positionally (variables then parameters, alphabetical) or by name, returns its mathematical value elementwise with numpy broadcasting; surplus names are ignored and missing ones refused. The supplied Gaussian, bivariate Gaussian and exponential distributions evaluate to the corresponding normalised probability densities for all admissible arguments.",
  ["inputs", "programs"], "all expressions, argument values and shapes, all distribution parameters",
  "Tests check each distribution symbolically once and evaluate few expressions.",
  ["symfit/core/operators.py", "symfit/distributions.py", S], [("call", "symfit/core/operators.py"), ("Gaussian/BivariateGaussian/Exp", "symfit/distributions.py")], ["expr(...) return values"])
p("C22", "Parameter and variable creation honours what the user asked for",
  "Creating parameters and variables, singly or several at once, yields symbols with exactly the requested names, in order, and exactly the requested value, bounds and fixed flag, given either as one value for all or as a sequence per parameter, with the documented defaults otherwise. Contradictory bounds and sequences of the wrong length are refused with ValueError. Symbols compare equal exactly when kind, name and attributes agree, are usable as real-valued sympy symbols, and missing names are generated uniquely.",
  ["inputs", "programs"], "all names, values, bounds, flags and sequence combinations",
  "Tests cover four constructions.",
  [A, S], [("Argument/Parameter/Variable", A), ("parameters/variables", S)], ["attributes of created symbols"])
p("C23", "Interactive guessing shows and stores the model at the slider values",
  "After any sequence of slider moves each parameter's value equals its slider, and only its slider; every plotted model line shows the model evaluated at those values over the plotted range, and with several independent variables its mean with error bars spanning the requested percentiles. Slider ranges come from the parameter bounds, defaulting to 0 and twice the value. Each projection of an independent onto a dependent variable has its own plot containing its own data.",
  ["histories", "inputs", "programs"], "all models, slider move sequences",
  "Tests move one slider once on one model.",
  ["symfit/contrib/interactive_guess/interactive_guess.py"], [("InteractiveGuess._update_plot", "symfit/contrib/interactive_guess/interactive_guess.py"), ("Strategy2D/StrategynD", "symfit/contrib/interactive_guess/interactive_guess.py")], ["parameter values, matplotlib artists"])
p("C24", "Model algebra: equality, negation, composition and mapping behaviour",
  "Models compare equal exactly when they have the same variables with mathematically expanded-equal expressions, and objectives exactly when type, model and data agree; comparing never raises. Negating a model negates its dependent components and leaves the original intact. Building a model or constraint with dependencies pulls in exactly the needed components of the other model so that it evaluates as the composed function, takes the other model's parameters, and leaves the other model unchanged; models behave as read-only mappings and report their variables, parameters, bounds and shared parameters correctly.",
  ["programs", "inputs"], "all pairs of models/objectives, all dependency structures",
  "Tests compare two or three model pairs.",
  [M, O], [("__eq__/__neg__/with_dependencies/as_constraint/shared_parameters", M), ("BaseObjective.__eq__", O)], ["model attributes and evaluations"])
p("C25", "Matrix-valued models evaluate as linear algebra",
  "Models written with matrix symbols - products, transposes, inverses, powers, elementwise products and powers, indexed sums - evaluate to the corresponding numpy linear algebra, with interdependent matrix components substituted, and can be fitted and used in constraints with the parameters recovered.",
  ["inputs", "programs"], "all matrix expressions of these kinds, all matrix sizes",
  "Tests evaluate two matrix models.",
  ["symfit/core/printing.py", M, S], [("numpy printers for Inverse/HadamardProduct/HadamardPower/Idx/MatPow", "symfit/core/printing.py")], ["CallableModel calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
