"""Candidate planted bugs: (id, property, file, old, new).  Only used by tools/campaign.py."""
M, O, F, MI, FR, A, S, P, D, OP, IG = ('symfit/core/models.py', 'symfit/core/objectives.py', 'symfit/core/fit.py', 'symfit/core/minimizers.py',
                                     'symfit/core/fit_results.py', 'symfit/core/argument.py', 'symfit/core/support.py', 'symfit/core/printing.py',
                                     'symfit/distributions.py', 'symfit/core/operators.py', 'symfit/contrib/interactive_guess/interactive_guess.py')
L = [
 ('c01-squeeze', 'C01', M, "return [np.atleast_1d(kwargs[var.name]) for var in self]", "return [np.atleast_1d(np.squeeze(kwargs[var.name])) for var in self]"),
 ('c01-lower', 'C17', M, "sort_func = lambda symbol: symbol.name\n        self.model_dict = OrderedDict(", "sort_func = lambda symbol: symbol.name.lower()\n        self.model_dict = OrderedDict("),
 ('c01-nospecial', 'C01', S, "lambdafunc = lambdify(args, func, dummify=False)", "lambdafunc = lambdify(args, func, modules='numpy', dummify=False)"),
 ('c01-sig', 'C01', M, "for arg in self.independent_vars + self.params\n        ]", "for arg in sorted(self.independent_vars, key=lambda v: len(v.name)) + self.params\n        ]"),
 ('c01-topo', 'C01', M, "for symbol in toposort(self.connectivity_mapping):\n            symbols.extend(sorted(symbol, key=key_func))", "for symbol in toposort(self.connectivity_mapping):\n            symbols.extend(sorted(symbol, key=key_func))\n        symbols.sort(key=lambda s: (s in self.model_dict) + (s in self.dependent_vars))"),
 ('c02-skip', 'C02', M, "dfdp = expr.diff(param)", "dfdp = expr.diff(param) if param in func.free_symbols and param in model.connectivity_mapping[var] | set().union(*[model.connectivity_mapping.get(v, set()) for v in model.connectivity_mapping[var]]) else sympy.S.Zero"),
 ('c02-shape', 'C02', M, "jac = [[np.broadcast_to(eval_jac_dict.get(D(var, param), 0),\n                                eval_jac_dict[var].shape)", "jac = [[np.resize(eval_jac_dict.get(D(var, param), 0),\n                                eval_jac_dict[var].shape)"),
 ('c03-shape', 'C03', M, "hess = [[[np.broadcast_to(eval_hess_dict.get(D(var, p1, p2), 0),\n                                  eval_hess_dict[var].shape)", "hess = [[[np.resize(eval_hess_dict.get(D(var, p1, p2), 0),\n                                  eval_hess_dict[var].shape)"),
 ('c04-abs', 'C04', M, "if abs(param_val) >= 1e-7:", "if param_val >= 1e-7:"),
 ('c04-shape', 'C04', M, "data_shape = up[comp_idx].shape", "data_shape = up[0].shape"),
 ('c04-int', 'C04', M, "h[param_idx] = dx * order\n                if abs(param_val) >= 1e-7:", "h[param_idx] = dx * order\n                if abs(param_val) >= 1:"),
 ('c05-truthy', 'C05', O, "            dep_data = self.dependent_data.get(dep_var, None)\n            if dep_data is not None:\n                sigma =", "            dep_data = self.dependent_data.get(dep_var, None)\n            if dep_data is not None and np.any(dep_data):\n                sigma ="),
 ('c05-logprod', 'C05', O, "[np.nansum(np.log(component)) for component in evaluated_func]", "[np.log(np.nanprod(component)) for component in evaluated_func]"),
 ('c05-expand', 'C05', O, "component = np.expand_dims(component, -1)", "component = np.expand_dims(component, param_level)"),
 ('c05-order', 'C05', O, "parameters.update(dict(zip(self.model.free_params, ordered_parameters)))\n        parameters.update(self._invariant_kwargs)\n        result = self.model(", "parameters.update(dict(zip(self.model.params, ordered_parameters)))\n        parameters.update(self._invariant_kwargs)\n        result = self.model("),
 ('c05-vls', 'C05', O, "result.append(((self.dependent_data[y] - ans) / self.sigma_data[self.model.sigmas[y]]) ** 2)", "result.append((self.dependent_data[y] - ans) ** 2 / self.sigma_data[self.model.sigmas[y]])"),
 ('c06-p1', 'C06', O, "result += np.sum(p2 - p1, axis=axes, keepdims=False)", "result += np.sum(p2 - np.abs(p1), axis=axes, keepdims=False)"),
 ('c06-sig', 'C06', O, "p2 = p2 / sigma[np.newaxis, np.newaxis, ...]**2", "p2 = p2 / np.mean(sigma)**2"),
 ('c06-ll', 'C06', O, "result += np.sum(dd_logf, axis=axes, keepdims=False)\n\n        return np.atleast_2d(np.squeeze(np.array(result)))", "result = np.sum(dd_logf, axis=axes, keepdims=False)\n\n        return np.atleast_2d(np.squeeze(np.array(result)))"),
 ('c06-vlsjac', 'C06', O, "(self.dependent_data[y] - ans) / self.sigma_data[self.model.sigmas[y]] ** 2\n                    )", "(self.dependent_data[y] - ans) / (self.sigma_data[self.model.sigmas[y]] * np.mean(self.sigma_data[self.model.sigmas[y]]))\n                    )"),
 ('c07-sigshape', 'C07', F, "self.data[sigma] = np.ones(self.data[var].shape)", "self.data[sigma] = np.ones(next(d for d in self.dependent_data.values() if d is not None).shape)"),
 ('c07-con', 'C07', F, "            for var in constraint.vars:\n                if var.name in self.data:", "            for var in constraint.vars[:1]:\n                if var.name in self.data:"),
 ('c07-sort', 'C07', F, "parameters = sorted(parameters, key=lambda p: p.default is None)\n        return inspect.Signature(parameters=parameters)\n\n    @staticmethod", "parameters = sorted(parameters, key=lambda p: (p.default is None, p.name.startswith('sigma_')))\n        return inspect.Signature(parameters=parameters)\n\n    @staticmethod"),
 ('c08-fixedval', 'C08', O, "kwargs = {p: p.value for p in self.model.params\n                  if p not in self.model.free_params}", "kwargs = {p: p.value for p in self.model.params\n                  if p.fixed and p.value}"),
 ('c08-pack', 'C08', MI, "            if param.fixed:\n                best_vals.append(param.value)", "            if param.fixed:\n                best_vals.append(param.value if param.max is None or param.min is None else min(max(param.value, param.min), param.max))"),
 ('c09-or', 'C09', MI, "return [(p.min, p.max) for p in self.params]", "return [(p.min or None, p.max or None) for p in self.params]"),
 ('c09-minpack', 'C09', MI, "if high is None:", "if not high:"),
 ('c09-any', 'C19', F, "elif any([bound is not None for pair in self.model.bounds for bound in pair]):", "elif any([any(pair) for pair in self.model.bounds]):"),
 ('c09-bh', 'C09', MI, "minimize_options['minimizer_kwargs']['bounds'] = self.local_minimizer.bounds", "minimize_options['minimizer_kwargs']['bounds'] = [b for b in self.local_minimizer.bounds if b[0] is not None] or None"),
 ('c10-expand', 'C10', M, "constraint = constraint.lhs - constraint.rhs", "constraint = sympy.simplify(constraint.lhs - constraint.rhs).as_numer_denom()[0]"),
 ('c10-neg', 'C10', M, "for var in self.dependent_vars:\n            new_model_dict[var] *= -1", "for var in new_model_dict:\n            new_model_dict[var] *= -1"),
 ('c11-guess', 'C19', MI, "for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):\n            minimizer.initial_guesses = next_guess", "for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):\n            if minimizer is not self.minimizers[0]:\n                minimizer.initial_guesses = next_guess"),
 ('c12-lastsig', 'C12', F, "if original_data[sigma.name] is not None:\n                    self.absolute_sigma = True\n                    break", "self.absolute_sigma = original_data[sigma.name] is not None\n                if not self.absolute_sigma:\n                    break"),
 ('c12-rss', 'C12', F, "rss = 2 * objective(**key2str(best_fit_params))", "rss = 2 * self.objective(**key2str(best_fit_params)) if isinstance(self.objective, LeastSquares) else np.sum(self.objective(**key2str(best_fit_params)))"),
 ('c12-inv', 'C12', F, "cov_mat = s2 * hess_inv", "cov_mat = s2 * np.abs(hess_inv)"),
 ('c13-r2', 'C13', FR, "f_is = [f_is[var] for var in model.dependent_vars]", "f_is = [f for var, f in f_is.items() if var in data]"),
 ('c13-r2b', 'C13', FR, "y_is = [data[var] for var in model.dependent_vars if var in data]", "y_is = [data[var] for var in model.dependent_vars if data.get(var) is not None]"),
 ('c13-str', 'C13', FR, "for p in self.model.params:\n            value = self.value(p)", "for p in sorted(self.model.params, key=lambda p: p.fixed):\n            value = list(self.params.values())[self.model.params.index(p)] if not p.fixed else p.value"),
 ('c13-mean', 'C13', FR, "y_bars = [np.mean(y_i) if y_i is not None else None for y_i in y_is]", "y_bars = [np.mean([np.mean(y_i) for y_i in y_is if y_i is not None]) for _ in y_is]"),
 ('c14-chain', 'C14', MI, "final = answers[-1]", "final, self.initial_guesses = answers[-1], next_guess"),
 ('c14-setval', 'C14', MI, "            if param.fixed:\n                best_vals.append(param.value)", "            if param.min is not None and param.value < param.min:\n                param.value = param.min\n            if not param.fixed is False:\n                best_vals.append(param.value)"),
 ('c15-init', 'C15', MI, "self.__dict__.update(state)\n        self.__init__(**self._pickle_kwargs)", "self.__init__(**state['_pickle_kwargs'])"),
 ('c15-bh', 'C15', MI, "self._pickle_kwargs['local_minimizer'] = self.local_minimizer\n", ""),
 ('c15-cache', 'C15', M, "del state[key]\n        return state", "del self.__dict__[key], state[key]\n        return state") ,
 ('c16-rtol', 'C16', M, "            if 'rtol' not in self.integrator_kwargs:\n                self.integrator_kwargs['rtol'] = 1.49012e-8", "            if 'rtol' not in self.integrator_kwargs and 'atol' not in integrator_kwargs:\n                self.integrator_kwargs['rtol'] = 1.49012e-5"),
 ('c16-jacT', 'C16', M, "sympy.diff(expr, var), self.independent_vars + self.dependent_vars + self.model_params\n                ) for var in self.dependent_vars\n            ] for _, expr in self.items()", "sympy.diff(expr, var), self.independent_vars + self.dependent_vars + self.model_params\n                ) for _, expr in self.items()\n            ] for var in self.dependent_vars"),
 ('c16-init', 'C16', M, "            if init_var in self.initial_params:\n                initial_dependent[idx] = bound_arguments.arguments[init_var.name]", "            if init_var in self.initial_params:\n                initial_dependent[idx] = init_var.value if init_var.fixed else bound_arguments.arguments[init_var.name]"),
 ('c16-neg', 'C16', M, "t_smaller = np.concatenate(\n                (np.array([t_initial]), t_like[t_like < t_initial][::-1])", "t_smaller = np.concatenate(\n                (np.array([t_initial]), t_like[t_like < t_initial])"),
 ('c17-natural', 'C17', M, "self.params = [s for s in independent if isinstance(s, Parameter)]", "self.params = sorted((s for s in independent if isinstance(s, Parameter)), key=lambda p: (p.name.rstrip('0123456789'), int(p.name[len(p.name.rstrip('0123456789')):] or 0)))"),
 ('c17-sep', 'C21', S, "    params.sort(key=lambda symbol: symbol.name)\n    vars.sort(key=lambda symbol: symbol.name)\n", "    params.sort(key=lambda symbol: symbol._argument_index)\n    vars.sort(key=lambda symbol: symbol.name)\n"),
 ('c18-deps', 'C18', M, "dependencies_kwargs = {d.name: kwargs[d.name]\n                                       for d in dependencies}", "dependencies_kwargs = {d.name: kwargs[d.name]\n                                       for d in dependencies if d.name in kwargs}"),
 ('c18-prior', 'C18', M, "sub_model.connectivity_mapping.update(connectivity_mapping)\n                connectivity_mapping = sub_model.connectivity_mapping", "connectivity_mapping = dict(connectivity_mapping, **{})\n                connectivity_mapping.update(sub_model.connectivity_mapping)"),
 ('c19-count', 'C19', MI, "if count[name(minimizer)] == 1:", "if count[name(minimizer)] <= 1 or len(self.minimizers) == 2:"),
 ('c19-fixguess', 'C19', MI, "final = answers[-1]", "final = min(answers, key=lambda a: np.sum(a.minimizer_output['fun']))"),
 ('c19-tol', 'C19', MI, "minimize_options.update(tol=tol)", "minimize_options.setdefault('options', {})\n        minimize_options.update(tol=min(tol, 1e-6))"),
 ('c20-eqjac', 'C20', MI, "con['jac'] = self.resize_jac(con['fun'].eval_jacobian)", "con['jac'] = self.resize_jac(lambda *a, **k: con['fun'].eval_jacobian(*a, **k)) if not self._fixed_params else self.resize_jac(con['fun'].eval_jacobian)"),
 ('c21-rho', 'C21', D, "return sympy.exp(exponent) / (2 * sympy.pi * sig_x * sig_y * sympy.sqrt(1 - rho**2))", "return sympy.exp(exponent) / (2 * sympy.pi * sympy.sqrt(sig_x**2 * sig_y**2 - rho**2 * sig_x * sig_y))"),
 ('c21-rho2', 'C21', D, "- 2 * rho * (x - mu_x) * (y - mu_y) / (sig_x * sig_y)", "- 2 * sympy.Abs(rho) * (x - mu_x) * (y - mu_y) / (sig_x * sig_y)"),
 ('c22-bounds', 'C22', A, "if min is not None and max is not None and min > max:\n            if not self.fixed:", "if min is not None and max is not None and (min > max or value is not None and not min <= value <= max):\n            if not self.fixed and min > max:"),
 ('c22-falsy', 'C22', A, "        self.min = min\n        self.max = max", "        self.min = min or None\n        self.max = max"),
 ('c22-eq', 'C22', A, "self.fixed == other.fixed and\n                    self.value == other.value)", "self.fixed == other.fixed and\n                    (self.fixed or self.value == other.value))"),
 ('c23-fixed', 'C23', IG, "        for param in self.model.params:\n            param.value = self._sliders[param].val", "        for param in self.model.free_params:\n            param.value = self._sliders[param].val"),
 ('c23-max', 'C23', IG, "x_maxs[x] += 0.1 * plotrange_x", "x_maxs[x] += 0.1 * (x_maxs[x] - x_mins[x])"),
 ('c23-mean', 'C23', IG, "y_plot_data.append(np.mean(ys))", "y_plot_data.append(np.mean(y_vals[np.isclose(x_vals, x_val)]))"),
 ('c24-shared', 'C24', M, "params_thusfar += params\n            else:", "params_thusfar = params\n            else:"),
 ('c24-bounds', 'C24', M, "bounds.append([p.min, p.max])\n        return bounds", "bounds.append(sorted([p.min, p.max]) if None not in (p.min, p.max) else [p.min, p.max])\n        return bounds"),
 ('c24-eq', 'C24', M, "for var_1, var_2 in zip(self, other):\n                if var_1 != var_2:", "for var_1, var_2 in zip(self, other):\n                if var_1.name != var_2.name:"),
 ('c25-inv', 'C25', P, "return \"%s(%s)\" % (printer._module_format('numpy.linalg.inv'),", "return \"%s(%s)\" % (printer._module_format('numpy.linalg.pinv'),"),
 ('c25-matpow', 'C25', P, "if self.shape == (1, 1):\n        # Scalar, so we can take a normal power.", "if self.shape == (1, 1) or self.exp.is_integer and self.exp > 1 and self.base.is_Identity:\n        # Scalar, so we can take a normal power."),
 ('c25-idx', 'C25', P, "return \"{0}\".format(printer.doprint(self.args[0]))", "return \"({0} - {1})\".format(printer.doprint(self.args[0]), printer.doprint(self.lower if self.lower is not None else 0))"),
]
