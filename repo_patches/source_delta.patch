From d3c3112f6a875a12a349eefad26217d1c81e4bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 01/41] fix: hand the full free-parameter Hessian to the
 minimizer

out[mask, mask] selected the diagonal only.
---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index ba79f6a..e6f282b 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -187,7 +187,7 @@ class HessianMinimizer(GradientMinimizer):
             # Make two dimensional, corresponding to a scalar function.
             out = np.atleast_2d(np.squeeze(out))
             mask = [p not in self._fixed_params for p in self.parameters]
-            return np.atleast_2d(out[mask, mask])
+            return out[np.ix_(mask, mask)]
         return resized
 
 
-- 
2.43.0


From 7700ceb47586ad5ed741e52c0a4dc4922fabcb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 02/41] fix: TrustConstr gives every constraint its own Hessian

The closure was late-binding, so all constraints used the last Hessian.
---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index e6f282b..1d8efb6 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -588,7 +588,7 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             }
             # If None is given to NonlinearConstraint it'll throw a hissy fit.
             if con['hess'] is not None:
-                nonlinearconstr_kwargs['hess'] = lambda x, v: con['hess'](x) * v
+                nonlinearconstr_kwargs['hess'] = lambda x, v, hess=con['hess']: hess(x) * v
             if con['jac'] is not None:
                 nonlinearconstr_kwargs['jac'] = con['jac']
             tc_con = NonlinearConstraint(**nonlinearconstr_kwargs)
-- 
2.43.0


From 8175fb8e4272dabd4e1a4b017d3c555e72cb5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 03/41] fix: ChainedMinimizer passes on free parameters only

Initial guesses of a minimizer never include the fixed parameters.
---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 1d8efb6..f5cee57 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -261,7 +261,7 @@ class ChainedMinimizer(BaseMinimizer):
         for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):
             minimizer.initial_guesses = next_guess
             ans = minimizer.execute(**kwargs)
-            next_guess = list(ans.params.values())
+            next_guess = [ans.value(param) for param in self.params]
             answers.append(ans)
         final = answers[-1]
         # TODO: Compile all previous results in one, instead of just the
-- 
2.43.0


From 7e0962005be893466059f50dd66829bebcdd1e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 04/41] fix: ChainedMinimizer can contain MINPACK

least_squares does not report a number of iterations.
---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index f5cee57..cf4ba5e 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -267,7 +267,7 @@ class ChainedMinimizer(BaseMinimizer):
         # TODO: Compile all previous results in one, instead of just the
         # number of function evaluations. But there's some code down the
         # line that expects scalars.
-        final.minimizer_output['nit'] = sum(ans.iterations for ans in answers)
+        final.minimizer_output['nit'] = sum(ans.iterations or 0 for ans in answers)
         return final
 
     def _make_signature(self):
-- 
2.43.0


From 3cc9edd10c72dbf5e164c678b34cb02a9055bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 05/41] fix: do not alter the option dicts provided by the user

---
 symfit/core/minimizers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index cf4ba5e..6b90829 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -596,8 +596,8 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
         return out
 
     def execute(self, *, jacobian=None, hessian=None, options=None, **minimize_options):
-        if options is None:
-            options = {}
+        # Copy, because we should not add items to the dict of the user.
+        options = {} if options is None else dict(options)
         # Our Jacobians are dense, and apparently we need to explicitely
         # tell this.
         options['sparse_jacobian'] = False
@@ -717,8 +717,10 @@ class BasinHopping(ScipyMinimize, GlobalMinimizer):
             :func:`scipy.optimize.basinhopping`.
         :return: :class:`symfit.core.fit_results.FitResults`
         """
-        if 'minimizer_kwargs' not in minimize_options:
-            minimize_options['minimizer_kwargs'] = {}
+        # Copy, because we should not add items to the dict of the user.
+        minimize_options['minimizer_kwargs'] = dict(
+            minimize_options.get('minimizer_kwargs', {})
+        )
 
         if 'method' not in minimize_options['minimizer_kwargs']:
             # If no minimizer was set by the user upon execute, use local_minimizer
-- 
2.43.0


From 6667bed3f31a2940c6a7ffcef564ef8302b44440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 06/41] fix: ODEModel can be evaluated at an array of only the
 initial time

There is nothing to integrate in that case, which raised an AttributeError.
---
 symfit/core/models.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index dbbe855..248774a 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1166,9 +1166,13 @@ class ODEModel(BaseGradientModel):
         try:
             t_like[0]
         except (TypeError, IndexError): # Python scalar gives TypeError, numpy scalars IndexError
-            if t_like == t_initial:  # When evaluated only at the initial condition, we know the answer.
-                return np.atleast_2d(initial_dependent).T
             t_like = np.array([t_like]) # Allow evaluation at one point.
+        if np.all(np.equal(t_like, t_initial)):
+            # When evaluated only at the initial condition, we know the answer.
+            return np.repeat(
+                np.array(initial_dependent)[:, np.newaxis],
+                len(t_like), axis=1
+            )
 
         # The strategy is to split the time axis in a part above and below the
         # initial value, and to integrate those seperately. At the end we rejoin them.
-- 
2.43.0


From 641d6d2568276047bcd18a75402f56839963f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 07/41] fix: ODEModel accepts unordered and repeated times

Replicate measurements at the same time made solve_ivp raise a ValueError.
---
 symfit/core/models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 248774a..d36435a 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1173,6 +1173,9 @@ class ODEModel(BaseGradientModel):
                 np.array(initial_dependent)[:, np.newaxis],
                 len(t_like), axis=1
             )
+        # The integrator needs strictly increasing times. We restore the order
+        # (and repetition) in which they were requested at the end.
+        t_like, requested = np.unique(t_like, return_inverse=True)
 
         # The strategy is to split the time axis in a part above and below the
         # initial value, and to integrate those seperately. At the end we rejoin them.
@@ -1235,12 +1238,12 @@ class ODEModel(BaseGradientModel):
 
         if t_initial in t_like:
             # The user also requested to know the value at t_initial, so keep it.
-            return ans
+            return ans[:, requested]
         else:
             # The user didn't ask for the value at t_initial, so exclude it.
             # (t_total contains all the t-points used for the integration,
             # and so is t_like with t_initial inserted at the right position).
-            return ans[:, t_total != t_initial]
+            return ans[:, t_total != t_initial][:, requested]
 
     def __call__(self, *args, **kwargs):
         """
-- 
2.43.0


From 8ab5cfeccdd76976a4881b28036498ca6ac82a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 08/41] fix: numerical models can be negated

__neg__ iterated over the wrong thing, used a late-binding closure and did
not pass on the connectivity mapping.
---
 symfit/core/models.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index d36435a..a7e042e 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -532,6 +532,13 @@ class BaseModel(Mapping):
         self.__signature__ = self._make_signature()
 
 
+def _negated(component, *args, **kwargs):
+    """
+    :return: minus the output of the callable ``component``.
+    """
+    return - component(*args, **kwargs)
+
+
 class BaseNumericalModel(BaseModel):
     """
     ABC for Numerical Models. These are models whose components are generic
@@ -617,10 +624,16 @@ class BaseNumericalModel(BaseModel):
         :return: new model with opposite sign. Does not change the model in-place,
             but returns a new copy.
         """
-        new_model_dict = {}
-        for key, callable_expr in self.model_dict.values():
-            new_model_dict[key] = lambda *args, **kwargs: - callable_expr(*args, **kwargs)
-        return self.__class__(new_model_dict)
+        new_model_dict = self.model_dict.copy()
+        for var in self.dependent_vars:
+            component = new_model_dict[var]
+            if isinstance(component, sympy.Basic):
+                new_model_dict[var] = - component
+            else:
+                new_model_dict[var] = partial(_negated, component)
+        return self.__class__(
+            new_model_dict, connectivity_mapping=self.connectivity_mapping
+        )
 
     @property
     def shared_parameters(self):
-- 
2.43.0


From 87d468a6e16981828ce8ac13ab4ae1eb51d46b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 09/41] fix: models can be compared to anything

Lengths were compared by identity, and comparing to a non-model or to
another kind of model raised an AttributeError.
---
 symfit/core/models.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index a7e042e..956f94a 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -287,14 +287,19 @@ class BaseModel(Mapping):
         :param other: Instance of ``Model``.
         :return: bool
         """
-        if len(self) is not len(other):
+        if not isinstance(other, Mapping):
+            return NotImplemented
+        if len(self) != len(other):
             return False
         else:
             for var_1, var_2 in zip(self, other):
                 if var_1 != var_2:
                     return False
                 else:
-                    if not self[var_1].expand() == other[var_2].expand():
+                    exprs = self[var_1], other[var_2]
+                    if all(isinstance(expr, sympy.Basic) for expr in exprs):
+                        exprs = [expr.expand() for expr in exprs]
+                    if not exprs[0] == exprs[1]:
                         return False
             else:
                 return True
@@ -610,7 +615,10 @@ class BaseNumericalModel(BaseModel):
         self._connectivity_mapping = value
 
     def __eq__(self, other):
-        if self.connectivity_mapping != other.connectivity_mapping:
+        if not isinstance(other, BaseModel):
+            return NotImplemented
+        if (set(self) != set(other) or
+                self.connectivity_mapping != other.connectivity_mapping):
             return False
 
         for key, func in self.model_dict.items():
-- 
2.43.0


From 101b1a9f7165cb33066e02c90657cd65e15b8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 10/41] fix: unnamed components keep the order in which they
 were provided

They were sorted by memory address, and a repeated component was lost.
---
 symfit/core/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 956f94a..a07817e 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -139,7 +139,10 @@ class BaseModel(Mapping):
             # the object's ID (preappended with an underscore for it to be a
             # valid identifier) to surpress the DepricationWarnings raised when
             # instantiating a Variable without a name.
-            model = {Variable("_" + str(id(expr))): expr for expr in model}
+            # The index comes first, such that the (alphabetical) order of the
+            # components is the order in which they were provided.
+            model = {Variable("_{:06d}_{}".format(idx, id(expr))): expr
+                     for idx, expr in enumerate(model)}
         self._init_from_dict(model)
 
     @classmethod
-- 
2.43.0


From 8dd9e69e0f28709654d79ec9cc9c6f54a0cdbe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 11/41] fix: ModelOutput can be indexed by Variable, as
 documented in the README

---
 symfit/core/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index a07817e..6a70e98 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -86,6 +86,8 @@ class ModelOutput(tuple):
         return self.output_dict[var]
 
     def __getitem__(self, key):
+        if key in self.variables:
+            return self.output_dict[key]
         return self.output[key]
 
     def __repr__(self):
-- 
2.43.0


From 40e845a697bdcef36da8dc1c66f8290dcc58b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 12/41] fix: objectives with differently shaped data can be
 compared

It raised an UnboundLocalError, or broadcasted the one to the other.
---
 symfit/core/objectives.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 89255d6..555ad0a 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -158,14 +158,17 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
             return False
 
         # Check if the data is also equivalent
+        if set(self.data) != set(other.data):
+            return False
         for key, value in self.data.items():
+            if np.shape(other.data[key]) != np.shape(value):
+                return False
             try:
                 equal = np.allclose(other.data[key], value)
             except TypeError:
                 equal = other.data[key] == value
-            finally:
-                if not equal:
-                    return False
+            if not equal:
+                return False
         return True
 
     def _sanity_checking(self):
-- 
2.43.0


From 5ac71855bc04b725469ff6278ce316746ce1c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 13/41] fix: fixed Parameters always have a min and max
 attribute

Without them the Parameter could not be compared or printed.
---
 symfit/core/argument.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index ef0bba0..2557b90 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -119,9 +119,8 @@ class Parameter(Argument):
             if not self.fixed:
                 raise ValueError('The value of `min` should be less than or'
                                  ' equal to the value of `max`.')
-        else:
-            self.min = min
-            self.max = max
+        self.min = min
+        self.max = max
 
     def __eq__(self, other):
         """
-- 
2.43.0


From 10c698f00fa91ff5cb10caccf42e3b08b8d6c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 14/41] fix: check the bounds of every one of the parameters
 created

None in a sequence of bounds raised a TypeError, a scalar bound contradicting
a sequence was not noticed, and iterators were exhausted by the check.
---
 symfit/core/support.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index 58a4376..b921e3d 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -210,12 +210,6 @@ def parameters(names, **kwargs):
         else:
             sequences[attr] = kwargs.pop(attr)
 
-    if 'min' in sequences and 'max' in sequences:
-        for min, max in zip(sequences['min'], sequences['max']):
-            if min > max:
-                raise ValueError('The value of `min` should be less than or'
-                                 ' equal to the value of `max`.')
-
     params = symbols(names, cls=Parameter, seq=True, **kwargs)
     for key, values in sequences.items():
         try:
@@ -223,7 +217,7 @@ def parameters(names, **kwargs):
         except AssertionError:
             raise ValueError(
                 '`len` of keyword-argument `{}` does not match the number of '
-                '`Parameter`s created.'.format(attr)
+                '`Parameter`s created.'.format(key)
             )
         except TypeError:
             # Iterator do not have a `len` but are allowed.
@@ -231,6 +225,12 @@ def parameters(names, **kwargs):
         finally:
             for param, value in zip(params, values):
                 setattr(param, key, value)
+
+    for param in params:
+        if (not param.fixed and param.min is not None and
+                param.max is not None and param.min > param.max):
+            raise ValueError('The value of `min` should be less than or'
+                             ' equal to the value of `max`.')
     return params
 
 
-- 
2.43.0


From fcc2fec2f712a1cdb2e9353f4a6ddacd9396c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 15/41] fix: a constant sigma may be a zero dimensional array

In-place multiplication cannot change the shape of the array.
---
 symfit/core/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 3cbcadb..5100243 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -98,7 +98,7 @@ class TakesData(object):
                 if self.data[var] is not None and self.data[sigma] is None:
                     self.data[sigma] = np.ones(self.data[var].shape)
                 elif self.data[var] is not None:
-                    self.data[sigma] *= np.ones(self.data[var].shape)
+                    self.data[sigma] = self.data[sigma] * np.ones(self.data[var].shape)
 
         # If user gives a preference, use that. Otherwise, use True if at least one sigma is
         # given, False if no sigma is given.
-- 
2.43.0


From 40e52c60077bfea82a39553461e7c4da3773f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 16/41] fix: fixed parameters have no variance and use no
 degrees of freedom

The Hessian was inverted as if they were free, which inflated the standard
deviations of the other parameters.
---
 symfit/core/fit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 5100243..73c9ec2 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -243,7 +243,11 @@ class HasCovarianceMatrix(TakesData):
 
         try:
             # The squeezing to a matrix is required for MinimizeModel objectives
-            hess_inv = np.linalg.inv(np.atleast_2d(np.squeeze(hess)))
+            hess = np.atleast_2d(np.squeeze(hess))
+            # Fixed parameters do not vary at all.
+            free = [not param.fixed for param in self.model.params]
+            hess_inv = np.zeros(hess.shape)
+            hess_inv[np.ix_(free, free)] = np.linalg.inv(hess[np.ix_(free, free)])
         except np.linalg.LinAlgError:
             return None
 
@@ -254,7 +258,7 @@ class HasCovarianceMatrix(TakesData):
             rss = 2 * objective(**key2str(best_fit_params))
             # Degrees of freedom
             raw_dof = np.sum([np.product(shape) for shape in self.data_shapes[1]])
-            dof = raw_dof - len(self.model.params)
+            dof = raw_dof - len(self.model.free_params)
             if self.absolute_sigma:
                 # When interpreting as measurement error, we do not rescale.
                 s2 = 1
-- 
2.43.0


From e2533583f541634e5e240d869e0454333a6aabbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 17/41] fix: errorbars of InteractiveGuess span the requested
 percentiles

The mean was added to the percentiles, although these are absolute.
---
 symfit/contrib/interactive_guess/interactive_guess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 370d7c0..db6f8fb 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -345,8 +345,8 @@ class StrategynD:
         y_plot_error = np.array(y_plot_error)
 
         xs = np.column_stack((x_plot_data, x_plot_data))
-        yerr = y_plot_error + y_plot_data[:, np.newaxis]
-        y_segments = np.dstack((xs, yerr))
+        # The percentiles are not relative to the mean.
+        y_segments = np.dstack((xs, y_plot_error))
         plot_line, caps, error_lines = self.ig._plots[(indep_var, dep_var)]
         plot_line.set_data(x_plot_data, y_plot_data)
         error_lines[1].set_segments(y_segments)
-- 
2.43.0


From 162995895447e7e95b48565702c9601ae7904c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 18/41] fix: print all factors of a HadamardProduct, with
 parentheses

Third and later factors were lost, and sums in factors, bases and exponents
were printed without parentheses, so the wrong thing was evaluated.
---
 symfit/core/printing.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/symfit/core/printing.py b/symfit/core/printing.py
index 487284c..eaf92fc 100644
--- a/symfit/core/printing.py
+++ b/symfit/core/printing.py
@@ -41,8 +41,7 @@ def _print_Inverse(self, printer):
 Inverse._numpycode = _print_Inverse
 
 def _print_HadamardProduct(self, printer):
-    return "%s*%s" % (printer.doprint(self.args[0]),
-                      printer.doprint(self.args[1]))
+    return "*".join("(%s)" % printer.doprint(arg) for arg in self.args)
 HadamardProduct._numpycode = _print_HadamardProduct
 
 if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version) \
@@ -50,8 +49,8 @@ if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version)
     from sympy import HadamardPower
 
     def _print_HadamardPower(self, printer):
-        return "%s**%s" % (printer.doprint(self.args[0]),
-                          printer.doprint(self.args[1]))
+        return "(%s)**(%s)" % (printer.doprint(self.args[0]),
+                               printer.doprint(self.args[1]))
     HadamardPower._numpycode = _print_HadamardPower
 
 def _print_Idx(self, printer):
-- 
2.43.0


From 2d8bd80e9a9c3a66eb65d71dc353e8bbc218fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 19/41] fix: symbols can have the name of something in sympy

The printer sympified the name, so Parameter('gamma') or Variable('N') could
not be evaluated and Parameter('EulerGamma') was replaced by the constant.
---
 symfit/core/argument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index 2557b90..9dac540 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -73,7 +73,7 @@ class Argument(Symbol):
         return state
 
     def _sympystr(self, printer, *args, **kwargs):
-        return printer.doprint(self.name)
+        return self.name
 
     _lambdacode = _sympystr
     _numpycode = _sympystr
-- 
2.43.0


From 54dbb288dc15d95630664a9980a376f5eb834897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 20/41] fix: components of a model are real-valued functions

Differentiating a model in which a component occurs in e.g. an exponential
could fail, because sympy tried to split that component in a real and an
imaginary part.
---
 symfit/core/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 6a70e98..edb54ee 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -382,7 +382,8 @@ class BaseModel(Mapping):
                 # sort by vars first, then params, and alphabetically within
                 # each group
                 dependencies = sorted(dependencies, key=key)
-                vars2functions[symbol] = sympy.Function(symbol.name)(*dependencies)
+                func = sympy.Function(symbol.name, real=True)
+                vars2functions[symbol] = func(*dependencies)
         return vars2functions
 
     @cached_property
-- 
2.43.0


From a9eb5a1303f5cbff5bb69409bbcdb0a085e4a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 21/41] fix: derivatives of models with more than two levels of
 dependencies

The chain rule for {y: a*x, w: b*y, z: b*w} introduced the derivative of w to
y, which is not a component of the Jacobian, so it could not be evaluated.
---
 symfit/core/models.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index edb54ee..231642e 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1329,13 +1329,22 @@ def jacobian_from_model(model, as_functions=False):
     :return: :class:`~symfit.core.models.CallableModel` representing the Jacobian
         of ``model``.
     """
+    # Every component is a function of the symbols it ultimately depends on, so
+    # sympy's derivative of such a function to a param is the total derivative.
+    # (``vars_as_functions`` can not be used directly because it is nested, and
+    # for ``w(y(x, a), b)`` sympy would introduce the derivative of w to y.)
+    vars_as_functions = OrderedDict(
+        (var, func.func(*sorted(func.free_symbols, key=str)))
+        for var, func in model.vars_as_functions.items()
+    )
     # Inverse dict so we can turn functions back into vars in the end
-    functions_as_vars = dict((v, k) for k, v in model.vars_as_functions.items())
+    functions_as_vars = dict((v, k) for k, v in vars_as_functions.items())
     # Create the jacobian components. The `vars` here in the model_dict are
     # always of the type D(y, a), but the righthand-side might still contain
     # functions instead of vars depending on the value of `as_functions`.
     jac = {}
-    for func, expr in model.function_dict.items():
+    for var, func in vars_as_functions.items():
+        expr = model.model_dict[var].xreplace(vars_as_functions)
         for param in model.params:
             target = D(func, param)
             dfdp = expr.diff(param)
-- 
2.43.0


From de4dc18e6030a07528dbaccb3e99b7b9bdc345e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 22/41] fix: parameters and variables can have the name of a
 numpy function

---
 symfit/core/support.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index b921e3d..59b0bf1 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -14,6 +14,7 @@ import re
 import keyword
 
 import numpy as np
+import scipy.special
 from sympy.utilities.lambdify import lambdify
 import sympy
 
@@ -102,20 +103,26 @@ def sympy_to_py(func, args):
     func = func.xreplace(derivatives)
     args = [derivatives[var] if isinstance(var, sympy.Derivative) else var
             for var in args]
+    arg_names = [arg.name for arg in args]
+    # Arguments must not shadow the functions and constants used to evaluate func
+    shadows = {arg: sympy.Dummy(arg.name) for arg in args
+               if isinstance(arg, sympy.Symbol) and
+               (hasattr(np, arg.name) or hasattr(scipy.special, arg.name))}
+    func = func.xreplace(shadows)
+    args = [shadows.get(arg, arg) for arg in args]
     lambdafunc = lambdify(args, func, dummify=False)
     # Check if the names of the lambda function are what we expect
     signature = inspect.signature(lambdafunc)
     sig_parameters = OrderedDict(signature.parameters)
-    for arg, lambda_arg in zip(args, sig_parameters):
-        if arg.name != lambda_arg:
+    for arg_name, lambda_arg in zip(arg_names, sig_parameters):
+        if arg_name != lambda_arg:
             break
     else:  # Lambdifying succesful!
         return lambdafunc
 
-    # If we are here (very rare), then one of the lambda arg is still a Dummy.
+    # If we are here (rare), then one of the lambda arg is still a Dummy.
     # In this case we will manually handle the naming.
     lambda_names = sig_parameters.keys()
-    arg_names = [arg.name for arg in args]
     conversion = dict(zip(arg_names, lambda_names))
 
     # Wrap the lambda such that arg names are translated into the correct dummy
-- 
2.43.0


From f8aff27e27531d5e05bc58fa432e00653c6027e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 23/41] fix: LeastSquares can be evaluated per component

---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 555ad0a..086036c 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -320,7 +320,7 @@ class LeastSquares(HessianObjective):
                 chi2[index] += np.sum(
                     (dep_var_value - dep_data) ** 2 / sigma ** 2
                 )
-        chi2 = np.sum(chi2) if flatten_components else chi2
+        chi2 = np.sum(chi2) if flatten_components else np.array(chi2)
         return chi2 / 2
 
     def eval_jacobian(self, ordered_parameters=[], **parameters):
-- 
2.43.0


From 1df95055a5608fc70356950c1f2604c737fb2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 24/41] fix: models with an absolute value have a Hessian

The second derivative of Abs is a DiracDelta, which could not be printed, so
fits of such models raised a NameError.
---
 symfit/core/printing.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/symfit/core/printing.py b/symfit/core/printing.py
index eaf92fc..31dcd5e 100644
--- a/symfit/core/printing.py
+++ b/symfit/core/printing.py
@@ -11,7 +11,7 @@ slightly different behavior from the standard one.
 Users using both ``symfit`` and ``sympy`` should be aware of this.
 """
 import pkg_resources
-from sympy import HadamardProduct, MatPow, Idx, Inverse
+from sympy import DiracDelta, HadamardProduct, MatPow, Idx, Inverse
 from sympy.printing.codeprinter import CodePrinter
 
 ##########################################################
@@ -68,6 +68,15 @@ def _print_MatPow(self, printer):
         return printer._print_MatPow(self)
 MatPow._numpycode = _print_MatPow
 
+def _print_DiracDelta(self, printer):
+    """
+    Second derivatives of e.g. ``Abs`` contain ``DiracDelta``, which is zero
+    everywhere except on a set of measure zero.
+    """
+    return "%s(%s)" % (printer._module_format('numpy.zeros_like'),
+                       printer.doprint(self.args[0]))
+DiracDelta._numpycode = _print_DiracDelta
+
 #########################################################
 # End of monkeypatch                                    #
 #########################################################
\ No newline at end of file
-- 
2.43.0


From 4ee8a1ef134f609bb7ce5ae025e06bf9c186eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 25/41] fix: with_dependencies only adds the components which
 are needed

Components at the same level were pulled in depending on the hash seed, and
with them variables the model does not depend on.
---
 symfit/core/models.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 231642e..9e3f91c 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -238,20 +238,18 @@ class BaseModel(Mapping):
             # This is the case for BaseNumericalModel's
             connectivity_mapping = init_kwargs.get('connectivity_mapping',
                                                    model.connectivity_mapping)
-            for var in model.independent_vars:
-                if var in dependency_model:
-                    # Add this var and all its dependencies.
-                    # Walk over all possible dependencies of this
-                    # variable until we no longer have dependencies.
-                    for symbol in dependency_model.ordered_symbols:
-                        # Not everything in ordered_symbols is a key of
-                        # model, think e.g. parameters
-                        if symbol in dependency_model:
-                            if symbol not in model_dict:
-                                model_dict[symbol] = dependency_model[symbol]
-                                connectivity_mapping[symbol] = dependency_model.connectivity_mapping[symbol]
-                        if symbol == var:
-                            break
+            # Add the components this model depends on and all their dependencies,
+            # but not the components of dependency_model which are not needed.
+            needed = [var for var in model.independent_vars
+                      if var in dependency_model]
+            while needed:
+                symbol = needed.pop()
+                if symbol not in model_dict:
+                    model_dict[symbol] = dependency_model[symbol]
+                    connectivity_mapping[symbol] = dependency_model.connectivity_mapping[symbol]
+                    needed.extend(dependency for dependency
+                                  in dependency_model.connectivity_mapping[symbol]
+                                  if dependency in dependency_model)
             # connectivity_mapping in init_kwargs has been updated if it was
             # present, since python is pass by reference. If it wasn't present,
             # we are dealing with a type of model that will build its own
-- 
2.43.0


From 440558daa58e0e8119f3b3cefa16b2a7bc6409ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 26/41] fix: with_dependencies does not alter the mapping of
 the user

---
 symfit/core/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 9e3f91c..d5c31af 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -230,6 +230,9 @@ class BaseModel(Mapping):
             init method of this class.
         :return: A stand-alone :class:`~symfit.core.models.BaseModel` subclass.
         """
+        if init_kwargs.get('connectivity_mapping') is not None:
+            # This will be added to, so don't use the mapping of the user.
+            init_kwargs['connectivity_mapping'] = init_kwargs['connectivity_mapping'].copy()
         model = cls(model_expr, **init_kwargs)  # Initiate model instance.
         if any(var in dependency_model for var in model.independent_vars):
             # This model depends on the output of the dependency_model,
-- 
2.43.0


From b375c05038faaabdc8cf86b11a95552008e52ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 27/41] fix: gradient of LeastSquares can be complex for some
 components only

TrustConstr takes complex steps in the gradient of a GradientModel, which
failed when the first component does not depend on the parameter.
---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 086036c..19fa5fd 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -348,7 +348,7 @@ class LeastSquares(HessianObjective):
                 sigma = self.sigma_data[sigma_var]
                 pre_sum = jac_comp * ((y - f) / sigma**2)[np.newaxis, ...]
                 axes = tuple(range(1, len(pre_sum.shape)))
-                result -= np.sum(pre_sum, axis=axes, keepdims=False)
+                result = result - np.sum(pre_sum, axis=axes, keepdims=False)
         return np.atleast_1d(np.squeeze(np.array(result)))
 
     def eval_hessian(self, ordered_parameters=[], **parameters):
-- 
2.43.0


From 0d2b9441026dde47de1d080d651f7725b66d192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 28/41] fix: minimizers accept <= constraints directly

ScipyConstrainedMinimize raised a KeyError when given a Le relation.
---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 6b90829..b85fbd2 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -482,10 +482,10 @@ class ScipyConstrainedMinimize(ScipyMinimize, ConstrainedMinimizer):
                 constraint_type = constraint.constraint_type
                 constraint = MinimizeModel(constraint, data=self.objective.data)
             elif isinstance(constraint, sympy.Rel):
-                constraint_type = constraint.__class__
                 constraint = self.objective.model.__class__.as_constraint(
                     constraint, self.objective.model
                 )
+                constraint_type = constraint.constraint_type
                 constraint = MinimizeModel(constraint, data=self.objective.data)
             else:
                 raise TypeError('Unknown type for a constraint.')
-- 
2.43.0


From 11520e4b5eaafec53d4cc1c2d3126bc53f635c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 29/41] fix: TrustConstr can minimise objectives without a
 gradient

---
 symfit/core/minimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index b85fbd2..b013155 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -567,7 +567,8 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             jacobian = None
             hessian = 'cs'
         elif self.jacobian is None and self.hessian is None:
-            jacobian = 'cs'
+            # scipy compares the function values, so they have to be real.
+            jacobian = '3-point'
             hessian = soBFGS(exception_strategy='damp_update')
         else:
             jacobian = None
-- 
2.43.0


From e6d99f32bc31d0d9b8dcbb405eec4280be6ca27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 30/41] fix: pickled fit results keep their minimizer complete

---
 symfit/core/fit_results.py | 30 ------------------------------
 1 file changed, 30 deletions(-)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index ad41ecb..009a516 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -189,36 +189,6 @@ class FitResults(object):
                 return False
         else: return True
 
-    def __getstate__(self):
-        state = self.__dict__.copy()
-
-        if hasattr(state['minimizer'], 'minimizers'):  # ChainedMinimizer
-            # ToDo: when py27 support is droppend at least this can be replaced
-            #       with just pickling the instance, perhaps also for other
-            #       minimizers.
-            minimizer_cls = [type(state['minimizer'])]
-            minimizer_cls.extend(
-                [type(minimizer) for minimizer in state['minimizer'].minimizers]
-            )
-        else:
-            minimizer_cls = type(state['minimizer'])
-        state['minimizer'] = (minimizer_cls,
-                              state['minimizer'].objective,
-                              state['minimizer'].parameters)
-        return state
-
-    def __setstate__(self, state):
-        min_class, objective, parameters = state['minimizer']
-        try:
-            # If min_class is iterable, initiate a ChainedMinimizer.
-            minimizers = [cls(objective, parameters) for cls in min_class[1:]]
-        except TypeError:
-            state['minimizer'] = min_class(objective, parameters)
-        else:
-            state['minimizer'] = min_class[0](objective, parameters,
-                                              minimizers=minimizers)
-        self.__dict__.update(state)
-
     def _gof_qualifiers(self):
         """
         Based on the objective used, we can infer certain goodness of fit
-- 
2.43.0


From 77fa5cdbf4de53862b0fa8436136fcba65be9c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 31/41] fix: ODE models take finite differences with steps the
 integrator can resolve

---
 symfit/core/models.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index d5c31af..57bd002 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1273,6 +1273,14 @@ class ODEModel(BaseGradientModel):
             # and so is t_like with t_initial inserted at the right position).
             return ans[:, t_total != t_initial][:, requested]
 
+    def finite_difference(self, *args, dx=1e-3, **kwargs):
+        """
+        See :meth:`BaseGradientModel.finite_difference`. The solution of an ODE
+        is only known up to the tolerances of the integrator, so the steps must
+        be much larger than those for the differences to be meaningful.
+        """
+        return super(ODEModel, self).finite_difference(*args, dx=dx, **kwargs)
+
     def __call__(self, *args, **kwargs):
         """
         Evaluate the model for a certain value of the independent vars and parameters.
-- 
2.43.0


From eb72bb5c3cd1839f26fa55ef49932ef1a6c4def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 32/41] fix: minimizers bind values correctly to parameters
 provided in any order

---
 symfit/core/minimizers.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index b013155..b6cf8c7 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -32,13 +32,14 @@ class BaseMinimizer(object):
         :param objective: Objective function to be used.
         :param parameters: List of :class:`~symfit.core.argument.Parameter` instances
         """
-        self.parameters = parameters
+        # Objectives expect the values of the parameters in alphabetical order.
+        self.parameters = sorted(parameters, key=lambda p: p.name)
         self._fixed_params = [p for p in parameters if p.fixed]
         self.objective = self._baseobjective_from_callable(objective)
 
         # Mapping which we use to track the original, to be used upon pickling
         self._pickle_kwargs = {'parameters': parameters, 'objective': objective}
-        self.params = [p for p in parameters if not p.fixed]
+        self.params = [p for p in self.parameters if not p.fixed]
 
     def _baseobjective_from_callable(self, func, objective_type=MinimizeModel):
         """
@@ -135,6 +136,19 @@ class GradientMinimizer(BaseMinimizer):
         else:
             self.wrapped_jacobian = None
 
+    def _free_indices(self, func):
+        """
+        :param func: Jacobian or Hessian function.
+        :return: Indices of the free parameters in the output of func.
+        """
+        if isinstance(func, BaseObjective):
+            # Provided by the user as a callable, which follows the order in
+            # which the parameters were provided.
+            parameters = list(self._pickle_kwargs['parameters'])
+        else:
+            parameters = self.parameters
+        return [parameters.index(p) for p in self.params]
+
     def resize_jac(self, func):
         """
         Removes values with identical indices to fixed parameters from the
@@ -151,8 +165,7 @@ class GradientMinimizer(BaseMinimizer):
             out = func(*args, **kwargs)
             # Make one dimensional, corresponding to a scalar function.
             out = np.atleast_1d(np.squeeze(out))
-            mask = [p not in self._fixed_params for p in self.parameters]
-            return out[mask]
+            return out[self._free_indices(func)]
         return resized
 
 
@@ -186,8 +199,8 @@ class HessianMinimizer(GradientMinimizer):
             out = func(*args, **kwargs)
             # Make two dimensional, corresponding to a scalar function.
             out = np.atleast_2d(np.squeeze(out))
-            mask = [p not in self._fixed_params for p in self.parameters]
-            return out[np.ix_(mask, mask)]
+            free = self._free_indices(func)
+            return out[np.ix_(free, free)]
         return resized
 
 
@@ -775,8 +788,7 @@ class MINPACK(ScipyBoundedMinimizer, GradientMinimizer):
         def resized(*args, **kwargs):
             out = func(*args, **kwargs)
             out = np.atleast_2d(out)
-            mask = [p not in self._fixed_params for p in self.parameters]
-            return out[:, mask]
+            return out[:, self._free_indices(func)]
         return resized
 
     @property
-- 
2.43.0


From cf4e7def6569414728724ca0639106494beceeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 33/41] fix: unnamed components of numerical models keep their
 order

---
 symfit/core/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 57bd002..d5226ba 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -582,7 +582,11 @@ class BaseNumericalModel(BaseModel):
                 except TypeError:
                     model = [model]  # make model iterable
 
-                model = {Variable(): expr for expr in model}
+                # Alphabetically, such that the (alphabetical) order of the
+                # components is the order in which they were provided.
+                model = list(model)
+                variables = sorted((Variable() for _ in model), key=str)
+                model = dict(zip(variables, model))
             warnings.warn(DeprecationWarning(
                 '`independent_vars` and `params` have been deprecated.'
                 ' Use `connectivity_mapping` instead.'
-- 
2.43.0


From ded5203dd4a8c4688f30cd33bebf781e594e6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 34/41] fix: Min and Max broadcast their arguments

---
 symfit/core/printing.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/symfit/core/printing.py b/symfit/core/printing.py
index 31dcd5e..a495966 100644
--- a/symfit/core/printing.py
+++ b/symfit/core/printing.py
@@ -11,7 +11,7 @@ slightly different behavior from the standard one.
 Users using both ``symfit`` and ``sympy`` should be aware of this.
 """
 import pkg_resources
-from sympy import DiracDelta, HadamardProduct, MatPow, Idx, Inverse
+from sympy import DiracDelta, HadamardProduct, MatPow, Max, Min, Idx, Inverse
 from sympy.printing.codeprinter import CodePrinter
 
 ##########################################################
@@ -77,6 +77,22 @@ def _print_DiracDelta(self, printer):
                        printer.doprint(self.args[0]))
 DiracDelta._numpycode = _print_DiracDelta
 
+def _print_nested(function):
+    """
+    Print as nested calls of a binary ``numpy`` function, such that the arguments
+    are broadcast. ``numpy.amin``/``numpy.amax`` only work on equal shapes.
+    """
+    def _print(self, printer):
+        args = [printer.doprint(arg) for arg in self.args]
+        name = printer._module_format(function)
+        code = args[0]
+        for arg in args[1:]:
+            code = "%s(%s, %s)" % (name, code, arg)
+        return code
+    return _print
+Max._numpycode = _print_nested('numpy.maximum')
+Min._numpycode = _print_nested('numpy.minimum')
+
 #########################################################
 # End of monkeypatch                                    #
 #########################################################
\ No newline at end of file
-- 
2.43.0


From d7517aac2e13388b258f47e0dbdf1d36e3684d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 35/41] fix: sliders of interactive guesses start at negative
 initial values

---
 symfit/contrib/interactive_guess/interactive_guess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index db6f8fb..44b86a4 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -172,11 +172,11 @@ class InteractiveGuess(TakesData):
                                    facecolor=axbg, label=param)
             val = param.value
             if not hasattr(param, 'min') or param.min is None:
-                minimum = 0
+                minimum = min(0, 2 * val)
             else:
                 minimum = param.min
             if not hasattr(param, 'max') or param.max is None:
-                maximum = 2 * val
+                maximum = max(0, 2 * val)
             else:
                 maximum = param.max
 
-- 
2.43.0


From 7e06c7676fe143f136c65c9b83627fe70716fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 36/41] fix: interactive guesses draw components which are
 constant in x

---
 .../contrib/interactive_guess/interactive_guess.py   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 44b86a4..09b9303 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -252,8 +252,9 @@ class Strategy2D:
         Plots the model proposed for the projection proj on ax.
         """
         x, y = proj
-        y_vals = getattr(self.ig._eval_model(), y.name)
         x_vals = self.ig._x_points[x]
+        y_vals = np.broadcast_to(getattr(self.ig._eval_model(), y.name),
+                                 x_vals.shape)
         plot, = ax.plot(x_vals, y_vals, c='red')
         return plot
 
@@ -263,8 +264,9 @@ class Strategy2D:
         """
         evaluated_model = self.ig._eval_model()
         plot = self.ig._plots[(indep_var, dep_var)]
-        y_vals = getattr(evaluated_model, dep_var.name)
         x_vals = self.ig._x_points[indep_var]
+        y_vals = np.broadcast_to(getattr(evaluated_model, dep_var.name),
+                                 x_vals.shape)
         plot.set_data(x_vals, y_vals)
 
 
@@ -308,8 +310,9 @@ class StrategynD:
         """
         x, y = proj
         evaluated_model = self.ig._eval_model()
-        y_vals = getattr(evaluated_model, y.name)
         x_vals = self.ig._x_grid[x]
+        y_vals = np.broadcast_to(getattr(evaluated_model, y.name),
+                                 x_vals.shape)
         plot = ax.errorbar(x_vals, y_vals, xerr=0, yerr=0, c='red')
         return plot
 
@@ -318,8 +321,9 @@ class StrategynD:
         Updates the plot of the proposed model.
         """
         evaluated_model = self.ig._eval_model()
-        y_vals = getattr(evaluated_model, dep_var.name)
         x_vals = self.ig._x_grid[indep_var]
+        y_vals = np.broadcast_to(getattr(evaluated_model, dep_var.name),
+                                 x_vals.shape)
 
         x_plot_data = []
         y_plot_data = []
-- 
2.43.0


From d5c1630f8f2b5f1233d6fbab5874d4243f85252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 37/41] fix: parameters() accepts bounds out of order when told
 per parameter that they are fixed

---
 symfit/core/support.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index 59b0bf1..b0c61e4 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -9,6 +9,7 @@ designed for users.
 """
 from __future__ import print_function
 from collections import OrderedDict
+import itertools
 import warnings
 import re
 import keyword
@@ -216,6 +217,12 @@ def parameters(names, **kwargs):
             pass
         else:
             sequences[attr] = kwargs.pop(attr)
+    if 'fixed' in sequences:
+        # Which parameters are fixed is not known yet when they are created, so
+        # the bounds can only be judged afterwards.
+        for attr in ['min', 'max']:
+            if attr in kwargs:
+                sequences[attr] = itertools.repeat(kwargs.pop(attr))
 
     params = symbols(names, cls=Parameter, seq=True, **kwargs)
     for key, values in sequences.items():
-- 
2.43.0


From 6fce5ab40863ad247492e1abd8e9710a7d9c5c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 38/41] fix: ODE models only contain their dependent variables

---
 symfit/contrib/interactive_guess/interactive_guess.py | 2 +-
 symfit/core/models.py                                 | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 09b9303..a94070c 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -137,7 +137,7 @@ class InteractiveGuess(TakesData):
 
         for plotnr, proj in enumerate(self._projections, 1):
             x, y = proj
-            if Derivative(y, x) in self.model:
+            if Derivative(y, x) in self.model.model_dict:
                 title_format = '$\\frac{{\\partial {dependant}}}{{\\partial {independant}}} = {expression}$'
             else:
                 title_format = '${dependant}({independant}) = {expression}$'
diff --git a/symfit/core/models.py b/symfit/core/models.py
index d5226ba..7b58bfe 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1112,6 +1112,7 @@ class ODEModel(BaseGradientModel):
         for d, f in self.model_dict.items():
             if dependent_var == self.dependent_derivatives[d]:
                 return f
+        raise KeyError(dependent_var)
 
     def __iter__(self):
         """
-- 
2.43.0


From 8d96a91995728a2e5c6fbaf6b13c457a028f0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 39/41] fix: constraints on the parameters of an ODE model can
 be used in fits

---
 symfit/core/fit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 73c9ec2..63dd7d2 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -18,7 +18,9 @@ from .objectives import (
     LeastSquares, BaseObjective, MinimizeModel, VectorLeastSquares,
     LogLikelihood, HessianObjectiveJacApprox
 )
-from .models import BaseModel, Model, BaseNumericalModel, CallableModel
+from .models import (
+    BaseModel, Model, BaseNumericalModel, CallableModel, ODEModel
+)
 
 import inspect
 
@@ -550,7 +552,7 @@ class Fit(HasCovarianceMatrix):
             if hasattr(constraint, 'constraint_type'):
                 con_models.append(constraint)
             else:
-                if isinstance(model, BaseNumericalModel):
+                if isinstance(model, (BaseNumericalModel, ODEModel)):
                     # Numerical models need to be provided with a connectivity
                     # mapping, so we cannot use the type of model. Instead,
                     # use the bare minimum for an analytical model for the
-- 
2.43.0


From dd1b82e6f57cabad0d751e5ed299ace9d17f9776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 40/41] fix: negated ODE models keep the settings of the
 integrator

---
 symfit/core/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 7b58bfe..0fe3e0f 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1128,7 +1128,8 @@ class ODEModel(BaseGradientModel):
         new_model_dict = self.model_dict.copy()
         for key in new_model_dict:
             new_model_dict[key] *= -1
-        return self.__class__(new_model_dict, initial=self.initial)
+        return self.__class__(new_model_dict, initial=self.initial,
+                              **self.integrator_kwargs)
 
     @cached_property
     def _ncomponents(self):
-- 
2.43.0


From 00b1512e947fa72a49dbf5db01c6710e64d25afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 41/41] fix: objectives whose small data differ are not equal

---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 19fa5fd..7011c7c 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -164,7 +164,7 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
             if np.shape(other.data[key]) != np.shape(value):
                 return False
             try:
-                equal = np.allclose(other.data[key], value)
+                equal = np.allclose(other.data[key], value, atol=0)
             except TypeError:
                 equal = other.data[key] == value
             if not equal:
-- 
2.43.0

