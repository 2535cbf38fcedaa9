From 9f42b77bea6bc4150e6f83750aec094ac9b72221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:54 +0000
Subject: [PATCH 01/32] fix: do not leave a half-switched backend behind when
 set_backend fails

The active backend was recorded and modules were rebound one after the other
before all of them were known to be importable. A failure left some modules on
the new backend and made a retry a silent no-op.
---
 gwpopulation/backend.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 3dd127a..56bb1fe 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -142,15 +142,18 @@ def set_backend(backend="numpy"):
 
     xp, scs = _load_numpy_and_scipy(backend)
 
-    __backend__ = backend
+    # everything that can fail is done before anything is changed
     all_with_xp, all_with_scs, others = modules_to_update()
-    for module in all_with_xp:
-        setattr(import_module(module), "xp", xp)
-    for module in all_with_scs:
-        setattr(import_module(module), "scs", scs)
-    for module, func in others.items():
-        setattr(
+    updates = [(import_module(module), "xp", xp) for module in all_with_xp]
+    updates += [(import_module(module), "scs", scs) for module in all_with_scs]
+    updates += [
+        (
             import_module(module),
             func.split(".")[-1],
             _load_arbitrary(func, backend),
         )
+        for module, func in others.items()
+    ]
+    for module, name, value in updates:
+        setattr(module, name, value)
+    __backend__ = backend
-- 
2.43.0


From fbb3c1da69f844f837339290628826d2a9beb5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:54 +0000
Subject: [PATCH 02/32] fix: update every registered scipy function of a module

Only the last function a module registers in gwpopulation.other was kept, the
others stayed on the previous backend.
---
 gwpopulation/backend.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/backend.py b/gwpopulation/backend.py
index 56bb1fe..51e7595 100644
--- a/gwpopulation/backend.py
+++ b/gwpopulation/backend.py
@@ -59,7 +59,7 @@ def modules_to_update():
         (:code:`scipy.special`).
     others: dict
         Dictionary of all modules that need to be updated with arbitrary functions
-        from :code:`scipy`.
+        from :code:`scipy` and, for each of them, the list of these functions.
     """
     import sys
 
@@ -72,7 +72,9 @@ def modules_to_update():
     other_entries = [
         module.value.split(":") for module in entry_points(group="gwpopulation.other")
     ]
-    others = {key: value for key, value in other_entries}
+    others = dict()
+    for key, value in other_entries:
+        others.setdefault(key, list()).append(value)
     return all_with_xp, all_with_scs, others
 
 
@@ -152,7 +154,8 @@ def set_backend(backend="numpy"):
             func.split(".")[-1],
             _load_arbitrary(func, backend),
         )
-        for module, func in others.items()
+        for module, funcs in others.items()
+        for func in funcs
     ]
     for module, name, value in updates:
         setattr(module, name, value)
-- 
2.43.0


From ecd2f95a3e97f7ffdfed09f3fd288a3747fb419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 03/32] fix: do not keep half of the splines when setting them
 up fails

A failure after the normalization spline was stored made every later call of
the model fail, as the data splines were never set up.
---
 gwpopulation/models/interped.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 9a93929..46a514a 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -119,11 +119,14 @@ class InterpolatedNoBaseModelIdentical:
         else:
             func = xp.array
         kwargs = dict(kind=self.kind, backend=xp)
-        self._norm_spline = _setup_interpolant(func(nodes), func(self._xs), **kwargs)
-        self._data_spline = {
+        norm_spline = _setup_interpolant(func(nodes), func(self._xs), **kwargs)
+        data_spline = {
             param: _setup_interpolant(func(nodes), func(values[param]), **kwargs)
             for param in self.parameters
         }
+        # only keep complete splines
+        self._norm_spline = norm_spline
+        self._data_spline = data_spline
 
     def p_x_unnormed(self, dataset, parameter, x_splines, f_splines, **kwargs):
         """
-- 
2.43.0


From aac184561cfa51b94e72fc50d56fe6419428890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 04/32] fix: keep the model configuration when the number of
 nodes is inferred

Calling __init__ with only the number of nodes reset the range, interpolation
order and regularization to their defaults, and failed for the base class.
---
 gwpopulation/models/interped.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 46a514a..0fdcaa9 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -76,20 +76,23 @@ class InterpolatedNoBaseModelIdentical:
         log_nodes=False,
         regularize=False,
     ):
-        self.nodes = nodes
-        self._norm_spline = None
-        self._data_spline = dict()
         self.kind = kind
-        self._xs = xp.linspace(minimum, maximum, 10 * self.nodes)
         self.parameters = parameters
         self.min = minimum
         self.max = maximum
         self.log_nodes = log_nodes
 
         self.base = self.parameters[0].strip("_1")
-        self.xkeys = [f"{self.base}{ii}" for ii in range(self.nodes)]
-        self.fkeys = [f"f{self.base}{ii}" for ii in range(self.nodes)]
         self.regularize = regularize
+        self._set_nodes(nodes)
+
+    def _set_nodes(self, nodes):
+        self._norm_spline = None
+        self._data_spline = dict()
+        self._xs = xp.linspace(self.min, self.max, 10 * nodes)
+        self.xkeys = [f"{self.base}{ii}" for ii in range(nodes)]
+        self.fkeys = [f"f{self.base}{ii}" for ii in range(nodes)]
+        self.nodes = nodes
 
     def __call__(self, dataset, **kwargs):
         """
@@ -258,4 +261,4 @@ class InterpolatedNoBaseModelIdentical:
             print(
                 f"Different number of nodes! Using {nodes} nodes instead of {self.nodes}"
             )
-            self.__init__(nodes=nodes)
+            self._set_nodes(nodes)
-- 
2.43.0


From b9a4a525c9bb41b80f81b4c55ea4a2c2addbe9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 05/32] fix: do not change array inputs of
 mu_var_max_to_alpha_beta_max

---
 gwpopulation/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/conversions.py b/gwpopulation/conversions.py
index f2afbcf..f4ecf25 100644
--- a/gwpopulation/conversions.py
+++ b/gwpopulation/conversions.py
@@ -128,8 +128,8 @@ def mu_var_max_to_alpha_beta_max(mu, var, amax):
     amax: float
         The maximum spin (:math:`a_\max`)
     """
-    mu /= amax
-    var /= amax**2
+    mu = mu / amax
+    var = var / amax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta, amax
-- 
2.43.0


From 88d8ded18281274571bf9459e53e921b2a29c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 06/32] fix: do not remove vt from the dictionary passed to
 GridVT

---
 gwpopulation/vt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 1e17d80..2b72a12 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -85,6 +85,7 @@ class GridVT(_BaseVT):
     """
 
     def __init__(self, model, data):
+        data = dict(data)
         self.vts = xp.asarray(data.pop("vt"))
         super(GridVT, self).__init__(model=model, data=data)
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
-- 
2.43.0


From d020c1f65b70728f63454f05029313b5daaf6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 07/32] fix: allow JittedLikelihood to be copied and unpickled

Looking up special methods before _likelihood is restored recursed forever.
---
 gwpopulation/experimental/jax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gwpopulation/experimental/jax.py b/gwpopulation/experimental/jax.py
index 0bf670d..5135f71 100644
--- a/gwpopulation/experimental/jax.py
+++ b/gwpopulation/experimental/jax.py
@@ -60,6 +60,9 @@ class JittedLikelihood(Likelihood):
         super().__init__()
 
     def __getattr__(self, name):
+        # not set yet when a copy or pickle is being restored
+        if name == "_likelihood":
+            raise AttributeError(name)
         return getattr(self._likelihood, name)
 
     def log_likelihood_ratio(self, parameters):
-- 
2.43.0


From 8ba1773669b0cbdf4610ba8769183671fa31b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 08/32] fix: do not change the variance returned by the
 selection function

---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 7451ef8..d09e123 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -266,7 +266,7 @@ class HyperparameterLikelihood(Likelihood):
         selection, variance = self._selection_function_with_uncertainty(
             parameters=parameters
         )
-        variance /= selection**2
+        variance = variance / selection**2
         selection_variance = variance * self.n_posteriors**2
         sample["selection"] = selection
         sample["selection_variance"] = variance
-- 
2.43.0


From 913e093ca60f9afd939dce06d270731395177adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 09/32] fix: compare the variance with the squared maximum
 uncertainty

maximum_uncertainty is documented as the maximum uncertainty in the natural log
likelihood; its square was computed but never used.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index d09e123..6f990b7 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -180,7 +180,7 @@ class HyperparameterLikelihood(Likelihood):
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
         ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
-        ln_l -= xp.nan_to_num(xp.inf * (self.maximum_uncertainty < variance), nan=0)
+        ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
         return to_number(xp.nan_to_num(ln_l), float)
 
     def noise_log_likelihood(self):
-- 
2.43.0


From c080bb5b0370a4c71e6b9b7d5edfd38f5f44a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 10/32] fix: do not depend on the order of the columns in
 detector_frame_to_source_frame

With redshift given, detector-frame columns before it raised a KeyError; with
both distance and redshift given, the redshift used depended on the order.
---
 gwpopulation/experimental/cosmo_models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gwpopulation/experimental/cosmo_models.py b/gwpopulation/experimental/cosmo_models.py
index 14b346a..2e7b5fc 100644
--- a/gwpopulation/experimental/cosmo_models.py
+++ b/gwpopulation/experimental/cosmo_models.py
@@ -107,6 +107,9 @@ class CosmoMixin:
         else:
             jacobian = xp.ones(data["redshift"].shape)
 
+        if "redshift" in data:
+            samples["redshift"] = data["redshift"]
+
         for key in list(data.keys()):
             if key.endswith("_detector"):
                 samples[key[:-9]] = data[key] / (1 + samples["redshift"])
-- 
2.43.0


From d8f20059afbd3b12b425966349fdddb48e2620ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 11/32] fix: do not extend the variable_names of the primary
 mass model in place

---
 gwpopulation/models/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 826d827..5cf6c9b 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -551,7 +551,7 @@ class BaseSmoothedMassDistribution:
             "variable_names",
             inspect.getfullargspec(self.primary_model).args[1:],
         )
-        vars += ["beta", "delta_m"]
+        vars = list(vars) + ["beta", "delta_m"]
         vars = set(vars).difference(self.kwargs.keys())
         return vars
 
-- 
2.43.0


From 42daada98c26b38aaa9d24362414f5a7dffc51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 12/32] fix: use the documented covariance matrix in
 unnormalized_2d_gaussian

The determinant of the covariance matrix has a factor of 1 - rho^2.
---
 gwpopulation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/utils.py b/gwpopulation/utils.py
index b8a909a..790dfd4 100644
--- a/gwpopulation/utils.py
+++ b/gwpopulation/utils.py
@@ -217,7 +217,7 @@ def unnormalized_2d_gaussian(xx, yy, mu_x, mu_y, sigma_x, sigma_y, covariance):
     prob: array-like
         The unnormalized probability distribution (:math:`p(x)`)
     """
-    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance)
+    determinant = sigma_x**2 * sigma_y**2 * (1 - covariance**2)
     residual_x = (mu_x - xx) * sigma_y
     residual_y = (mu_y - yy) * sigma_x
     prob = xp.exp(
-- 
2.43.0


From 1e6a563b6eecff0f60831f3bf27bf25b1fd2c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:22 +0000
Subject: [PATCH 13/32] fix: rebuild the mass ratio normalisation table when
 the data change

The table built for the first data set was used for every later one with the
same shape, e.g., with the first cosmology's source-frame masses when used with
CosmoModel.
---
 gwpopulation/models/mass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 5cf6c9b..5bde136 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -621,7 +621,7 @@ class BaseSmoothedMassDistribution:
         )
 
         try:
-            if self.cache:
+            if self.cache and self._q_masses is dataset["mass_1"]:
                 p_q /= self.norm_p_q(beta=beta, mmin=mmin, delta_m=delta_m)
             else:
                 self._cache_q_norms(dataset["mass_1"])
@@ -652,9 +652,11 @@ class BaseSmoothedMassDistribution:
         """
         from .interped import _setup_interpolant
 
+        self._q_masses = None
         self._q_interpolant = _setup_interpolant(
             self.m1s, masses, kind="linear", backend=xp
         )
+        self._q_masses = masses
 
     @staticmethod
     def smoothing(masses, mmin, mmax, delta_m):
-- 
2.43.0


From f9cf3f8c1d28238a414f052e087c12e553e19b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:23 +0000
Subject: [PATCH 14/32] fix: rebuild the splines when the data change

The data splines built for the first data set were used for every later one
with the same shape.
---
 gwpopulation/models/interped.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 0fdcaa9..57e5fd5 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -89,6 +89,8 @@ class InterpolatedNoBaseModelIdentical:
     def _set_nodes(self, nodes):
         self._norm_spline = None
         self._data_spline = dict()
+        self._spline_nodes = None
+        self._spline_data = dict()
         self._xs = xp.linspace(self.min, self.max, 10 * nodes)
         self.xkeys = [f"{self.base}{ii}" for ii in range(nodes)]
         self.fkeys = [f"f{self.base}{ii}" for ii in range(nodes)]
@@ -130,6 +132,7 @@ class InterpolatedNoBaseModelIdentical:
         # only keep complete splines
         self._norm_spline = norm_spline
         self._data_spline = data_spline
+        self._spline_data = {param: values[param] for param in self.parameters}
 
     def p_x_unnormed(self, dataset, parameter, x_splines, f_splines, **kwargs):
         """
@@ -153,8 +156,12 @@ class InterpolatedNoBaseModelIdentical:
             The unnormalized likelihood of the dataset given the model at the
             provided points
         """
-        if self._norm_spline is None:
-            self.setup_interpolant(x_splines, dataset)
+        if self._norm_spline is None or any(
+            dataset[param] is not self._spline_data[param] for param in self.parameters
+        ):
+            if self._spline_nodes is None:
+                self._spline_nodes = to_numpy(x_splines)
+            self.setup_interpolant(self._spline_nodes, dataset)
 
         perturbation = self._data_spline[parameter](y=f_splines)
 
-- 
2.43.0


From 64a24a8bee3b45ed3fd82b992a3b93e859d35827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:23 +0000
Subject: [PATCH 15/32] fix: keep tracers out of interpolation tables built
 during compilation

A likelihood that was first evaluated while being compiled could not be
compiled again, e.g., for a parameter of another type.
---
 gwpopulation/models/interped.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index 57e5fd5..af24d24 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -1,3 +1,4 @@
+from contextlib import nullcontext
 from functools import partial
 
 import numpy as np
@@ -12,6 +13,18 @@ __all__ = [
 ]
 
 
+def _concrete(backend):
+    """
+    Context manager to avoid keeping :code:`jax` tracers in tables that are set up
+    while a function is being compiled.
+    """
+    if "jax" in backend.__name__:
+        from jax import ensure_compile_time_eval
+
+        return ensure_compile_time_eval()
+    return nullcontext()
+
+
 def _setup_interpolant(nodes, values, kind="cubic", backend=None):
     """
     Create a caching spline interpolant.
@@ -37,9 +50,12 @@ def _setup_interpolant(nodes, values, kind="cubic", backend=None):
         backend = xp
 
     nodes = to_numpy(nodes)
-    interpolant = CachingInterpolant(nodes, nodes, kind=kind, backend=backend)
-    interpolant.conversion = backend.array(interpolant.conversion)
-    interpolant = partial(interpolant, backend.array(values))
+    with _concrete(backend):
+        interpolant = CachingInterpolant(nodes, nodes, kind=kind, backend=backend)
+        interpolant.conversion = backend.array(interpolant.conversion)
+        values = backend.array(values)
+        interpolant._construct_cache(values)
+    interpolant = partial(interpolant, values)
     return interpolant
 
 
@@ -124,11 +140,12 @@ class InterpolatedNoBaseModelIdentical:
         else:
             func = xp.array
         kwargs = dict(kind=self.kind, backend=xp)
-        norm_spline = _setup_interpolant(func(nodes), func(self._xs), **kwargs)
-        data_spline = {
-            param: _setup_interpolant(func(nodes), func(values[param]), **kwargs)
-            for param in self.parameters
-        }
+        with _concrete(xp):
+            norm_spline = _setup_interpolant(func(nodes), func(self._xs), **kwargs)
+            data_spline = {
+                param: _setup_interpolant(func(nodes), func(values[param]), **kwargs)
+                for param in self.parameters
+            }
         # only keep complete splines
         self._norm_spline = norm_spline
         self._data_spline = data_spline
-- 
2.43.0


From ffa984efc01c8dd56e71866a4bf4d77abe03ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:23 +0000
Subject: [PATCH 16/32] fix: leave interpolation tables out of copied and
 pickled models

They contain modules, so that a model could not be copied or pickled after its
first evaluation, and tracers after a compiled one.
---
 gwpopulation/models/interped.py | 15 +++++++++++++++
 gwpopulation/models/mass.py     | 10 +++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index af24d24..fff8dff 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -59,6 +59,16 @@ def _setup_interpolant(nodes, values, kind="cubic", backend=None):
     return interpolant
 
 
+def _state_without(obj, *names):
+    """
+    The state of an object to copy or pickle without tables that are set up again
+    when they are needed. These may contain modules and :code:`jax` tracers.
+    """
+    return {
+        key: None if key in names else value for key, value in obj.__dict__.items()
+    }
+
+
 class InterpolatedNoBaseModelIdentical:
     """
     Base class for the Interpolated classes with no base model
@@ -112,6 +122,11 @@ class InterpolatedNoBaseModelIdentical:
         self.fkeys = [f"f{self.base}{ii}" for ii in range(nodes)]
         self.nodes = nodes
 
+    _tables = ("_norm_spline", "_data_spline", "_spline_data")
+
+    def __getstate__(self):
+        return _state_without(self, *self._tables)
+
     def __call__(self, dataset, **kwargs):
         """
         A wrapper to :func:`p_x_identical`
diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index 5bde136..e9cef5e 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -8,7 +8,7 @@ import numpy as np
 import scipy.special as scs
 
 from ..utils import powerlaw, trapezoid, truncnorm
-from .interped import InterpolatedNoBaseModelIdentical
+from .interped import InterpolatedNoBaseModelIdentical, _state_without
 
 xp = np
 
@@ -569,6 +569,11 @@ class BaseSmoothedMassDistribution:
         self.m1s_grid, self.qs_grid = xp.meshgrid(self.m1s, self.qs)
         self.cache = cache
 
+    _tables = ("_q_interpolant", "_q_masses")
+
+    def __getstate__(self):
+        return _state_without(self, *self._tables)
+
     def __call__(self, dataset, *args, **kwargs):
         beta = kwargs.pop("beta")
         mmin = kwargs.get("mmin", self.mmin)
@@ -872,6 +877,9 @@ class InterpolatedPowerlaw(
     """
 
     primary_model = power_law_mass
+    _tables = (
+        BaseSmoothedMassDistribution._tables + InterpolatedNoBaseModelIdentical._tables
+    )
 
     def __init__(
         self,
-- 
2.43.0


From bb56ffc686b3cf0d499e823b4ab18327ea51188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:16 +0000
Subject: [PATCH 17/32] fix: assign each GridVT parameter to the axis along
 which it varies

With axes of equal length all parameters were assigned to the first of them.
---
 gwpopulation/vt.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 2b72a12..44fd6ae 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -47,7 +47,7 @@ import numpy as np
 from bilby.hyper.model import Model
 
 from .models.redshift import _Redshift, total_four_volume
-from .utils import to_number, trapezoid
+from .utils import to_number, to_numpy, trapezoid
 
 xp = np
 
@@ -91,7 +91,13 @@ class GridVT(_BaseVT):
         self.values = {key: xp.unique(self.data[key]) for key in self.data}
         shape = np.array(list(self.data.values())[0].shape)
         lens = {key: len(self.values[key]) for key in self.data}
-        self.axes = {int(np.where(shape == lens[key])[0][0]): key for key in self.data}
+        self.axes = dict()
+        for key in self.data:
+            # several axes can have the same length
+            axes = np.where(shape == lens[key])[0]
+            values = to_numpy(self.data[key])
+            varying = [axis for axis in axes if np.any(np.ptp(values, axis=axis))]
+            self.axes[int((varying or axes)[0])] = key
         self.ndim = len(self.axes)
 
     def __call__(self, parameters):
-- 
2.43.0


From 8d573f1da152e19ae8db3b950fe67c943b4f5e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:16 +0000
Subject: [PATCH 18/32] fix: resample each event with its own weights in the
 numpyro model

The weights have shape (n_events, n_samples), so that the weights of one sample
for all of the events were used.
---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 9c55d93..d001cbd 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -128,7 +128,7 @@ def posterior_predictive_resample(
         The keys to fit. Default is :code:`None`, which fits all keys in :code:data.
     """
     if event is not None:
-        weights = weights[:, event]
+        weights = weights[event]
     weights /= jnp.sum(weights)
     n_points = int(weights.shape[0])
     idx = jax.random.choice(
-- 
2.43.0


From a272af7095054f1abe2f8289a67a1b5a9d162045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:16 +0000
Subject: [PATCH 19/32] fix: use the sensitive volume as the rate of the Gamma
 distribution in the numpyro model

The second parameter of numpyro's Gamma is the rate, the inverse of the scale.
---
 gwpopulation/experimental/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index d001cbd..ebce2ec 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -75,7 +75,7 @@ def gwpopulation_likelihood_model(
 
         total_hypervolume = selector.surveyed_hypervolume(parameters)
         vt = total_hypervolume * efficiency
-        _ = sample("rate", Gamma(likelihood.n_posteriors, 1 / vt))
+        _ = sample("rate", Gamma(likelihood.n_posteriors, vt))
         if predictive_resample:
             posterior_predictive_resample(
                 selector.data,
-- 
2.43.0


From ddf89f9a0b9b8d6208e540b69be5a2edbc3b5d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:51 +0000
Subject: [PATCH 20/32] fix: use the numpyro random number generator for
 predictive resampling

A fixed key gave all of the events and all evaluations the same draw.
---
 gwpopulation/experimental/numpyro.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index ebce2ec..2c5dddc 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
 import numpy as np
-from numpyro import deterministic, sample
+from numpyro import deterministic, prng_key, sample
 from numpyro.distributions import Gamma, Normal, Unit
 
 __all__ = [
@@ -131,8 +131,11 @@ def posterior_predictive_resample(
         weights = weights[event]
     weights /= jnp.sum(weights)
     n_points = int(weights.shape[0])
+    rng_key = prng_key()
+    if rng_key is None:
+        rng_key = jax.random.PRNGKey(0)
     idx = jax.random.choice(
-        jax.random.PRNGKey(0),
+        rng_key,
         jnp.arange(n_points),
         p=weights,
         shape=shape,
-- 
2.43.0


From 8abbaf0cba1705d9cce7c48f77e2837097edb4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:25 +0000
Subject: [PATCH 21/32] fix: use the variance of the rate likelihood in
 generate_extra_statistics

The total variance reported for the rate likelihood used the selection term of
the rate-marginalized likelihood, not the one in ln_likelihood_and_variance.
---
 gwpopulation/hyperpe.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 6f990b7..1de9a64 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -211,11 +211,16 @@ class HyperparameterLikelihood(Likelihood):
         )
         total_selection = -self.n_posteriors * xp.log(selection)
         if return_uncertainty:
-            total_variance = self.n_posteriors**2 * xp.divide(variance, selection**2)
+            total_variance = self._total_selection_variance(
+                selection, variance, parameters
+            )
             return total_selection, total_variance
         else:
             return total_selection
 
+    def _total_selection_variance(self, selection, variance, parameters):
+        return self.n_posteriors**2 * xp.divide(variance, selection**2)
+
     def _selection_function_with_uncertainty(self, parameters):
         result = self.selection_function(parameters)
         if isinstance(result, tuple):
@@ -266,11 +271,11 @@ class HyperparameterLikelihood(Likelihood):
         selection, variance = self._selection_function_with_uncertainty(
             parameters=parameters
         )
-        variance = variance / selection**2
-        selection_variance = variance * self.n_posteriors**2
         sample["selection"] = selection
-        sample["selection_variance"] = variance
-        total_variance += selection_variance
+        sample["selection_variance"] = variance / selection**2
+        total_variance += self._total_selection_variance(
+            selection, variance, parameters
+        )
         sample["variance"] = to_number(total_variance, float)
         return sample
 
@@ -467,11 +472,16 @@ class RateLikelihood(HyperparameterLikelihood):
         n_expected = selection * parameters["rate"]
         total_selection = -n_expected + self.n_posteriors * xp.log(parameters["rate"])
         if return_uncertainty:
-            total_variance = n_expected * variance / selection**2
+            total_variance = self._total_selection_variance(
+                selection, variance, parameters
+            )
             return total_selection, total_variance
         else:
             return total_selection
 
+    def _total_selection_variance(self, selection, variance, parameters):
+        return selection * parameters["rate"] * variance / selection**2
+
     def generate_rate_posterior_sample(self, parameters):
         """
         Since the rate is a sampled parameter,
-- 
2.43.0


From 7fa36b395f52462777e42f2ce4d157ec2209e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:06 +0000
Subject: [PATCH 22/32] fix: do not leave half-updated splines behind when the
 set up is interrupted

---
 gwpopulation/models/interped.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/gwpopulation/models/interped.py b/gwpopulation/models/interped.py
index fff8dff..862529b 100644
--- a/gwpopulation/models/interped.py
+++ b/gwpopulation/models/interped.py
@@ -113,14 +113,17 @@ class InterpolatedNoBaseModelIdentical:
         self._set_nodes(nodes)
 
     def _set_nodes(self, nodes):
-        self._norm_spline = None
-        self._data_spline = dict()
-        self._spline_nodes = None
-        self._spline_data = dict()
-        self._xs = xp.linspace(self.min, self.max, 10 * nodes)
-        self.xkeys = [f"{self.base}{ii}" for ii in range(nodes)]
-        self.fkeys = [f"f{self.base}{ii}" for ii in range(nodes)]
-        self.nodes = nodes
+        # all at once so that an interrupt never leaves a mixture behind
+        self.__dict__.update(
+            _norm_spline=None,
+            _data_spline=dict(),
+            _spline_nodes=None,
+            _spline_data=dict(),
+            _xs=xp.linspace(self.min, self.max, 10 * nodes),
+            xkeys=[f"{self.base}{ii}" for ii in range(nodes)],
+            fkeys=[f"f{self.base}{ii}" for ii in range(nodes)],
+            nodes=nodes,
+        )
 
     _tables = ("_norm_spline", "_data_spline", "_spline_data")
 
@@ -162,9 +165,11 @@ class InterpolatedNoBaseModelIdentical:
                 for param in self.parameters
             }
         # only keep complete splines
-        self._norm_spline = norm_spline
+        # set last as it shows that the splines are usable
+        self._norm_spline = None
         self._data_spline = data_spline
         self._spline_data = {param: values[param] for param in self.parameters}
+        self._norm_spline = norm_spline
 
     def p_x_unnormed(self, dataset, parameter, x_splines, f_splines, **kwargs):
         """
-- 
2.43.0


From b3431792a59e7fbd9c954790f41f5365e7e525f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:47 +0000
Subject: [PATCH 23/32] fix: report an infinite vt_factor if no injection has
 support

The division of two Python floats raised ZeroDivisionError.
---
 gwpopulation/vt.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 44fd6ae..7080c3f 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -233,11 +233,10 @@ class ResamplingVT(_BaseVT):
             The uncertainty-marginalized vt_factor
         """
         mu, var = self.detection_efficiency(parameters)
-        _, correction = self.check_convergence(mu, var)
-        n_effective = mu**2 / var
+        converged, _ = self.check_convergence(mu, var)
+        n_effective = xp.divide(mu**2, var)
         vt_factor = mu / xp.exp((3 + self.n_events) / 2 / n_effective)
-        vt_factor += correction
-        return vt_factor
+        return to_number(xp.where(converged, vt_factor, xp.inf), float)
 
     def detection_efficiency(self, parameters):
         r"""
-- 
2.43.0


From 67755349b521929f2d702d05dafebf9d1d06b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:47 +0000
Subject: [PATCH 24/32] fix: do not raise if the selection function returns
 zero

Dividing Python floats by zero raises ZeroDivisionError, the point has to be rejected.
---
 gwpopulation/hyperpe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 1de9a64..65b9722 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -272,7 +272,7 @@ class HyperparameterLikelihood(Likelihood):
             parameters=parameters
         )
         sample["selection"] = selection
-        sample["selection_variance"] = variance / selection**2
+        sample["selection_variance"] = xp.divide(variance, selection**2)
         total_variance += self._total_selection_variance(
             selection, variance, parameters
         )
@@ -480,7 +480,7 @@ class RateLikelihood(HyperparameterLikelihood):
             return total_selection
 
     def _total_selection_variance(self, selection, variance, parameters):
-        return selection * parameters["rate"] * variance / selection**2
+        return xp.divide(selection * parameters["rate"] * variance, selection**2)
 
     def generate_rate_posterior_sample(self, parameters):
         """
-- 
2.43.0


From 3bf9097b03530e9677975ce81cacaad9a145f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:05 +0000
Subject: [PATCH 25/32] fix: do not raise if the square of the selection
 estimate overflows

---
 gwpopulation/hyperpe.py | 7 ++++---
 gwpopulation/vt.py      | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 65b9722..715a198 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -219,7 +219,7 @@ class HyperparameterLikelihood(Likelihood):
             return total_selection
 
     def _total_selection_variance(self, selection, variance, parameters):
-        return self.n_posteriors**2 * xp.divide(variance, selection**2)
+        return self.n_posteriors**2 * xp.divide(variance, xp.square(selection))
 
     def _selection_function_with_uncertainty(self, parameters):
         result = self.selection_function(parameters)
@@ -272,7 +272,7 @@ class HyperparameterLikelihood(Likelihood):
             parameters=parameters
         )
         sample["selection"] = selection
-        sample["selection_variance"] = xp.divide(variance, selection**2)
+        sample["selection_variance"] = xp.divide(variance, xp.square(selection))
         total_variance += self._total_selection_variance(
             selection, variance, parameters
         )
@@ -480,7 +480,8 @@ class RateLikelihood(HyperparameterLikelihood):
             return total_selection
 
     def _total_selection_variance(self, selection, variance, parameters):
-        return xp.divide(selection * parameters["rate"] * variance, selection**2)
+        n_expected = selection * parameters["rate"]
+        return xp.divide(n_expected * variance, xp.square(selection))
 
     def generate_rate_posterior_sample(self, parameters):
         """
diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 7080c3f..891068c 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -206,7 +206,7 @@ class ResamplingVT(_BaseVT):
         Check if the estimate of the detection efficiency has converged
         beyond the threshold of :math:`\frac{\mu^2}{\sigma^2} > 4 n_{\rm events}`.
         """
-        converged = mu**2 > 4 * self.n_events * var
+        converged = xp.square(mu) > 4 * self.n_events * var
         return (
             converged,
             xp.nan_to_num(xp.inf * (1 - converged), nan=0, posinf=xp.inf),
@@ -234,7 +234,7 @@ class ResamplingVT(_BaseVT):
         """
         mu, var = self.detection_efficiency(parameters)
         converged, _ = self.check_convergence(mu, var)
-        n_effective = xp.divide(mu**2, var)
+        n_effective = xp.divide(xp.square(mu), var)
         vt_factor = mu / xp.exp((3 + self.n_events) / 2 / n_effective)
         return to_number(xp.where(converged, vt_factor, xp.inf), float)
 
@@ -259,7 +259,7 @@ class ResamplingVT(_BaseVT):
         mu = to_number(xp.sum(weights) / self.total_injections, float)
         var = to_number(
             xp.sum(weights**2) / self.total_injections**2
-            - mu**2 / self.total_injections,
+            - xp.square(mu) / self.total_injections,
             float,
         )
         return mu, var
-- 
2.43.0


From 9af02f31f0102219555c04c26845552525c54b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:57 +0000
Subject: [PATCH 26/32] fix: reject infinite likelihood estimates with too
 large variance

The largest number was subtracted from the largest number.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 715a198..806e8d3 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -180,7 +180,7 @@ class HyperparameterLikelihood(Likelihood):
     def log_likelihood_ratio(self, parameters):
         ln_l, variance = self.ln_likelihood_and_variance(parameters=parameters)
         ln_l = xp.nan_to_num(ln_l, nan=-xp.inf)
-        ln_l -= xp.nan_to_num(xp.inf * (self._max_variance < variance), nan=0)
+        ln_l = xp.where(self._max_variance < variance, -xp.inf, ln_l)
         return to_number(xp.nan_to_num(ln_l), float)
 
     def noise_log_likelihood(self):
-- 
2.43.0


From 0558d93c0b9dfb74ff8d058ef4bfc537cb01f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:40 +0000
Subject: [PATCH 27/32] fix: allow selection functions with a variance in
 generate_rate_posterior_sample

---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 806e8d3..24f8c39 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -312,7 +312,7 @@ class HyperparameterLikelihood(Likelihood):
             efficiency, _ = self.selection_function.detection_efficiency(parameters)
             vt = efficiency * self.selection_function.surveyed_hypervolume(parameters)
         else:
-            vt = self.selection_function(parameters)
+            vt, _ = self._selection_function_with_uncertainty(parameters)
         rate = gamma(a=self.n_posteriors).rvs() / vt
         return rate
 
-- 
2.43.0


From b84c3eb68ef940fba80899f1c6a9bd4341666fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:46 +0000
Subject: [PATCH 28/32] fix: do not change what the primary mass model returns

---
 gwpopulation/models/mass.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gwpopulation/models/mass.py b/gwpopulation/models/mass.py
index e9cef5e..13586c8 100644
--- a/gwpopulation/models/mass.py
+++ b/gwpopulation/models/mass.py
@@ -597,7 +597,7 @@ class BaseSmoothedMassDistribution:
         mmin = kwargs.get("mmin", self.mmin)
         delta_m = kwargs.pop("delta_m", 0)
         p_m = self.__class__.primary_model(dataset["mass_1"], **kwargs)
-        p_m *= self.smoothing(
+        p_m = p_m * self.smoothing(
             dataset["mass_1"], mmin=mmin, mmax=self.mmax, delta_m=delta_m
         )
         norm = self.norm_p_m1(delta_m=delta_m, **kwargs)
@@ -609,7 +609,9 @@ class BaseSmoothedMassDistribution:
         if "jax" not in xp.__name__ and delta_m == 0:
             return 1
         p_m = self.__class__.primary_model(self.m1s, **kwargs)
-        p_m *= self.smoothing(self.m1s, mmin=mmin, mmax=self.mmax, delta_m=delta_m)
+        p_m = p_m * self.smoothing(
+            self.m1s, mmin=mmin, mmax=self.mmax, delta_m=delta_m
+        )
 
         norm = xp.nan_to_num(trapezoid(p_m, self.m1s)) * (delta_m != 0) + 1 * (
             delta_m == 0
-- 
2.43.0


From b58f692482d2ebfaa3d262d8df6531664ce33e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:36 +0000
Subject: [PATCH 29/32] fix: do not cache the output of implicitly wrapped
 models with jax

---
 gwpopulation/hyperpe.py | 3 ++-
 gwpopulation/vt.py      | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 24f8c39..1d1f510 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -111,7 +111,8 @@ class HyperparameterLikelihood(Likelihood):
         self.data = self.resample_posteriors(posteriors, max_samples=max_samples)
 
         if isinstance(hyper_prior, types.FunctionType):
-            hyper_prior = Model([hyper_prior])
+            # cached values must not leave a compiled function
+            hyper_prior = Model([hyper_prior], cache="jax" not in xp.__name__)
         elif not (
             hasattr(hyper_prior, "parameters")
             and callable(getattr(hyper_prior, "prob"))
diff --git a/gwpopulation/vt.py b/gwpopulation/vt.py
index 891068c..241975a 100644
--- a/gwpopulation/vt.py
+++ b/gwpopulation/vt.py
@@ -61,10 +61,12 @@ __all__ = [
 class _BaseVT:
     def __init__(self, model, data):
         self.data = {key: xp.asarray(value) for key, value in data.items()}
+        # cached values must not leave a compiled function
+        cache = "jax" not in xp.__name__
         if isinstance(model, list):
-            model = Model(model)
+            model = Model(model, cache=cache)
         elif not isinstance(model, Model):
-            model = Model([model])
+            model = Model([model], cache=cache)
         self.model = model
 
     def __call__(self, *args, **kwargs):
-- 
2.43.0


From 776fd63cd0a1c92eb0274705c74e4b90efa91495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:14 +0000
Subject: [PATCH 30/32] fix: disable units when restoring a cosmological model
 in a new process

---
 gwpopulation/experimental/cosmo_models.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gwpopulation/experimental/cosmo_models.py b/gwpopulation/experimental/cosmo_models.py
index 2e7b5fc..06d34d2 100644
--- a/gwpopulation/experimental/cosmo_models.py
+++ b/gwpopulation/experimental/cosmo_models.py
@@ -35,6 +35,14 @@ class CosmoMixin:
             self.cosmology_names = []
         self._cosmo = available[cosmo_model]
 
+    def __setstate__(self, state):
+        """
+        The use of units is a property of the process, not of the instance, so
+        it has to be disabled when restoring an instance, e.g., in another process.
+        """
+        wcosmo_disable_units()
+        self.__dict__.update(state)
+
     def cosmology_variables(self, parameters):
         """
         Extract the cosmological parameters from the provided parameters.
-- 
2.43.0


From 549aa2e08f14024faec477e55601ca825fda65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:03 +0000
Subject: [PATCH 31/32] fix: do not resample the scalars that come with the
 injections in the numpyro model

---
 gwpopulation/experimental/numpyro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwpopulation/experimental/numpyro.py b/gwpopulation/experimental/numpyro.py
index 2c5dddc..6529894 100644
--- a/gwpopulation/experimental/numpyro.py
+++ b/gwpopulation/experimental/numpyro.py
@@ -142,7 +142,8 @@ def posterior_predictive_resample(
         replace=False,
     )
     if fit_keys is None:
-        fit_keys = data.keys()
+        # injections also come with scalars, e.g., the analysis time
+        fit_keys = [key for key in data if jnp.ndim(data[key]) > 0]
     for key in fit_keys:
         if event is None:
             deterministic(f"{key}_{label}", data[key][idx])
-- 
2.43.0


From 46ea8ba4f4700155f9a75902ddd8695f9ad1d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:46 +0000
Subject: [PATCH 32/32] fix: evaluate the likelihood with a copy of the
 parameters

A conversion function that works in place, e.g., one that replaces the
sampled parameters, changed the dictionary of the caller, unlike in
generate_extra_statistics and posterior_predictive_resample, so a
second evaluation with the same dictionary failed or differed.
---
 gwpopulation/hyperpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwpopulation/hyperpe.py b/gwpopulation/hyperpe.py
index 1d1f510..ba66e81 100644
--- a/gwpopulation/hyperpe.py
+++ b/gwpopulation/hyperpe.py
@@ -165,7 +165,7 @@ class HyperparameterLikelihood(Likelihood):
         """
         Compute the ln likelihood estimator and its variance.
         """
-        parameters, added_keys = self.conversion_function(parameters)
+        parameters, added_keys = self.conversion_function(parameters.copy())
         ln_bayes_factors, variances = self._compute_per_event_ln_bayes_factors(
             parameters
         )
-- 
2.43.0

