From 168a782c34f32be5995664c6099873e2e5e3dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 01/80] fix: allow_multi_target restricts the number of target
 domains, not sources

---
 skada/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 12b285d..6def96f 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -114,7 +114,7 @@ def check_X_y_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
 
@@ -217,7 +217,7 @@ def check_X_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
     
-- 
2.43.0


From b2f1b62069b015f2f0c3f7bc0205fcf93aaea03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 02/80] fix: source_target_merge keeps the values of both sides
 whatever their dtypes

---
 skada/utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 6def96f..e571ff0 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -526,9 +526,14 @@ def source_target_merge(
                 elif y_type == Y_Type.CONTINUOUS:
                     default_masked_label = _DEFAULT_MASKED_TARGET_REGRESSION_LABEL
 
-                arrays[index_is_empty] = (
-                    default_masked_label *
-                    np.ones(shape_to_complete)
+                # the masked label has to be representable next to the given labels
+                arrays[index_is_empty] = np.full(
+                    shape_to_complete,
+                    default_masked_label,
+                    dtype=np.result_type(
+                        arrays[pair_index].dtype,
+                        np.min_scalar_type(default_masked_label),
+                    ),
                 )
 
         # Check consistent number of samples in source-target arrays
@@ -581,9 +586,8 @@ def _merge_arrays(
         (n_samples_source + n_samples_target, n_features)
     """
     if array_source.shape[0] > 0 and array_target.shape[0] > 0:
-        output = np.zeros_like(
-            np.concatenate((array_source, array_target)), dtype=array_source.dtype
-        )
+        merged = np.concatenate((array_source, array_target))
+        output = np.zeros_like(merged)
         output[sample_domain >= 0] = array_source
         output[sample_domain < 0] = array_target
 
-- 
2.43.0


From ba9651f406d6472de6098e8bf90764999c156035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 03/80] fix: check_X_y_domain validates the length of
 sample_domain, array-like domain labels are accepted

---
 skada/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skada/utils.py b/skada/utils.py
index e571ff0..e50ddf3 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -98,6 +98,8 @@ def check_X_y_domain(
     if np.isscalar(sample_domain):
         sample_domain = sample_domain*np.ones_like(y)
 
+    sample_domain = np.asarray(sample_domain)
+    check_consistent_length(X, sample_domain)
     source_idx = extract_source_indices(sample_domain)
 
     # xxx(okachaiev): this needs to be re-written to accommodate for a
@@ -195,6 +197,7 @@ def check_X_domain(
     if np.isscalar(sample_domain):
         sample_domain = sample_domain * np.ones(X.shape[0], dtype=np.int32)
 
+    sample_domain = np.asarray(sample_domain)
     source_idx = extract_source_indices(sample_domain)
     check_consistent_length(X, sample_domain)
 
-- 
2.43.0


From 4a6584b329c685f5f30f19a8b5bef3decf8e42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 04/80] fix: DomainAwareDataset never overwrites a domain and
 accepts every documented domain definition

---
 skada/datasets/_base.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 20974c5..07fb05c 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -35,8 +35,8 @@ ArrayLike = Union[np.ndarray, "torch.Tensor"]
 # we should not allow non-labeled dataset or... we need
 # to come up with a way to pack them properly
 DomainDataType = Union[
-    # (name, X, y)
-    Tuple[str, ArrayLike, ArrayLike],
+    # (X, y, name)
+    Tuple[ArrayLike, ArrayLike, str],
     # (X, y)
     Tuple[ArrayLike, ArrayLike],
     # (X,)
@@ -92,7 +92,8 @@ class DomainAwareDataset:
     ----------
     domains : list of tuple or dict of tuple or None, optional
         List or dictionary of domains to add at initialization.
-        Each domain can be a tuple (X, y) or (X, y, name).
+        Each domain can be a tuple (X,), (X, y) or (X, y, name). The keys
+        of a dictionary are the names of the domains.
 
     Attributes
     ----------
@@ -111,12 +112,21 @@ class DomainAwareDataset:
         self.domain_names_ = {}
         # xxx(okachaiev): there should be a simpler way for adding those
         if domains is not None:
+            if isinstance(domains, Mapping):
+                domains = [
+                    (d[0], d[1] if len(d) > 1 else None, name)
+                    for name, d in domains.items()
+                ]
             for d in domains:
-                if len(d) == 2:
+                y, domain_name = None, None
+                if len(d) == 1:
+                    (X,) = d
+                elif len(d) == 2:
                     X, y = d
-                    domain_name = None
                 elif len(d) == 3:
                     X, y, domain_name = d
+                else:
+                    raise ValueError("Invalid definition for domain data")
                 self.add_domain(X, y=y, domain_name=domain_name)
 
     def add_domain(
@@ -144,7 +154,10 @@ class DomainAwareDataset:
             # xxx(okachaiev): ValueError would be more appropriate
             assert domain_name not in self.domain_names_
         else:
-            domain_name = f"_{len(self.domain_names_)+1}"
+            idx = len(self.domain_names_) + 1
+            while f"_{idx}" in self.domain_names_:
+                idx += 1
+            domain_name = f"_{idx}"
         domain_id = len(self.domains_) + 1
         self.domains_.append((X, y) if y is not None else (X,))
         self.domain_names_[domain_name] = domain_id
@@ -168,14 +181,17 @@ class DomainAwareDataset:
         self : DomainAwareDataset
             The updated dataset.
         """
+        new_domains = {}
         for domain_name in dataset.domain_names_:
-            # xxx(okachaiev): this needs to be more flexible
-            # as it should be possible to pass only X with y=None
-            # i guess best way of doing so is to change 'add_domain' API
-            X, y = dataset.get_domain(domain_name)
+            domain = dataset.get_domain(domain_name)
             if names_mapping is not None:
                 domain_name = names_mapping.get(domain_name, domain_name)
-            self.add_domain(X, y, domain_name)
+            # check all the names before any of the domains is added
+            assert domain_name not in self.domain_names_
+            assert domain_name not in new_domains
+            new_domains[domain_name] = domain
+        for domain_name, domain in new_domains.items():
+            self.add_domain(*domain, domain_name=domain_name)
         return self
 
     def get_domain(self, domain_name: str) -> Tuple[ArrayLike, Optional[ArrayLike]]:
-- 
2.43.0


From b42ead01113565de743a329a7244376b3c5509c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 05/80] fix: select_domain finds domains packed as targets,
 pack_lodo honours return_type

---
 skada/datasets/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 07fb05c..b260df6 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -229,7 +229,8 @@ class DomainAwareDataset:
         mask : ArrayLike
             Boolean mask indicating selected samples.
         """
-        return select_domain(self.domain_names_, sample_domain, domains)
+        # a domain packed as target is labeled with its negated identifier
+        return select_domain(self.domain_names_, abs(sample_domain), domains)
 
     # xxx(okachaiev): i guess, if we are using names to pack domains into array,
     # we should not autogenerate them... otherwise it might be not obvious at all
@@ -516,7 +517,7 @@ class DomainAwareDataset:
 
     def pack_lodo(
         self,
-        return_X_y: bool = True,
+        return_X_y: Optional[bool] = None,
         return_type: Literal[
             "auto", "array", "tensor", "DeepDADataset", "Bunch"
         ] = "auto",
-- 
2.43.0


From baa086246eb281b4b8d141d2e589be060efcb6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 06/80] fix: DomainAwareDataset.pack masks target labels of
 every dtype and container

---
 skada/datasets/_base.py | 51 +++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index b260df6..5e1be13 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -81,6 +81,28 @@ def get_data_home(data_home: Union[str, os.PathLike, None]) -> str:
     return data_home
 
 
+def _default_mask(labels):
+    """Return the masked label: `nan` if any of the labels is continuous, else -1."""
+    for y in (y[0] for y in labels if len(y) > 0):
+        if _IS_TORCH_IMPORTED and isinstance(y, torch.Tensor):
+            is_continuous = y.is_floating_point()
+        else:
+            dtype = np.asarray(list(y)).dtype if y.dtype == object else y.dtype
+            is_continuous = dtype.kind == "f"
+        if is_continuous:
+            return np.nan
+    return -1
+
+
+def _masked_like(y, mask):
+    """Return an array, or a tensor, with the shape of `y` filled with `mask`."""
+    if _IS_TORCH_IMPORTED and isinstance(y, torch.Tensor):
+        dtype = y.dtype if y.is_floating_point() else None
+        return torch.full(y.shape, mask, dtype=dtype, device=y.device)
+    dtype = np.result_type(y.dtype, np.min_scalar_type(mask))
+    return np.full(y.shape, mask, dtype=dtype)
+
+
 class DomainAwareDataset:
     """
     Container carrying all dataset domains.
@@ -315,6 +337,11 @@ class DomainAwareDataset:
                 DeprecationWarning,
             )
             mask_target_labels = train
+        as_sources, as_targets = list(as_sources), list(as_targets)
+        if mask is None:
+            mask = _default_mask(
+                [self.get_domain(name)[1:] for name in as_sources + as_targets]
+            )
         for domain_name in as_sources:
             domain_id = self.domain_names_[domain_name]
             source = self.get_domain(domain_name)
@@ -328,10 +355,9 @@ class DomainAwareDataset:
             # xxx(okachaiev): this is horribly inefficient, re-write when API is fixed
             Xs.append(X)
             ys.append(y)
-            sample_domains.append(np.ones_like(y, dtype=int) * domain_id)
+            sample_domains.append(np.full(X.shape[0], domain_id, dtype=int))
             domain_labels[domain_name] = domain_id
         # xxx(okachaiev): code duplication, re-write when API is fixed
-        dtype = None
         for domain_name in as_targets:
             domain_id = self.domain_names_[domain_name]
             target = self.get_domain(domain_name)
@@ -345,20 +371,11 @@ class DomainAwareDataset:
             else:
                 raise ValueError("Invalid definition for domain data")
             if mask_target_labels:
-                if mask is not None:
-                    y = np.array([mask] * X.shape[0], dtype=dtype)
-                elif y.dtype in (np.int32, np.int64):
-                    y = -np.ones(X.shape[0], dtype=y.dtype)
-                    # make sure that the mask is reused on the next iteration
-                    mask, dtype = -1, y.dtype
-                elif y.dtype in (np.float32, np.float64):
-                    y = np.array([np.nan] * X.shape[0], dtype=y.dtype)
-                    # make sure that the  mask is reused on the next iteration
-                    mask, dtype = np.nan, y.dtype
+                y = _masked_like(y, mask)
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
-            sample_domains.append(-1 * domain_id * np.ones_like(y, dtype=int))
+            sample_domains.append(np.full(X.shape[0], -1 * domain_id, dtype=int))
             domain_labels[domain_name] = -1 * domain_id
 
         # xxx(okachaiev): so far this only works if source and target has the same size
@@ -386,8 +403,8 @@ class DomainAwareDataset:
                     "torch is required to return data as tensors. "
                     "Please install torch to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
@@ -402,8 +419,8 @@ class DomainAwareDataset:
                     "torch and skorch are required to return data as DeepDADataset. "
                     "Please install them to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
-- 
2.43.0


From e51db51ab8581874657d954092312e543549f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 07/80] fix: skada.__all__ lists the names that exist

---
 skada/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/__init__.py b/skada/__init__.py
index 927a8b0..874fbae 100644
--- a/skada/__init__.py
+++ b/skada/__init__.py
@@ -130,10 +130,10 @@ __all__ = [
     "JDOTRegressor",
     "solve_jdot_classification",
     "JDOTClassifier",
-    "OTLabelPropAdapter",
 
-    "SubsampleTransformer",
-    "DomainStratifiedSubsampleTransformer",
+    "Subsampler",
+    "DomainSubsampler",
+    "StratifiedDomainSubsampler",
 
     "make_da_pipeline",
 
-- 
2.43.0


From 4ff8f4ce7a492ea62f0f673764c211b610d836e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 08/80] fix: masking target labels in selectors leaves the
 labels of the caller untouched

---
 skada/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index b5d1f7e..925a086 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -349,8 +349,12 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
 
     def _auto_mask_target_labels(self, y, routed_params):
         if y is not None and routed_params.get('sample_domain') is not None:
+            y = np.asarray(y)
             y_type = _find_y_type(y)
             source_idx = extract_source_indices(routed_params['sample_domain'])
+            # work on a copy (the labels belong to the caller) with a type that is
+            # able to represent the mask
+            y = y.astype(np.result_type(y.dtype, np.int8), copy=True)
             if y_type == Y_Type.DISCRETE:
                 y[~source_idx] = _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
             elif y_type == Y_Type.CONTINUOUS:
-- 
2.43.0


From 2a4651ef83340986b8368f96beafbab82e0222ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 09/80] fix: merging outputs of several domains keeps the
 values of every domain

---
 skada/_utils.py | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 5c4178b..88bde79 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -178,7 +178,7 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
         assert (
             allow_containers
         ), "Container output is given while `allow_containers` set to False"
-        X_output, y_output, params_output = None, None, {}
+        Xs, ys, params = [], [], {}
         for idx, domain_output in domain_outputs.values():
             if len(domain_output) == 2:
                 domain_X, domain_params = domain_output
@@ -187,31 +187,31 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
                 domain_X, domain_y, domain_params = domain_output
             else:
                 raise ValueError("Invalid container structure")
-            if X_output is None:
-                X_output = np.zeros(
-                    (n_samples, *domain_X.shape[1:]), dtype=domain_X.dtype
-                )
-            if domain_y is not None and y_output is None:
-                y_output = np.zeros(
-                    (n_samples, *domain_y.shape[1:]), dtype=domain_y.dtype
-                )
-            X_output[idx] = domain_X
+            Xs.append((idx, domain_X))
             if domain_y is not None:
-                y_output[idx] = domain_y
+                ys.append((idx, domain_y))
             for k, v in domain_params.items():
-                if k not in params_output:
-                    params_output[k] = np.zeros(
-                        (n_samples, *v.shape[1:]), dtype=v.dtype
-                    )
-                params_output[k][idx] = v
-        output = X_output, y_output, params_output
+                params.setdefault(k, []).append((idx, v))
+        X_output = _merge_arrays(n_samples, Xs)
+        params_output = {k: _merge_arrays(n_samples, v) for k, v in params.items()}
+        if ys:
+            output = X_output, _merge_arrays(n_samples, ys), params_output
+        else:
+            output = X_output, params_output
     else:
         assert isinstance(first_output, np.ndarray)
-        output = np.zeros(
-            (n_samples, *first_output.shape[1:]), dtype=first_output.dtype
-        )
-        for idx, domain_output in domain_outputs.values():
-            output[idx] = domain_output
+        output = _merge_arrays(n_samples, domain_outputs.values())
+    return output
+
+
+def _merge_arrays(n_samples, arrays):
+    """Merge arrays, given with indices, into one with a type that fits them all."""
+    arrays = list(arrays)
+    _, first = arrays[0]
+    dtype = np.result_type(*(array.dtype for _, array in arrays))
+    output = np.zeros((n_samples, *first.shape[1:]), dtype=dtype)
+    for idx, array in arrays:
+        output[idx] = array
     return output
 
 
-- 
2.43.0


From 7b3b4b2a45d0c2aa3690d5bb28e7b3af5304fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 10/80] fix: keep the container layout when merging outputs of
 several domains

---
 skada/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 88bde79..1247995 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -194,8 +194,9 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
                 params.setdefault(k, []).append((idx, v))
         X_output = _merge_arrays(n_samples, Xs)
         params_output = {k: _merge_arrays(n_samples, v) for k, v in params.items()}
-        if ys:
-            output = X_output, _merge_arrays(n_samples, ys), params_output
+        if ys or len(first_output) == 3:
+            y_output = _merge_arrays(n_samples, ys) if ys else None
+            output = X_output, y_output, params_output
         else:
             output = X_output, params_output
     else:
-- 
2.43.0


From 987114bc4f85cdce746fd79ea82b5fb471d821d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 11/80] fix: PerDomain keeps domain labels aligned with labeled
 samples and supports transformers without fit_transform

---
 skada/base.py | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 925a086..295f986 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -472,25 +472,39 @@ class PerDomain(BaseSelector):
             y = self._auto_mask_target_labels(y, params)
 
         X, y, params = X_container.merge_out(y, **params)
-        sample_domain = params['sample_domain']
+        sample_domain = np.asarray(params['sample_domain'])
         routing = get_routing_for_object(self.base_estimator)
         routing_request = getattr(routing, method_name)
         routed_params = self._prepare_routing(routing_request, X_container, params)
-        X, y, routed_params = self._remove_masked(X, y, routed_params)
+        # domain labels have to stay aligned with the samples, domains without
+        # any labeled sample left are not fitted
+        X, y, routed_params, sample_domain = self._remove_masked_domains(
+            X, y, routed_params, sample_domain
+        )
         estimators, outputs = {}, {}
         for domain_label in np.unique(sample_domain):
-            idx, = np.where(sample_domain == domain_label)
+            domain_masks = sample_domain == domain_label
+            idx, = np.where(domain_masks)
+            X_domain, y_domain, domain_params = _apply_domain_masks(
+                X, y, routed_params, masks=domain_masks
+            )
             estimator = clone(self.base_estimator)
             outputs[domain_label] = (idx, getattr(estimator, method_name)(
-                X[idx],
-                y[idx] if y is not None else None,
-                **{k: v[idx] for k, v in routed_params.items()}
+                X_domain, y_domain, **domain_params
             ))
             estimators[domain_label] = estimator
         self.estimators_ = estimators
         self.routing_ = routing
         return outputs
 
+    def _remove_masked_domains(self, X, y, routed_params, sample_domain):
+        idx = np.arange(X.shape[0])
+        idx, _, _ = self._remove_masked(idx, y, routed_params)
+        if len(idx) == X.shape[0]:
+            return X, y, routed_params, sample_domain
+        X, y, routed_params = self._remove_masked(X, y, routed_params)
+        return X, y, routed_params, sample_domain[idx]
+
     @available_if(_estimator_has('transform'))
     def fit_transform(self, X, y=None, **params):
         X_container = MetadataContainer.from_input(X)
@@ -498,12 +512,12 @@ class PerDomain(BaseSelector):
             domain_outputs = self._fit('fit_transform', X_container, y=y, **params)
             output = _merge_domain_outputs(len(X_container), domain_outputs, allow_containers=True)
         else:
-            if self.mask_target_labels:
-                y = self._auto_mask_target_labels(y, params)
-
-            self._fit(X_container, y, **params)
+            self._fit('fit', X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
+            transform_params = self._prepare_routing(
+                self.routing_.transform, X_container, method_params
+            )
+            transform_params['sample_domain'] = method_params['sample_domain']
             # the output of the transform call is already merged into a single ndarray
             output = self.transform(X, **transform_params)
         return X_container.merge_in(output)
@@ -513,7 +527,7 @@ class PerDomain(BaseSelector):
         request = getattr(self.routing_, method_name)
         routed_params = self._prepare_routing(request, {}, params)
         # xxx(okachaiev): use check_*_domain to derive default domain labels
-        sample_domain = params['sample_domain']
+        sample_domain = np.asarray(params['sample_domain'])
         domain_outputs = {}
         # test if default target domain and unique target during fit and replace label
         for domain_label in np.unique(sample_domain):
@@ -525,10 +539,11 @@ class PerDomain(BaseSelector):
                     f"Domain label {domain_label} is not present in the "
                     "fitted estimators."
                 )
-            idx, = np.where(sample_domain == domain_label)
-            X_domain = X[idx]
-            y_domain = y[idx] if y is not None else None
-            domain_params = {k: v[idx] for k, v in routed_params.items()}
+            domain_masks = sample_domain == domain_label
+            idx, = np.where(domain_masks)
+            X_domain, y_domain, domain_params = _apply_domain_masks(
+                X, y, routed_params, masks=domain_masks
+            )
             if y is None:
                 domain_output = method(X_domain, **domain_params)
             else:
-- 
2.43.0


From c3a704ce3a0e352c664a6674113b90564ac0ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 12/80] fix: SelectSourceTarget can be cloned, predicts and
 supports transformers without fit_transform

---
 skada/base.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 295f986..7692852 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -422,7 +422,9 @@ class Shared(BaseSelector):
         else:
             self._fit('fit', X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
+            transform_params = self._prepare_routing(
+                self.routing_.transform, X_container, method_params
+            )
             output = self.transform(X, **transform_params)
         return X_container.merge_in(output)
 
@@ -633,6 +635,7 @@ class SelectSourceTarget(BaseSelector):
         
         self.source_estimator = source_estimator
         self.target_estimator = target_estimator
+        self.mask_target_labels = mask_target_labels
         # xxx(okachaiev): the fact that we need to put those variables
         # here means that the choice of the base class is suboptimal
         self._is_final = False
@@ -733,7 +736,7 @@ class SelectSourceTarget(BaseSelector):
                 )
             X_masked, y_masked, params_masked = _apply_domain_masks(X, y, params, masks=domain_masks)
             routing = getattr(get_routing_for_object(base_estimator), method_name)
-            routed_params = self._prepare_routing(routing, X_masked, params_masked)
+            routed_params = self._prepare_routing(routing, X_container, params_masked)
             X_masked, y_masked, routed_params = self._remove_masked(X_masked, y_masked, routed_params)
             estimator = clone(base_estimator)
             estimator_method = getattr(estimator, method_name)
@@ -752,8 +755,8 @@ class SelectSourceTarget(BaseSelector):
         else:
             self.fit(X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
-            output = self.transform(X, **transform_params)
+            # the parameters are routed separately to each of the estimators
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
@@ -789,6 +792,10 @@ class SelectSourceTarget(BaseSelector):
     # xxx(okachaiev): i guess this should return 'True' only if both
     # estimators have the same method. though practical advantage is,
     # surely, questionable
+    @available_if(_estimator_has('predict', base_attr_name='source_estimator'))
+    def predict(self, X, **params):
+        return self._route_to_estimator('predict', X, **params)
+
     @available_if(_estimator_has('predict_proba', base_attr_name='source_estimator'))
     def predict_proba(self, X, **params):
         return self._route_to_estimator('predict_proba', X, **params)
-- 
2.43.0


From 48ae096775d68ceb728db232147fab0c2f1028df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 13/80] fix: cloning a selector keeps the masking of target
 labels and the final step marker

---
 skada/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 7692852..ba0e053 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -255,9 +255,10 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         """
         params = self.base_estimator.get_params(deep=deep)
         params['base_estimator'] = self.base_estimator
+        params['mask_target_labels'] = self.mask_target_labels
         return params
 
-    def set_params(self, base_estimator=None, **kwargs):
+    def set_params(self, base_estimator=None, mask_target_labels=None, **kwargs):
         """Set the parameters of this estimator.
 
         Valid parameter keys can be listed with ``get_params()``. Note that
@@ -276,9 +277,16 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         """
         if base_estimator is not None:
             self.base_estimator = base_estimator
+        if mask_target_labels is not None:
+            self.mask_target_labels = mask_target_labels
         self.base_estimator.set_params(**kwargs)
         return self
 
+    def __sklearn_clone__(self):
+        cloned = super().__sklearn_clone__()
+        cloned._is_final = self._is_final
+        return cloned
+
     def _mark_as_final(self):
         self._is_final = True
         return self
-- 
2.43.0


From 20f2dbd45fb324b50f1845a318e66855e989f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 14/80] fix: make_da_pipeline numbers repeated names of nested
 pipelines, accepts a final None step and reports unknown selectors

---
 skada/_pipeline.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/skada/_pipeline.py b/skada/_pipeline.py
index 72305ff..d24aee6 100644
--- a/skada/_pipeline.py
+++ b/skada/_pipeline.py
@@ -4,7 +4,8 @@
 #
 # License: BSD 3-Clause
 
-from collections import defaultdict
+from collections import Counter, defaultdict
+from itertools import count
 from typing import Callable, List, Optional, Union
 
 from joblib import Memory
@@ -84,7 +85,7 @@ def make_da_pipeline(
     if not steps:
         raise TypeError("Missing 1 required positional argument: 'steps'")
 
-    names, estimators = [], []
+    names, estimators, is_user_name = [], [], []
     for step in steps:
         name, estimator = step if isinstance(step, tuple) else (None, step)
         if isinstance(estimator, Pipeline) and isinstance(estimator[0], BaseSelector):
@@ -93,9 +94,13 @@ def make_da_pipeline(
                 if name is not None:
                     nested_name = f"{name}__{nested_name}"
                 names.append(nested_name)
-                estimators.append(nested_selector._unmark_as_final())
+                is_user_name.append(False)
+                if nested_selector is not None:
+                    nested_selector._unmark_as_final()
+                estimators.append(nested_selector)
         else:
             names.append(name)
+            is_user_name.append(name is not None)
             estimators.append(estimator)
     wrapped_estimators = _wrap_with_selectors(
         estimators, default_selector, mask_target_labels
@@ -105,10 +110,28 @@ def make_da_pipeline(
         (auto_name, step) if user_name is None else (user_name, step)
         for user_name, (auto_name, step) in zip(names, steps)
     ]
-    named_steps[-1][1]._mark_as_final()
+    named_steps = _number_repeated_names(named_steps, is_user_name)
+    if named_steps[-1][1] is not None:
+        named_steps[-1][1]._mark_as_final()
     return Pipeline(named_steps, memory=memory, verbose=verbose)
 
 
+def _number_repeated_names(named_steps, is_user_name):
+    """Number repeated names, except for those explicitly chosen by the user."""
+    taken = {name for name, _ in named_steps}
+    counts = Counter(name for name, _ in named_steps)
+    numbered_steps = []
+    for (name, step), keep_name in zip(named_steps, is_user_name):
+        if counts[name] > 1 and not keep_name:
+            new_name = next(
+                f"{name}-{i}" for i in count(1) if f"{name}-{i}" not in taken
+            )
+            taken.add(new_name)
+            name = new_name
+        numbered_steps.append((name, step))
+    return numbered_steps
+
+
 def _wrap_with_selector(
     estimator: BaseEstimator,
     selector: Union[str, Callable[[BaseEstimator], BaseSelector]],
@@ -127,7 +150,7 @@ def _wrap_with_selector(
             if selector_cls is None:
                 raise ValueError(
                     f"Unsupported `default_selector` name: {selector}."
-                    f"Use one of {_DEFAULT_SELECTORS.keys().join(', ')}"
+                    f"Use one of {', '.join(_DEFAULT_SELECTORS.keys())}"
                 )
             estimator = selector_cls(estimator, mask_target_labels=mask_target_labels)
         else:
-- 
2.43.0


From 63b5ac5df21e7513744998f6696319171a4c08db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 15/80] fix: metadata given to a pipeline reaches the
 transformers that request it

---
 skada/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index ba0e053..e7865b6 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -220,6 +220,7 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
             .add_self_request(self)
             .add(estimator=self.base_estimator, method_mapping=MethodMapping()
                  .add(callee='fit', caller='fit')
+                 .add(callee='fit_transform', caller='fit_transform')
                  .add(callee='partial_fit', caller='partial_fit')
                  .add(callee='transform', caller='transform')
                  .add(callee='predict', caller='predict')
@@ -653,6 +654,7 @@ class SelectSourceTarget(BaseSelector):
         routing = MetadataRouter(owner=self.__class__.__name__).add_self_request(self)
         routing.add(estimator=self.source_estimator, method_mapping=MethodMapping()
             .add(callee='fit', caller='fit')
+            .add(callee='fit_transform', caller='fit_transform')
             .add(callee='partial_fit', caller='partial_fit')
             .add(callee='transform', caller='transform')
             .add(callee='predict', caller='predict')
@@ -663,6 +665,7 @@ class SelectSourceTarget(BaseSelector):
         if self.target_estimator is not None:
             routing.add(estimator=self.target_estimator, method_mapping=MethodMapping()
                 .add(callee='fit', caller='fit')
+                .add(callee='fit_transform', caller='fit_transform')
                 .add(callee='partial_fit', caller='partial_fit')
                 .add(callee='transform', caller='transform')
                 .add(callee='predict', caller='predict')
-- 
2.43.0


From ebdc79d47778116f9f9279a2174fb2361849dbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 16/80] fix: source and target selectors filter sample weights
 together with the samples

---
 skada/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index e7865b6..a1fdaed 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -576,6 +576,10 @@ class _BaseSelectDomain(Shared):
     from the input.
     """
 
+    # weights have to be filtered together with the samples, so that they
+    # stay aligned for the next steps of the pipeline
+    __metadata_request__fit = {'sample_domain': True, 'sample_weight': True}
+
     @abstractmethod
     def _select_indices(self, sample_domain):
         """Calculates masks for input samples.
-- 
2.43.0


From 542aec3f72d6d0496ffae9c3f31a88258f713917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 17/80] fix: subsamplers subsample sample weights together with
 the samples

---
 skada/transformers.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/skada/transformers.py b/skada/transformers.py
index f7be92f..516c193 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -30,6 +30,14 @@ class Subsampler(BaseAdapter):
         Controls the random resampling of the data.
     """
 
+    # weights are subsampled together with the samples
+    __metadata_request__fit = {"sample_domain": True, "sample_weight": True}
+    __metadata_request__transform = {
+        "sample_domain": True,
+        "sample_weight": True,
+        "allow_source": True,
+    }
+
     def __init__(self, train_size, random_state=None):
         self.train_size = train_size
         self.random_state = random_state
@@ -95,6 +103,14 @@ class DomainSubsampler(BaseAdapter):
         Controls the random resampling of the data.
     """
 
+    # weights are subsampled together with the samples
+    __metadata_request__fit = {"sample_domain": True, "sample_weight": True}
+    __metadata_request__transform = {
+        "sample_domain": True,
+        "sample_weight": True,
+        "allow_source": True,
+    }
+
     def __init__(self, train_size, random_state=None):
         self.train_size = train_size
         self.random_state = random_state
@@ -158,6 +174,14 @@ class StratifiedDomainSubsampler(BaseAdapter):
         Controls the random resampling of the data.
     """
 
+    # weights are subsampled together with the samples
+    __metadata_request__fit = {"sample_domain": True, "sample_weight": True}
+    __metadata_request__transform = {
+        "sample_domain": True,
+        "sample_weight": True,
+        "allow_source": True,
+    }
+
     def __init__(self, train_size, random_state=None):
         self.train_size = train_size
         self.random_state = random_state
-- 
2.43.0


From cc5d78a0d9df5bc83c32843d02813cd27eea991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 18/80] fix: SelectSourceTarget routes metadata to both of its
 estimators

---
 skada/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index a1fdaed..f7dc8aa 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -656,7 +656,7 @@ class SelectSourceTarget(BaseSelector):
 
     def get_metadata_routing(self):
         routing = MetadataRouter(owner=self.__class__.__name__).add_self_request(self)
-        routing.add(estimator=self.source_estimator, method_mapping=MethodMapping()
+        routing.add(source_estimator=self.source_estimator, method_mapping=MethodMapping()
             .add(callee='fit', caller='fit')
             .add(callee='fit_transform', caller='fit_transform')
             .add(callee='partial_fit', caller='partial_fit')
@@ -667,7 +667,7 @@ class SelectSourceTarget(BaseSelector):
             .add(callee='decision_function', caller='decision_function')
             .add(callee='score', caller='score'))
         if self.target_estimator is not None:
-            routing.add(estimator=self.target_estimator, method_mapping=MethodMapping()
+            routing.add(target_estimator=self.target_estimator, method_mapping=MethodMapping()
                 .add(callee='fit', caller='fit')
                 .add(callee='fit_transform', caller='fit_transform')
                 .add(callee='partial_fit', caller='partial_fit')
-- 
2.43.0


From 368b8d9a9e5519578b082bc6f4e575d5cb26eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 19/80] fix: frank-wolfe solver honours upper bounds, keeps x
 >= 0 and refuses constraints it does not support

---
 skada/utils.py | 59 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index e50ddf3..228612e 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -639,7 +639,7 @@ def qp_solve(Q, c=None, A=None, b=None, Aeq=None, beq=None,
 
         A_{eq} x = b_{eq}
 
-        x >= 0
+        0 <= x <= ub
 
     Or,
 
@@ -648,7 +648,7 @@ def qp_solve(Q, c=None, A=None, b=None, Aeq=None, beq=None,
 
         A x <= b
 
-        x >= 0
+        0 <= x <= ub
 
     With Aeq and beq of respective dimension (1,d) and (1,),
     and A and b of respective dimension (1,d) and (1,) or
@@ -701,7 +701,7 @@ def qp_solve(Q, c=None, A=None, b=None, Aeq=None, beq=None,
                                x0, tol, max_iter, verbose, log)
     elif solver == "frank-wolfe":
         return _qp_solve_frank_wolfe(Q, c, A, b, Aeq, beq,
-                                     x0, max_iter)
+                                     lb, ub, x0, max_iter)
     else:
         raise ValueError("`solver` argument should be included in %s,"
                          " got '%s'" % (solver_list, str(solver)))
@@ -823,8 +823,8 @@ def _qp_solve_scipy(Q, c=None, A=None, b=None, Aeq=None, beq=None,
 
 
 def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
-                          Aeq=None, beq=None, x0=None,
-                          max_iter=1000):
+                          Aeq=None, beq=None, lb=None, ub=None,
+                          x0=None, max_iter=1000):
     r""" Solves a quadratic program with Frank-Wolfe algorithm
 
     Solve the following optimization problem:
@@ -834,7 +834,7 @@ def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
 
         A_{eq} x = b_{eq}
 
-        x >= 0
+        0 <= x <= ub
 
     Or,
 
@@ -843,7 +843,7 @@ def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
 
         A x <= b
 
-        x >= 0
+        0 <= x <= ub
 
     With Aeq and beq of respective dimension (1,d) and (1,),
     and A and b of respective dimension (1,d) and (1,) or
@@ -863,6 +863,10 @@ def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
         Linear equality constraint matrix .
     beq : (n,) ndarray, float64, optional
         Linear equality constraint vector.
+    lb : (d) ndarray, float64, optional
+        Lower bound constraint, only 0 is supported (default).
+    ub : (d) ndarray, float64, optional
+        Upper bound constraint, np.inf if not provided.
     x0 : (d,) ndarray, float64, optional
         Initialization. Ones by default.
     max_iter : int, optional
@@ -875,6 +879,12 @@ def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
     val: float
         optimal value of the objective (None if optimization error)
     """
+    if A is not None and Aeq is not None:
+        raise ValueError("`A` and `Aeq` can not be given together"
+                         " when using the 'frank-wolfe' solver")
+    if lb is not None and np.any(np.asarray(lb) != 0):
+        raise ValueError("`lb` must be equal to 0"
+                         " when using the 'frank-wolfe' solver")
     if Aeq is not None and Aeq.shape[0] > 1:
         raise ValueError("`Aeq.shape[0]` must be equal to 1"
                          " when using the 'frank-wolfe' solver,"
@@ -908,21 +918,21 @@ def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
 
     if Aeq is not None:
         x = frank_wolfe(jac, Aeq[0], beq[0], beq[0],
-                        x0, max_iter)
+                        x0, max_iter, ub)
     elif A is not None:
         if A.shape[0] > 1:
             x = frank_wolfe(jac, A[0], -b[1], b[0],
-                            x0, max_iter)
+                            x0, max_iter, ub)
         else:
             x = frank_wolfe(jac, A[0], b[0], b[0],
-                            x0, max_iter)
+                            x0, max_iter, ub)
     else:
         raise ValueError("`A` or `Aeq` must be given when"
                          " using the 'frank-wolfe' solver")
     return x, func(x)
 
 
-def frank_wolfe(jac, c, clb=1., cub=1., x0=None, max_iter=1000):
+def frank_wolfe(jac, c, clb=1., cub=1., x0=None, max_iter=1000, ub=None):
     r"""Frank-Wolfe algorithm for convex programming
 
     Solve the following convex optimization problem:
@@ -932,27 +942,38 @@ def frank_wolfe(jac, c, clb=1., cub=1., x0=None, max_iter=1000):
 
         clb <= \\langle x, c \\rangle <= cub
 
-        x >= 0
+        0 <= x <= ub
 
     Parameters
     ----------
     jac : callable
         The jacobian of f, return a vector of shape (d,).
     c : (d,) ndarray, float64
-        Linear constraint vector.
+        Linear constraint vector, with positive coefficients.
     clb : float64, optional, default=1.
         Lower bound of the linear constraint.
     cub : float64, optional, default=1.
         Upper bound of the linear constraint.
     max_iter : int, optional, default=1000
         Maximum number of iterations to perform.
+    ub : float64 or (d,) ndarray, optional
+        Upper bound constraint, np.inf if not provided.
 
     Returns
     -------
     x: (d,) ndarray
         Optimal solution x
     """
+    c = np.asarray(c)
+    if np.any(c <= 0):
+        raise ValueError("The coefficients of the linear constraint must"
+                         " be positive when using the 'frank-wolfe' solver")
     inv_c = 1. / c
+    # x >= 0 implies that <x, c> is not negative
+    clb = max(clb, 0.)
+    capacity = c * (np.inf if ub is None else ub)
+    if cub < clb or np.any(capacity < 0) or capacity.sum() < clb:
+        raise ValueError("The constraints have no feasible point")
 
     if x0 is None:
         x0 = inv_c * ((cub - clb) / 2) / c.shape[0]
@@ -962,12 +983,14 @@ def frank_wolfe(jac, c, clb=1., cub=1., x0=None, max_iter=1000):
     for k in range(1, max_iter+1):
         grad = jac(x)
         product = grad * inv_c
-        index = np.argmin(product)
+        # use the coordinates with the steepest descent first, coordinates
+        # which increase f only as far as required by the lower bound
+        order = np.argsort(product, kind="stable")
+        total = np.where(product[order] < 0, cub, clb)
+        total = np.minimum(np.cumsum(capacity[order]), total)
+        total = np.maximum.accumulate(total)
         vect = np.zeros(c.shape[0])
-        if product[index] >= 0:
-            vect[index] = inv_c[index] * clb
-        else:
-            vect[index] = inv_c[index] * cub
+        vect[order] = inv_c[order] * np.diff(total, prepend=0.)
         lr = 2. / (k + 1.)
         x = (1 - lr) * x + lr * vect
     return x
-- 
2.43.0


From ac7db8cebb85783114a0a828a82ec48d3bc267aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 20/80] fix: DiscriminatorReweight weights source samples by
 the target over source ratio

---
 skada/_reweight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 8395d76..aefaa7a 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -356,8 +356,9 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
         # as we only use this array for indexing
         (source_idx,) = np.where(source_idx)
         probas = self.domain_classifier_.predict_proba(X[source_idx])[:, 1]
-        probas = np.clip(probas, EPS, 1.0)
-        source_weights = (1 - probas) / probas
+        # ratio of the densities of target (class 1) and source (class 0)
+        probas = np.clip(probas, EPS, 1.0 - EPS)
+        source_weights = probas / (1 - probas)
         source_weights /= source_weights.mean()
         weights = np.zeros(X.shape[0], dtype=source_weights.dtype)
         weights[source_idx] = source_weights
-- 
2.43.0


From 3d66289760a442a1e6b88a891e7f99c03c602e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 21/80] fix: NearestNeighborReweight counts target samples
 whatever the row order and honours set_params

---
 skada/_reweight.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index aefaa7a..4823a36 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -754,7 +754,11 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         self.metric_params = metric_params
         self.n_jobs = n_jobs
         self.laplace_smoothing = laplace_smoothing
-        self.base_estimator = KNeighborsClassifier(
+
+    @property
+    def base_estimator(self):
+        # created on demand, parameters might be changed with `set_params`
+        return KNeighborsClassifier(
             n_neighbors=self.n_neighbors,
             weights=self.weights,
             algorithm=self.algorithm,
@@ -804,17 +808,10 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         return weights
 
     def compute_weights(self, X, y=None, *, sample_domain=None, **params):
+        check_is_fitted(self)
         X, sample_domain = check_X_domain(X, sample_domain, allow_source=True)
         source_idx = extract_source_indices(sample_domain)
-        # xxx(okachaiev): do we need np.where here?
-        (source_idx,) = np.where(source_idx)
-        indices_source = np.arange(X[source_idx].shape[0])
-        if np.array_equal(self.X_source_fit, X[source_idx]):
-            estimator = self.estimator_
-        else:
-            estimator = clone(self.base_estimator)
-            estimator.fit(X[source_idx], indices_source)
-        weights = np.ones(X.shape[0])
+        weights = np.zeros(X.shape[0])
         weights[source_idx] = self._get_weights(X[source_idx], X[~source_idx])
         return weights
 
-- 
2.43.0


From fb458f35f7caa79c6c6e0082efff60bc0a2e3a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:01 +0000
Subject: [PATCH 22/80] fix: KLIEPReweight leaves its gamma parameter unchanged

---
 skada/_reweight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 4823a36..208635e 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -485,9 +485,9 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
         if isinstance(self.gamma, list):
-            self.gamma = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
+            gammas = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
             self.best_gamma_ = self._likelihood_cross_validation(
-                self.gamma, X_source, X_target
+                gammas, X_source, X_target
             )
         else:
             self.best_gamma_ = self._auto_scale_gammas(self.gamma, X)
-- 
2.43.0


From 6ac41da603c2fcf41b7f5e02633cf9d1ecccc9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 23/80] fix: KLIEPReweight maximizes the likelihood instead of
 stopping at the initial point

---
 skada/_reweight.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 208635e..24eefd8 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -505,17 +505,17 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         centers = X_target[rng.choice(np.arange(n_targets), n_centers)]
         A = pairwise_kernels(X_target, centers, metric="rbf", gamma=gamma)
         b = pairwise_kernels(X_source, centers, metric="rbf", gamma=gamma)
-        b = np.mean(b, axis=0)
+        b = np.maximum(np.mean(b, axis=0), EPS)
 
-        alpha = np.ones(n_centers)
-        obj = np.sum(np.log(A @ alpha))
+        alpha = np.ones(n_centers) / b.sum()
+        obj = np.mean(np.log(A @ alpha + EPS))
         for _ in range(self.max_iter):
             old_obj = obj
-            alpha += EPS * A.T @ (1 / (A @ alpha))
-            alpha += (1 - b @ alpha) * b / (b @ b)
-            alpha = (alpha > 0) * alpha
+            # multiplicative update, it never decreases the likelihood and
+            # preserves the constraints alpha >= 0 and b @ alpha = 1
+            alpha = alpha * (A.T @ (1 / (A @ alpha + EPS))) / (n_targets * b)
             alpha /= b @ alpha
-            obj = np.sum(np.log(A @ alpha + EPS))
+            obj = np.mean(np.log(A @ alpha + EPS))
             if np.abs(obj - old_obj) < self.tol:
                 break
         else:
-- 
2.43.0


From 7f14f9dfaba2553540ba4894f8f9ad70c36f0f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 24/80] fix: TransferComponentAnalysis solves its generalized
 eigenproblem and keeps the caller's row order

---
 skada/_subspace.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 751195f..9960901 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -298,9 +298,8 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
 
         A = np.eye(ns + nt) + self.mu * K @ L @ K
         B = K @ H @ K
-        solution = np.linalg.solve(A, B)
-
-        eigvals, eigvects = np.linalg.eigh(solution)
+        # leading eigenvectors of A^{-1} B, which is not symmetric
+        eigvals, eigvects = scipy.linalg.eigh(B, A)
 
         if self.n_components is None:
             n_components = min(X.shape[0], X.shape[1])
@@ -357,18 +356,11 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
             allow_multi_source=True,
             allow_multi_target=True,
         )
-        X_source, X_target = source_target_split(X, sample_domain=sample_domain)
-
-        if np.array_equal(X_source, self.X_source_) and np.array_equal(
-            X_target, self.X_target_
-        ):
-            X_ = (self.K_ @ self.eigvects_)[: X.shape[0]]
-        else:
-            Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
-            Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
-            K = np.concatenate((Ks, Kt), axis=1)
-            X_ = (K @ self.eigvects_)[: X.shape[0]]
-        return X_
+        # rows stay in the order of X, columns in the order used in fit
+        Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
+        Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
+        K = np.concatenate((Ks, Kt), axis=1)
+        return K @ self.eigvects_
 
 
 def TransferComponentAnalysis(
-- 
2.43.0


From 3cee24ab7680383ba7f0730dfbfaeb559a78e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 25/80] fix: TransferJointMatching iterates to convergence and
 keeps the caller's row order

---
 skada/_subspace.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 9960901..09508ac 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -21,7 +21,6 @@ from ._pipeline import make_da_pipeline
 from .base import BaseAdapter
 from .utils import (
     check_X_domain,
-    extract_source_indices,
     source_target_merge,
     source_target_split,
     torch_minimize,
@@ -509,19 +508,11 @@ class TransferJointMatchingAdapter(BaseAdapter):
             allow_multi_source=True,
             allow_multi_target=True,
         )
-        X_source, X_target = source_target_split(X, sample_domain=sample_domain)
-
-        if np.array_equal(X_source, self.X_source_) and np.array_equal(
-            X_target, self.X_target_
-        ):
-            K = self._get_kernel_matrix(X_source, X_target)
-            X_ = K @ self.A_
-        else:
-            Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
-            Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
-            K = np.concatenate((Ks, Kt), axis=1)
-            X_ = K @ self.A_
-        return X_
+        # rows stay in the order of X, columns in the order used in fit
+        Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
+        Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
+        K = np.concatenate((Ks, Kt), axis=1)
+        return K @ self.A_
 
     def _get_mmd_matrix(self, ns, nt, sample_domain):
         Mss = (1 / (ns**2)) * np.ones((ns, ns))
@@ -570,7 +561,8 @@ class TransferJointMatchingAdapter(BaseAdapter):
         self.X_target_ = X_target
 
         n = X.shape[0]
-        source_mask = extract_source_indices(sample_domain)
+        # the kernel matrix below lists the source samples first
+        source_mask = np.arange(n) < X_source.shape[0]
 
         H = np.identity(n) - 1 / n * np.ones((n, n))
         K = self._get_kernel_matrix(X_source, X_target)
@@ -579,7 +571,7 @@ class TransferJointMatchingAdapter(BaseAdapter):
         G = np.identity(n)
 
         EPS_eigval = 1e-10
-        last_loss = -2 * self.tol
+        last_loss = np.inf
         for i in range(self.max_iter):
             # update A
             B = K @ M @ K.T + self.tradeoff * G
@@ -622,7 +614,7 @@ class TransferJointMatchingAdapter(BaseAdapter):
                 print(f"Constraint satisfaction: {cond}, dist={dist:.3e}")
                 print(f"Error of generalized eigendecomposition: {error_eigv:.3e}")
 
-            if last_loss == 0 or np.abs(last_loss - loss_total) / last_loss < self.tol:
+            if np.abs(last_loss - loss_total) <= self.tol * np.abs(loss_total):
                 break
             else:
                 last_loss = loss_total
-- 
2.43.0


From b0dd92b07fbb67e32fc13a9ec6d48ac95e4fe400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 26/80] fix: TransferSubspaceLearning minimizes its flda and
 lpp criteria instead of maximizing them

---
 skada/_subspace.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 09508ac..956d3f2 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -800,21 +800,21 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
             cov = self._torch_cov(X_source)
             loss = -torch.trace(W.T @ cov @ W)
         elif base_method == "flda":
-            classes = torch.unique(y_source)
-            classes_means = torch.stack(
-                [torch.mean(X_source[y_source == c], dim=0) for c in classes]
-            )
-            classes_n_samples = torch.stack([torch.sum(y_source == c) for c in classes])
-            classes_means = classes_means * torch.sqrt(classes_n_samples).reshape(-1, 1)
-            S_W = self._torch_cov(classes_means)
-            S_B = self._torch_cov(X_source)
-            loss = torch.trace(W.T @ S_W @ W) / torch.trace(W.T @ S_B @ W)
+            # minimizing the within-class over the total scatter maximizes the
+            # between-class over the within-class scatter
+            X_centered = torch.empty_like(X_source)
+            for c in torch.unique(y_source):
+                mask = y_source == c
+                X_centered[mask] = X_source[mask] - torch.mean(X_source[mask], dim=0)
+            S_W = self._torch_cov(X_centered)
+            S_T = self._torch_cov(X_source)
+            loss = torch.trace(W.T @ S_W @ W) / torch.trace(W.T @ S_T @ W)
         elif base_method == "lpp":
             # E is the Gaussian kernel if (y_source)_i == (y_source)_j and 0 otherwise
             E = torch.exp(-torch.cdist(X_source, X_source) / self.length_scale)
             E = E * (y_source[:, None] == y_source[None, :])
             D = torch.diag(torch.sum(E, dim=1))
-            loss = -2 * torch.trace(W.T @ X_source.T @ (D - E) @ X_source @ W)
+            loss = 2 * torch.trace(W.T @ X_source.T @ (D - E) @ X_source @ W)
 
         return loss
 
-- 
2.43.0


From 5be20c694cf78897e36c8739979e31f1959e1143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 27/80] fix: MultiLinearMongeAlignment does not truncate mapped
 integer features

---
 skada/_mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index cb1caf9..47460ac 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -691,7 +691,7 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
             X, sample_domain, allow_multi_source=True, allow_multi_target=True
         )
         idx = extract_domains_indices(sample_domain)
-        X_adapt = X.copy()
+        X_adapt = np.empty(X.shape, dtype=np.result_type(X, self.barycenter_[0]))
 
         for domain, sel in idx.items():
             A, b = self.mappings_[domain]
-- 
2.43.0


From 12b9ff6bfe4b106cc32a5780cde1319a4e7e5dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 28/80] fix: ClassRegularizerOTMapping builds a new default
 estimator per call

---
 skada/_mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index 47460ac..19c29db 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -380,7 +380,7 @@ class ClassRegularizerOTMappingAdapter(BaseOTMappingAdapter):
 
 
 def ClassRegularizerOTMapping(
-    base_estimator=SVC(kernel="rbf"),
+    base_estimator=None,
     metric="sqeuclidean",
     norm="lpl1",
     max_iter=10,
@@ -426,6 +426,9 @@ def ClassRegularizerOTMapping(
            Optimal Transport for Domain Adaptation, in IEEE
            Transactions on Pattern Analysis and Machine Intelligence
     """
+    if base_estimator is None:
+        base_estimator = SVC(kernel="rbf")
+
     ot_mapping = make_da_pipeline(
         ClassRegularizerOTMappingAdapter(
             metric=metric,
-- 
2.43.0


From f19597531d2dfdb956ae34c77679abb3532e606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 29/80] fix: JCPOTLabelProp returns source class labels aligned
 with the target samples

---
 skada/_ot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index cec768d..22e7730 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -949,18 +949,18 @@ class JCPOTLabelPropAdapter(BaseAdapter):
     def fit_transform(self, X, y, sample_domain=None, *, sample_weight=None):
         X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
 
-        sources, targets = per_domain_split(X, y, sample_domain=sample_domain)
+        sources, _ = per_domain_split(X, y, sample_domain=sample_domain)
 
+        # the solver indexes classes from 0 to n_classes - 1
+        self.classes_ = np.unique(y[sample_domain >= 0])
         Xs = [X for X, y in sources.values()]
-        ys = [y for X, y in sources.values()]
+        ys = [np.searchsorted(self.classes_, y) for X, y in sources.values()]
 
         if len(ys) == 1:
             Xs = Xs * 2
             ys = ys * 2
 
-        Xt = [X for X, y in targets.values()]
-
-        Xt = np.concatenate(Xt, axis=0)
+        Xt = X[sample_domain < 0]
 
         self.ot_adapter_ = ot.da.JCPOTTransport(
             reg_e=self.reg,
@@ -976,7 +976,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         self.yh_continuous_ = yh
 
-        yh = np.argmax(yh, axis=1)
+        yh = self.classes_[np.argmax(yh, axis=1)]
 
         yout = -np.ones_like(y)
         yout[sample_domain < 0] = yh
-- 
2.43.0


From 15c13921669e9cb65f84929a28ce86df8a9d3c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 30/80] fix: JDOTClassifier's hinge cost distinguishes the two
 classes of a binary decision function

---
 skada/_ot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 22e7730..9e15a35 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -73,7 +73,7 @@ def get_jdot_class_cost_matrix(Ys, Xt, estimator=None, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yt_pred = estimator.decision_function(Xt)
             if len(Yt_pred.shape) == 1:
-                Yt_pred = np.repeat(Yt_pred.reshape(-1, 1), 2, axis=1)
+                Yt_pred = np.stack([-Yt_pred, Yt_pred], axis=1)
             M = np.maximum(0, 1 - Ys[:, None, :] * Yt_pred[None, :, :]).sum(2)
         else:
             raise ValueError(
@@ -184,7 +184,7 @@ def get_tgt_loss_jdot_class(Xh, yh, wh, estimator, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yh_pred = estimator.decision_function(Xh)
             if len(Yh_pred.shape) == 1:  # handle binary classification
-                Yh_pred = np.repeat(Yh_pred.reshape(-1, 1), 2, axis=1)
+                Yh_pred = np.stack([-Yh_pred, Yh_pred], axis=1)
             loss = np.sum(np.maximum(0, 1 - yh * Yh_pred), 1).dot(wh)
         else:
             raise ValueError(
-- 
2.43.0


From 6608814eedde5bb42cebe5966b98e0f41df7b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 31/80] fix: JDOT estimators return themselves from fit

---
 skada/_ot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index 9e15a35..a9fab79 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -591,6 +591,7 @@ class JDOTRegressor(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(self, X, sample_domain=None, *, sample_weight=None):
         """Predict using the model"""
@@ -721,6 +722,7 @@ class JDOTClassifier(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
-- 
2.43.0


From 865f29bb0d3621fd6fca64f775afe5fb7452f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 32/80] fix: JDOTRegressor accepts the allow_source argument
 that pipelines pass on

---
 skada/_ot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index a9fab79..6939df5 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -593,7 +593,9 @@ class JDOTRegressor(DAEstimator):
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
         return self
 
-    def predict(self, X, sample_domain=None, *, sample_weight=None):
+    def predict(
+        self, X, sample_domain=None, *, sample_weight=None, allow_source=False
+    ):
         """Predict using the model"""
         check_is_fitted(self)
         if sample_domain is not None and np.any(sample_domain >= 0):
@@ -603,7 +605,7 @@ class JDOTRegressor(DAEstimator):
             )
         return self.estimator_.predict(X)
 
-    def score(self, X, y, sample_domain=None, *, sample_weight=None):
+    def score(self, X, y, sample_domain=None, *, sample_weight=None, **kwargs):
         """Return the coefficient of determination R^2 of the prediction"""
         check_is_fitted(self)
         if sample_domain is not None and np.any(sample_domain >= 0):
-- 
2.43.0


From 95e65858920bbc59951a6937ff4477fc9ded2510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 33/80] fix: DASVMClassifier leaves its base estimator
 unfitted, moves k points per class, ends when every target is added and takes
 probabilities from the final model

---
 skada/_self_labeling.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 99d6acd..9e84998 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -95,17 +95,12 @@ class DASVMClassifier(DAEstimator):
         # depending on the values of d
         condition = np.logical_and(~indices_list, cond_array)
         for _ in range(min(self.k, math.ceil(sum(condition) / self.n_class))):
-            idx = np.unique(np.argmax(d[condition], axis=0))
-            # We need to get all those indices to be take into account
-            # the fact that the some previous points weren't in the list
-            for ll in range(condition.shape[0]):
-                if ~condition[ll]:
-                    idx[idx >= ll] += 1
-
-            # We finally only need to change the list
-            for ll in idx:
-                # indices_list[l] is False at that point
-                indices_list[ll] = True
+            # points taken previously are not candidates any more
+            candidates = np.flatnonzero(np.logical_and(~indices_list, cond_array))
+            if candidates.size == 0:
+                break
+            idx = np.unique(np.argmax(d[candidates], axis=0))
+            indices_list[candidates[idx]] = True
 
     def _get_X_y(
         self, new_estimator, index_target_added, index_source_deleted, Xs, Xt, ys
@@ -131,7 +126,7 @@ class DASVMClassifier(DAEstimator):
             decisions[~indices_list] = df
             decisions = np.array([-decisions + 1, decisions + 1]).T
         else:
-            decisions = np.ones(X.shape[0])
+            decisions = np.ones((X.shape[0], self.n_class))
         return decisions
 
     def fit(self, X, y=None, sample_domain=None):
@@ -169,7 +164,7 @@ class DASVMClassifier(DAEstimator):
 
         X_train = Xs
         y_train = ys
-        new_estimator = self.base_estimator
+        new_estimator = clone(self.base_estimator)
         new_estimator.fit(X_train, y_train)
 
         if self.save_estimators:
@@ -235,9 +230,6 @@ class DASVMClassifier(DAEstimator):
 
             decisions_target = self._get_decision(new_estimator, Xt, index_target_added)
 
-            if decisions_target.ndim > 1:
-                decisions_target_ = -np.abs(decisions_target - 1)
-
             self._find_points_next_step(
                 index_source_deleted,
                 decisions_source,
@@ -293,7 +285,7 @@ class DASVMClassifier(DAEstimator):
         `predict_proba` method from the estimator we fitted
         """
         check_is_fitted(self)
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def decision_function(self, X):
         """Return values of the decision function of the
-- 
2.43.0


From 26040e3e30e4bdf24836758c9218f6d5679a132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 34/80] fix: GradualEstimator leaves its base estimator and
 transport untouched and selects the documented pairs of the plan

---
 skada/_gradual_da.py | 99 +++++++++++++++++++++-----------------------
 1 file changed, 47 insertions(+), 52 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 81f19be..a9859d2 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -7,6 +7,7 @@ from copy import deepcopy
 
 import numpy as np
 from ot import da
+from sklearn.base import clone
 from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
@@ -27,8 +28,8 @@ class GradualEstimator(DAEstimator):
         Only used when `advanced_ot_plan_sampling=False`.
     n_steps : int, default=10
         The number of adaptation steps.
-    ot_method : ot.da.BaseTransport, default=SinkhornTransport
-        The Optimal Transport method to use.
+    ot_method : ot.da.BaseTransport, default=None
+        The Optimal Transport method to use. If None, a SinkhornTransport is used.
     base_estimator : BaseEstimator, default=None
         The classifier to use. If None, a MLPClassifier with default parameters is
         used. Note that the GOAT algorithm is designed for neural-networks methods.
@@ -66,13 +67,7 @@ class GradualEstimator(DAEstimator):
         self,
         alpha=1,
         n_steps=10,
-        ot_method=da.SinkhornTransport(
-            reg_e=1.0,
-            metric="sqeuclidean",
-            norm=None,
-            max_iter=1000,
-            tol=1e-8,
-        ),
+        ot_method=None,
         base_estimator=None,
         advanced_ot_plan_sampling=False,
         save_estimators=False,
@@ -108,14 +103,25 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
 
         # Compute the OT mapping between source and target
-        self.ot_method.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
-        gamma = self.ot_method.coupling_
+        if self.ot_method is None:
+            ot_method = da.SinkhornTransport(
+                reg_e=1.0,
+                metric="sqeuclidean",
+                norm=None,
+                max_iter=1000,
+                tol=1e-8,
+            )
+        else:
+            ot_method = deepcopy(self.ot_method)
+        ot_method.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
+        self.ot_method_ = ot_method
+        gamma = ot_method.coupling_
         if self.advanced_ot_plan_sampling:
             mask_gamma = self._advanced_cut_off_gamma(gamma)
         else:
             mask_gamma = self._cut_off_gamma(gamma)
         source = sample_domain >= 0
-        if not self.base_estimator:
+        if self.base_estimator is None:
             default_params = {
                 "hidden_layer_sizes": (100,),
                 "activation": "relu",
@@ -125,20 +131,24 @@ class GradualEstimator(DAEstimator):
                 "learning_rate_init": 0.001,
                 "max_iter": 100,
             }
-            self.base_estimator = MLPClassifier(**default_params)
-        self.base_estimator.fit(X[source], y[source])
+            self.base_estimator_ = MLPClassifier(**default_params)
+        else:
+            self.base_estimator_ = clone(self.base_estimator)
+        self.base_estimator_.fit(X[source], y[source])
         if self.save_estimators:
-            self.estimators_.append(deepcopy(self.base_estimator))
+            self.estimators_.append(deepcopy(self.base_estimator_))
         if self.save_intermediate_data:
             self.intermediate_data_ = []
         for step in range(1, self.n_steps + 1):
             X_step, y_step = self.generate_data_at_step(
                 X, sample_domain, mask_gamma, step
             )
-            self.base_estimator.max_iter += 100
-            self.base_estimator.fit(X_step, y_step)
+            # negative values mean that there is no limit
+            if getattr(self.base_estimator_, "max_iter", -1) > 0:
+                self.base_estimator_.max_iter += 100
+            self.base_estimator_.fit(X_step, y_step)
             if self.save_estimators:
-                self.estimators_.append(deepcopy(self.base_estimator))
+                self.estimators_.append(deepcopy(self.base_estimator_))
             if self.save_intermediate_data:
                 self.intermediate_data_.append((X_step, y_step))
         return self
@@ -146,11 +156,13 @@ class GradualEstimator(DAEstimator):
     def _cut_off_gamma(self, gamma):
         """Cut off the OT mapping to keep only the largest values."""
         n, m = gamma.shape
-        # Get the self.alpha * (n + m) largest coefficients of gamma
-        self.max_index = int(min(self.alpha * (n + m), gamma.size - 1))
-
-        threshold = np.sort(gamma.flatten())[-self.max_index - 1]
-        return gamma >= threshold
+        # Get the self.alpha * (n + m) largest coefficients of gamma,
+        # pairs that exchange no mass are never selected
+        n_points = min(max(int(self.alpha * (n + m)), 1), gamma.size)
+        order = np.argsort(-gamma, axis=None, kind="stable")[:n_points]
+        mask = np.zeros(gamma.size, dtype=bool)
+        mask[order] = True
+        return mask.reshape(n, m) & (gamma > 0)
 
     def _advanced_cut_off_gamma(self, gamma):
         """Cut off the OT mapping to keep at least one value per row and column."""
@@ -163,7 +175,6 @@ class GradualEstimator(DAEstimator):
         for j in range(m):
             col_max[np.argmax(gamma[:, j]), j] = True
         combined_mask = row_max | col_max
-        self.max_index = int(combined_mask.sum()) - 1
         return combined_mask
 
     def generate_data_at_step(self, X, sample_domain, mask_gamma, step):
@@ -192,13 +203,13 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
         X_source = X[source]
         X_target = X[target]
-        X_step = np.zeros((self.max_index + 1, X.shape[1]))
+        X_step = np.zeros((int(np.sum(mask_gamma)), X.shape[1]))
         for idx, (i, j) in enumerate(np.argwhere(mask_gamma)):
             X_step[idx] = (self.n_steps - step) * X_source[
                 i
             ] / self.n_steps + step * X_target[j] / self.n_steps
 
-        y_step = self.base_estimator.predict(
+        y_step = self.base_estimator_.predict(
             X_step
         )  # Use the classifier to predict labels
         return X_step, y_step
@@ -226,14 +237,10 @@ class GradualEstimator(DAEstimator):
         y_pred : array-like, shape (n_samples,)
             The predicted labels.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
         # Use the last classifier to predict
-        return self.base_estimator.predict(X, **kwargs)
+        return self.base_estimator_.predict(X, **kwargs)
 
     def predict_proba(self, X, **kwargs):
         """Predict class probabilities for the input data.
@@ -248,16 +255,12 @@ class GradualEstimator(DAEstimator):
         y_proba : array-like, shape (n_samples, n_classes)
             The predicted class probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
+        check_is_fitted(self, "base_estimator_")
 
-        else:
-            check_is_fitted(self.base_estimator)
-
-        if not hasattr(self.base_estimator, "predict_proba"):
+        if not hasattr(self.base_estimator_, "predict_proba"):
             raise ValueError("The underlying estimator does not support predict_proba.")
 
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def predict_log_proba(self, X, **kwargs):
         """Predict class log-probabilities for the input data.
@@ -272,18 +275,14 @@ class GradualEstimator(DAEstimator):
         y_log_proba : array-like, shape (n_samples, n_classes)
             The predicted class log-probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        if not hasattr(self.base_estimator, "predict_log_proba"):
+        if not hasattr(self.base_estimator_, "predict_log_proba"):
             raise ValueError(
                 "The underlying estimator does not support predict_log_proba."
             )
 
-        return self.base_estimator.predict_log_proba(X, **kwargs)
+        return self.base_estimator_.predict_log_proba(X, **kwargs)
 
     def score(self, X, y):
         """Compute the accuracy of the model on the given data.
@@ -300,10 +299,6 @@ class GradualEstimator(DAEstimator):
         score : float
             The accuracy of the model.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        return (self.base_estimator.predict(X) == y).sum() / len(y)
+        return (self.base_estimator_.predict(X) == y).sum() / len(y)
-- 
2.43.0


From 957e221f3c2eb92978b0fc8427d8e8a3db3bdf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 35/80] fix: PredictionEntropyScorer without reduction returns
 one entropy per sample

---
 skada/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 186018a..dbe929f 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -272,7 +272,7 @@ class PredictionEntropyScorer(_BaseDomainAwareScorer):
         entropy_per_sample = -proba * log_proba
         entropy_per_sample[infty_mask] = 0  # x*log(x) -> 0 as x -> 0
         if self.reduction == "none":
-            return self._sign * entropy_per_sample
+            return self._sign * np.sum(entropy_per_sample, axis=1)
         elif self.reduction == "sum":
             return self._sign * np.sum(entropy_per_sample)
         elif self.reduction == "mean":
-- 
2.43.0


From 7b1859c6998acfc197a2612573a9d838cda8da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:30 +0000
Subject: [PATCH 36/80] fix: DeepEmbeddedValidation weights each sample's error
 by its own weight

---
 skada/metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index dbe929f..8d25787 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -466,6 +466,7 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
 
         error = self._loss_func(y_val, y_pred)
         assert weights.shape[0] == error.shape[0]
+        error = error.reshape(weights.shape[0], -1)  # one row per sample, as weights
 
         weighted_error = weights * error
         weights_m = np.concatenate((weighted_error, weights), axis=1)
-- 
2.43.0


From f30ad32154efdcac15526b02413fb8fc9b8ca52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 37/80] fix: MaNoScorer normalizes the logits it received, not
 shifted ones

---
 skada/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 8d25787..30cc9a5 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -917,7 +917,7 @@ class MaNoScorer(_BaseDomainAwareScorer):
     @staticmethod
     def _stable_softmax(logits):
         """Compute softmax function."""
-        logits -= np.max(logits, axis=1, keepdims=True)
+        logits = logits - np.max(logits, axis=1, keepdims=True)
         exp_logits = np.exp(logits)
         exp_logits /= np.sum(exp_logits, axis=1, keepdims=True)
         return exp_logits
-- 
2.43.0


From 7d85b19c178cbd2a05b89d1a04f549dd3bce5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 38/80] fix: CircularValidation swaps the roles of a source
 domain labeled 0

---
 skada/metrics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index 30cc9a5..6ef0c6d 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -625,6 +625,10 @@ class CircularValidation(_BaseDomainAwareScorer):
                 y_pred_target = le.transform(y_pred_target)
 
             backward_sample_domain = -sample_domain
+            # domain 0 is a source as well, its opposite has to be a target
+            backward_sample_domain[sample_domain == 0] = (
+                -np.max(np.abs(sample_domain)) - 1
+            )
 
             backward_y = np.zeros_like(y)
             backward_y[~source_idx] = y_pred_target
-- 
2.43.0


From dbe6f52466d476e62ba2b841acbc1fd7054b06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 39/80] fix: CircularValidation accepts class labels stored as
 floats

---
 skada/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 6ef0c6d..5e81ff1 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -645,7 +645,7 @@ class CircularValidation(_BaseDomainAwareScorer):
 
             if y_type == Y_Type.DISCRETE:
                 # We go back to the original labels
-                y_pred_source = le.inverse_transform(y_pred_source)
+                y_pred_source = le.inverse_transform(y_pred_source.astype(int))
 
             # We can now compute the score
             score = self.source_scorer(y[source_idx], y_pred_source)
-- 
2.43.0


From 6a54d28a99a8a048aa5601ddf89abc34bcad5c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 40/80] fix: reweighting adapters accept estimators without a
 truth value (unfitted ensembles)

---
 skada/_reweight.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 24eefd8..4497e8c 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -95,7 +95,9 @@ class DensityReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, weight_estimator=None):
         super().__init__()
-        self.weight_estimator = weight_estimator or KernelDensity()
+        if weight_estimator is None:
+            weight_estimator = KernelDensity()
+        self.weight_estimator = weight_estimator
 
     def fit(self, X, y=None, *, sample_domain=None):
         """Fit adaptation parameters.
@@ -319,7 +321,10 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, domain_classifier=None):
         super().__init__()
-        self.domain_classifier = domain_classifier or LogisticRegression()
+        # explicit comparison: unfitted ensembles have no truth value
+        if domain_classifier is None:
+            domain_classifier = LogisticRegression()
+        self.domain_classifier = domain_classifier
 
     def fit(self, X, y=None, sample_domain=None):
         """Fit adaptation parameters.
-- 
2.43.0


From 79065466cc83847052b344fb7ddd963989ad1fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:15 +0000
Subject: [PATCH 41/80] fix: DeepDADataset accepts one integer domain for all
 samples, as documented

---
 skada/deep/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 2162556..1add294 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -6,6 +6,7 @@
 #
 # License: BSD 3-Clause
 
+import numbers
 from abc import abstractmethod
 from typing import Dict, Any, Union
 
@@ -1041,10 +1042,12 @@ class DeepDADataset(Dataset):
         self._initialize(X, y, sample_domain, sample_weight)
 
     def _initialize(self, X: torch.Tensor, y, sample_domain, sample_weight):
-        if sample_domain is None or len(sample_domain) == 0:
+        if sample_domain is None or (
+            not isinstance(sample_domain, numbers.Integral) and len(sample_domain) == 0
+        ):
             sample_domain = _DEFAULT_SAMPLE_DOMAIN_
-        if isinstance(sample_domain, int):
-            sample_domain = torch.full((X.shape[0],), sample_domain)
+        if isinstance(sample_domain, numbers.Integral):
+            sample_domain = torch.full((X.shape[0],), int(sample_domain))
         else:
             sample_domain = check_array(
                 sample_domain,
-- 
2.43.0


From f8bcec3bfe0350d7f2a59a6b5bf16b1ab545473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:59 +0000
Subject: [PATCH 42/80] fix: DeepDADataset.merge in place renumbers the samples
 of each domain

---
 skada/deep/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 1add294..03c2129 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1145,6 +1145,7 @@ class DeepDADataset(Dataset):
                     f"no label, it must be represented by {_NO_LABEL_}) and, "
                     "optionally, a weight."
                 )
+                self._sample_idx = self._infer_sample_idx()
         else:
             raise TypeError("Can only merge two instances of DeepDADataset")
 
-- 
2.43.0


From 7eefc66d7e83e64fcd77c9eb8198a987176f2a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 43/80] fix: selecting on absent weights of a DeepDADataset
 raises a clear ValueError

---
 skada/deep/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 03c2129..57b2b68 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1332,8 +1332,9 @@ class DeepDADataset(Dataset):
         elif on == "sample_domain":
             mask = condition(self.sample_domain)
         elif on == "sample_weight":
-            if self.has_weights:
-                mask = condition(self.sample_weight)
+            if not self.has_weights:
+                raise ValueError("The dataset has no sample weights to select on.")
+            mask = condition(self.sample_weight)
         else:
             raise ValueError(
                 "'on' argument must be one of "
-- 
2.43.0


From d65dad645ecc42390abb7ef342279a351248458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 44/80] fix: weight exactly the rows of the supervised loss in
 deep nets

---
 skada/deep/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 57b2b68..189c928 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -887,7 +887,11 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
 
         if "sample_weight" in X and X["sample_weight"] is not None:
             sample_weight = to_tensor(X["sample_weight"], device=self.device)
-            sample_weight = sample_weight[X["sample_domain"] > 0]
+            sample_domain = to_tensor(X["sample_domain"], device=self.device)
+            if getattr(self.criterion_, "train_on_target", False):
+                sample_weight = sample_weight[sample_domain < 0]
+            else:
+                sample_weight = sample_weight[sample_domain >= 0]
             if loss.dim() == 0 and len(sample_weight) > 1:
                 raise ValueError(
                     "You are using a criterion function that returns a scalar loss value, but sample weights are provided."
-- 
2.43.0


From f25b27fb9bd8cc8265c6188ad9c8d59ee7463c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 45/80] fix: memory bank keeps a moving average of features and
 outputs

---
 skada/deep/callbacks.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 9fc7e6b..70d94ef 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -158,13 +158,15 @@ class MemoryBank(Callback):
 
             new_memory_features = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_features[batch_idx]
-            +self.momentum * features_t.clone()
+            ) * net.criterion__adapt_criterion.memory_features[
+                batch_idx
+            ] + self.momentum * features_t.clone()
 
             new_memory_outputs = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_outputs[batch_idx]
-            +self.momentum * outputs_target.clone()
+            ) * net.criterion__adapt_criterion.memory_outputs[
+                batch_idx
+            ] + self.momentum * outputs_target.clone()
 
         net.criterion__adapt_criterion.memory_features[batch_idx] = new_memory_features
         net.criterion__adapt_criterion.memory_outputs[batch_idx] = new_memory_outputs
-- 
2.43.0


From bfcdaad38fc62f2ccc259546a19f321b37778874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:20 +0000
Subject: [PATCH 46/80] fix: restart the SPA epoch count at the beginning of
 every training

---
 skada/deep/callbacks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 70d94ef..ea5cc24 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -175,9 +175,9 @@ class MemoryBank(Callback):
 class CountEpochs(Callback):
     """Callback to count the number of epochs."""
 
-    def on_train_begin(self, *args, **kwargs):
+    def on_train_begin(self, net, *args, **kwargs):
         """Initialize the epoch counter."""
-        self.n_epochs = 0
+        net.criterion__adapt_criterion.n_epochs = 0
 
     def on_epoch_begin(self, net, **kwargs):
         """Increment the number of epochs."""
-- 
2.43.0


From 969483fc3b98c3ca534b36560e477c37ab299886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 47/80] fix: do not modify the list of callbacks given to CAN
 and SPA

---
 skada/deep/_divergence.py      | 2 +-
 skada/deep/_graph_alignment.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/skada/deep/_divergence.py b/skada/deep/_divergence.py
index c2fd04d..5860149 100644
--- a/skada/deep/_divergence.py
+++ b/skada/deep/_divergence.py
@@ -297,7 +297,7 @@ def CAN(
         callbacks = [ComputeSourceCentroids()]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(ComputeSourceCentroids())
+            callbacks = callbacks + [ComputeSourceCentroids()]
         else:
             callbacks = [callbacks, ComputeSourceCentroids()]
 
diff --git a/skada/deep/_graph_alignment.py b/skada/deep/_graph_alignment.py
index 1dcd463..73dc089 100644
--- a/skada/deep/_graph_alignment.py
+++ b/skada/deep/_graph_alignment.py
@@ -204,8 +204,7 @@ def SPA(
         ]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(MemoryBank())
-            callbacks.append(CountEpochs())
+            callbacks = callbacks + [MemoryBank(), CountEpochs()]
         else:
             callbacks = [
                 callbacks,
-- 
2.43.0


From b35cf0114f43be5c889d85fdf3bf3fdb1014c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 48/80] fix: single output domain classifier was constant under
 softmax

---
 skada/deep/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/modules.py b/skada/deep/modules.py
index 3563d1a..10b5523 100644
--- a/skada/deep/modules.py
+++ b/skada/deep/modules.py
@@ -178,7 +178,7 @@ class DomainClassifier(nn.Module):
             nn.BatchNorm1d(100),
             nn.ReLU(),
             nn.Linear(100, n_classes),
-            nn.Softmax(),
+            nn.Sigmoid() if n_classes == 1 else nn.Softmax(dim=-1),
         )
         self.alpha = alpha
 
-- 
2.43.0


From 14a0fa927fcbb0720094acc8bd07ad4e0b60c647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 49/80] fix: modified cross entropy uses each row's own target
 class

---
 skada/deep/_adversarial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 88d462b..dfc3156 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -411,7 +411,7 @@ class ModifiedCrossEntropyLoss(torch.nn.Module):
         smooth_prob = (1 - self.smoothing) * prob + self.smoothing / num_classes
 
         # Gather probabilities of the target classes
-        target_prob = smooth_prob[..., target]
+        target_prob = smooth_prob.gather(-1, target.unsqueeze(-1)).squeeze(-1)
 
         # Compute log(1 - probability) for the target class
         log_one_minus_prob = torch.log(1 - target_prob)
-- 
2.43.0


From 7511b08ecc79b1d75ae59d8bdbd10348c3bfc9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 50/80] fix: check_generator no longer reseeds the global
 generator

---
 skada/deep/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index bc39d66..8a8cd37 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -52,9 +52,9 @@ def check_generator(seed):
         The generator object based on `seed` parameter.
     """
     if seed is None or seed is torch.random:
-        return torch.random.manual_seed(torch.Generator().seed())
+        return torch.random.default_generator
     if isinstance(seed, numbers.Integral):
-        return torch.random.manual_seed(seed)
+        return torch.Generator().manual_seed(int(seed))
     if isinstance(seed, torch.Generator):
         return seed
     raise ValueError(
-- 
2.43.0


From 3987f6787661f10396329428ad1f94a8d4a90aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 51/80] fix: SphericalKMeans honours random_state

---
 skada/deep/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 8a8cd37..5a4d5ca 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -160,11 +160,12 @@ class SphericalKMeans(BaseEstimator):
         self.random_state = random_state
         self.device = device
 
-    def _init_centroids(self, X):
+    def _init_centroids(self, X, generator=None):
         with torch.no_grad():
             # Randomly initialize centroids
             n_samples = X.shape[0]
-            indices = torch.randperm(n_samples, device=self.device)[:self.n_clusters]
+            indices = torch.randperm(n_samples, generator=generator)[:self.n_clusters]
+            indices = indices.to(self.device)
             centroids = X[indices]
             return centroids / torch.norm(centroids, dim=1, keepdim=True)
 
@@ -198,8 +199,9 @@ class SphericalKMeans(BaseEstimator):
             best_n_iter = None
 
             if self.initial_centroids is None:
+                generator = check_generator(self.random_state)
                 for _ in range(self.n_init):
-                    initial_centroids = self._init_centroids(X)
+                    initial_centroids = self._init_centroids(X, generator)
                     inertia, centroids, n_iter = self._run_single_kmean(X, initial_centroids)
 
                     if best_inertia is None or inertia < best_inertia:
-- 
2.43.0


From c3b1d3971efe0b24e618d506bf868b9b3d648e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 52/80] fix: deep score compares each target prediction with
 its own label

---
 skada/deep/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 189c928..5604513 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -699,8 +699,16 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
             The mean accuracy score.
         """
         X = self._prepare_input(X, y, sample_domain, sample_weight)
+        y = to_numpy(X.y) if y is None else np.asarray(y)
+        if sample_weight is not None:
+            sample_weight = np.asarray(sample_weight)
         if not allow_source:
+            is_target = to_numpy(X.sample_domain) < 0
             X = X.select_target()
+            if len(y) == len(is_target):
+                y = y[is_target]
+            if sample_weight is not None and len(sample_weight) == len(is_target):
+                sample_weight = sample_weight[is_target]
 
         return accuracy_score(
             y,
-- 
2.43.0


From 8a304a0be4e301cf9320244a81aead14df308aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 53/80] fix: deepjdot_loss accepts batches of different sizes

---
 skada/deep/losses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 98c70c4..d865423 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -105,12 +105,12 @@ def deepjdot_loss(
     """
     dist = torch.cdist(features_s, features_t, p=2) ** 2
 
-    y_target_matrix = y_pred_t.repeat(len(y_pred_t), 1, 1).permute(1, 2, 0)
+    y_target_matrix = y_pred_t.repeat(len(y_s), 1, 1).permute(1, 2, 0)
 
     if criterion is None:
         criterion = torch.nn.CrossEntropyLoss(reduction="none")
 
-    loss_target = criterion(y_target_matrix, y_s.repeat(len(y_s), 1)).T
+    loss_target = criterion(y_target_matrix, y_s.repeat(len(y_pred_t), 1)).T
     M = reg_dist * dist + reg_cl * loss_target
 
     # Compute the loss
-- 
2.43.0


From 4e1e8bd493d345eb7aa750bd0c8dab6d5e231f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 54/80] fix: nap_loss excludes only each sample's own memory
 entry

---
 skada/deep/losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index d865423..42dc9e6 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -499,7 +499,7 @@ def nap_loss(features_t, y_pred_t, memory_features, memory_outputs, sample_idx_t
         The number of nearest neighbors.
     """
     dis = torch.cdist(features_t.detach(), memory_features, p=2) ** 2
-    dis[..., sample_idx_t] = float("+inf")
+    dis[torch.arange(len(dis), device=dis.device), sample_idx_t] = float("+inf")
 
     # Get top-K neighbors
     _, top_k_indices = torch.topk(-dis, k=K, dim=1)
-- 
2.43.0


From 8224e3196ae50d1d5a8e9ccf8c3de46e36f3c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 55/80] fix: cdd_loss averages the kernel over the pairs of
 each class

---
 skada/deep/losses.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 42dc9e6..9848dca 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -240,21 +240,20 @@ def cdd_loss(
            In Proceedings of the IEEE/CVF Conference on Computer Vision
            and Pattern Recognition (pp. 4893-4902).
     """
-    n_classes = len(y_s.unique())
-
     # Use pre-computed target_kmeans
     if type(target_kmeans) is not SphericalKMeans:
         raise ValueError(
             "cdd_loss: Please ensure `target_kmeans` is initialized before proceeding."
             "A fitted SphericalKMeans should be provided."
         )
+    n_classes = len(target_kmeans.cluster_centers_)
 
     # Predict clusters for target samples
     cluster_labels_t = target_kmeans.predict(features_t)
 
     # Discard ambiguous target samples
     similarities = F.cosine_similarity(
-        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0)
+        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0), dim=2
     )
     mask_t = 0.5 * (1 - similarities.max(dim=1)[0]) < distance_threshold
     features_t = features_t[mask_t]
@@ -284,40 +283,40 @@ def cdd_loss(
     intraclass = 0
     interclass = 0
     for c1 in range(n_classes):
-        for c2 in range(c1, n_classes):
+        for c2 in range(n_classes):
             if valid_classes[c1] and valid_classes[c2]:
                 # Compute e1
                 kernel_ss = _gaussian_kernel(features_s, features_s, sigmas)
-                mask_c1_c1 = (y_s == c1).float()
+                mask_c1 = (y_s == c1).float()
+                mask_c1_c1 = mask_c1.unsqueeze(1) * mask_c1.unsqueeze(0)
 
                 # e1 measure the intra-class domain discrepancy
                 # Thus if mask_c1_c1.sum() = 0 --> e1 = 0
                 if mask_c1_c1.sum() > 0:
-                    e1 = (kernel_ss * mask_c1_c1).sum() / (mask_c1_c1.sum() ** 2)
+                    e1 = (kernel_ss * mask_c1_c1).sum() / mask_c1_c1.sum()
                 else:
                     e1 = 0
 
                 # Compute e2
                 kernel_tt = _gaussian_kernel(features_t, features_t, sigmas)
-                mask_c2_c2 = (cluster_labels_t == c2).float()
+                mask_c2 = (cluster_labels_t == c2).float()
+                mask_c2_c2 = mask_c2.unsqueeze(1) * mask_c2.unsqueeze(0)
 
                 # e2 measure the intra-class domain discrepancy
                 # Thus if mask_c2_c2.sum() = 0 --> e2 = 0
                 if mask_c2_c2.sum() > 0:
-                    e2 = (kernel_tt * mask_c2_c2).sum() / (mask_c2_c2.sum() ** 2)
+                    e2 = (kernel_tt * mask_c2_c2).sum() / mask_c2_c2.sum()
                 else:
                     e2 = 0
 
                 # Compute e3
                 kernel_st = _gaussian_kernel(features_s, features_t, sigmas)
-                mask_c1 = (y_s == c1).float().unsqueeze(1)
-                mask_c2 = (cluster_labels_t == c2).float().unsqueeze(0)
-                mask_c1_c2 = mask_c1 * mask_c2
+                mask_c1_c2 = mask_c1.unsqueeze(1) * mask_c2.unsqueeze(0)
 
                 # e3 measure the inter-class domain discrepancy
                 # Thus if mask_c1_c2.sum() = 0 --> e3 = 0
                 if mask_c1_c2.sum() > 0:
-                    e3 = (kernel_st * mask_c1_c2).sum() / (mask_c1_c2.sum() ** 2)
+                    e3 = (kernel_st * mask_c1_c2).sum() / mask_c1_c2.sum()
                 else:
                     e3 = 0
 
-- 
2.43.0


From 3c42439248a4163da88bd7bf284172c46b79b9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 56/80] fix: cloning a CDAN module keeps max_features and
 random_state

---
 skada/deep/_adversarial.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index dfc3156..d7f9a77 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -241,6 +241,12 @@ class CDANModule(DomainAwareModule):
         self.max_features = max_features
         self.random_state = random_state
 
+    def get_params(self, deep=True):
+        params = super().get_params(deep=deep)
+        params["max_features"] = self.max_features
+        params["random_state"] = self.random_state
+        return params
+
     def forward(
         self,
         X,
-- 
2.43.0


From 846c2bb97e1b2356dff7d6abcf62b4c29a333844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 57/80] fix: deep modules without sample_weight argument can
 predict

---
 skada/deep/base.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 5604513..60df42c 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -437,12 +437,12 @@ class DomainAwareModule(torch.nn.Module):
         return_features=False,
         sample_idx=None,
     ):
-        if is_fit:
-            if sample_weight is not None:
-                y_pred = self.base_module_(X, sample_weight=sample_weight)
-            else:
-                y_pred = self.base_module_(X)
+        if sample_weight is not None:
+            y_pred = self.base_module_(X, sample_weight=sample_weight)
+        else:
+            y_pred = self.base_module_(X)
 
+        if is_fit:
             if self.layer_name is not None:
                 features = self.intermediate_layers[self.layer_name]
             else:
@@ -456,12 +456,9 @@ class DomainAwareModule(torch.nn.Module):
             return (y_pred, domain_pred, features, sample_domain, sample_idx)
         else:
             if return_features:
-                return (
-                    self.base_module_(X, sample_weight=sample_weight),
-                    self.intermediate_layers[self.layer_name],
-                )
+                return y_pred, self.intermediate_layers[self.layer_name]
             else:
-                return self.base_module_(X, sample_weight=sample_weight)
+                return y_pred
 
 
 class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
-- 
2.43.0


From f185bd97fcded952369cf80b0a277718899625b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 58/80] fix: CDAN modules accept sample weights

---
 skada/deep/_adversarial.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index d7f9a77..98dec7a 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -251,13 +251,17 @@ class CDANModule(DomainAwareModule):
         self,
         X,
         sample_domain=None,
-        sample_idx=None,
+        sample_weight=None,
         is_fit=False,
         return_features=False,
+        sample_idx=None,
     ):
-        if is_fit:
-            # predict
+        if sample_weight is not None:
+            y_pred = self.base_module_(X, sample_weight=sample_weight)
+        else:
             y_pred = self.base_module_(X)
+
+        if is_fit:
             features = self.intermediate_layers[self.layer_name]
 
             n_classes = y_pred.shape[1]
@@ -290,9 +294,9 @@ class CDANModule(DomainAwareModule):
             )
         else:
             if return_features:
-                return self.base_module_(X), self.intermediate_layers[self.layer_name]
+                return y_pred, self.intermediate_layers[self.layer_name]
             else:
-                return self.base_module_(X)
+                return y_pred
 
 
 def CDAN(
-- 
2.43.0


From 6ee12832ad330d7d536ddb61e880450d537401ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 59/80] fix: deep nets accept predict_nonlinearity=None

---
 skada/deep/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 60df42c..e6d76ab 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -22,7 +22,7 @@ from skada.base import _DAMetadataRequesterMixin
 from sklearn.utils.validation import check_array
 
 import numpy as np
-from skorch.utils import to_device
+from skorch.utils import _identity, to_device
 from skorch.utils import to_numpy, to_tensor
 from skorch.dataset import unpack_data, Dataset
 from collections.abc import Mapping
-- 
2.43.0


From 4aa93429c10b7f84cdcd923e76f81556f20a7d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 60/80] fix: fitted deep nets can be cloned and copied

---
 skada/deep/base.py  | 4 ++--
 skada/deep/utils.py | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index e6d76ab..472be50 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -16,7 +16,7 @@ from sklearn.base import _clone_parametrized
 from sklearn.metrics import accuracy_score
 from skorch import NeuralNetClassifier
 
-from .utils import _register_forwards_hook, _infer_predict_nonlinearity
+from .utils import LayerOutputs, _register_forwards_hook, _infer_predict_nonlinearity
 
 from skada.base import _DAMetadataRequesterMixin
 from sklearn.utils.validation import check_array
@@ -408,7 +408,7 @@ class DomainAwareModule(torch.nn.Module):
         self.base_module_ = base_module
         self.domain_classifier_ = domain_classifier
         self.layer_name = layer_name
-        self.intermediate_layers = {}
+        self.intermediate_layers = LayerOutputs()
         self._setup_hooks()
     
     def _setup_hooks(self):
diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 5a4d5ca..1ba818f 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -14,6 +14,13 @@ from torch.nn.functional import cosine_similarity
 from sklearn.utils.validation import check_is_fitted
 
 
+class LayerOutputs(dict):
+    """Outputs of the last forward pass, left out of copies and pickles."""
+
+    def __reduce__(self):
+        return LayerOutputs, ()
+
+
 class IntermediateLayerHook:
     def __init__(self, intermediate_layers, layer_name):
         self.intermediate_layers = intermediate_layers
-- 
2.43.0


From f9bf82fb1f4753ee78e3170714564713b1a4fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 61/80] fix: spherical k-means accepts samples with all-zero
 features

---
 skada/deep/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 1ba818f..c8c3891 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -10,7 +10,7 @@ from sklearn.base import BaseEstimator
 from skorch.utils import _identity
 import torch
 from torch.nn import CrossEntropyLoss
-from torch.nn.functional import cosine_similarity
+from torch.nn.functional import cosine_similarity, normalize
 from sklearn.utils.validation import check_is_fitted
 
 
@@ -174,7 +174,7 @@ class SphericalKMeans(BaseEstimator):
             indices = torch.randperm(n_samples, generator=generator)[:self.n_clusters]
             indices = indices.to(self.device)
             centroids = X[indices]
-            return centroids / torch.norm(centroids, dim=1, keepdim=True)
+            return normalize(centroids, dim=1)
 
     def fit(self, X, y=None):
         """Compute spherical k-means clustering.
@@ -199,7 +199,7 @@ class SphericalKMeans(BaseEstimator):
                 X = X.to(self.device)
 
             # Normalize X
-            X = X / torch.norm(X, dim=1, keepdim=True)
+            X = normalize(X, dim=1)
 
             best_inertia = None
             best_centroids = None
-- 
2.43.0


From 50d35d3240a7284dd3876f0d7dbfcf21c8fb46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 62/80] fix: dataset generators accept a RandomState instance

---
 skada/datasets/_samples_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index fc3d272..3ff507d 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -12,6 +12,7 @@ from scipy import signal
 from scipy.fftpack import irfft, rfft
 from scipy.stats import multivariate_normal
 from sklearn.datasets import make_blobs
+from sklearn.utils import check_random_state
 
 from ._base import DomainAwareDataset
 
@@ -339,7 +340,7 @@ def make_shifted_blobs(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     X_source, y_source = make_blobs(
         n_samples=n_samples,
@@ -491,7 +492,7 @@ def make_shifted_datasets(
             A unifying view on dataset shift in classification.
             Pattern recognition, 45(1):521-530.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     X_source, y_source = _generate_data_2d_classif(
         n_samples_source,
         rng,
@@ -680,7 +681,7 @@ def make_dataset_from_moons_distribution(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     dataset = DomainAwareDataset(domains=[])
     sources = []
@@ -814,7 +815,7 @@ def make_variable_frequency_dataset(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     input_size = 3000
     fs = 100
     highest_frequency = 15
-- 
2.43.0


From 117a06370417ffbad7fe430256a95e957a8fc611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 63/80] fix: multiclass subspace labels follow the clusters for
 odd sizes

---
 skada/datasets/_samples_generator.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index 3ff507d..a9b2341 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -177,10 +177,8 @@ def _generate_data_2d_classif_subspace(
         y = y.astype(int)
     elif label == "multiclass":
         k = 4
-        y = np.zeros(n1 + n1 % k)
-        for i in range(k):
-            y = np.concatenate((y, (i + 1) * np.ones(n1 // k)), 0)
-            y = y.astype(int)
+        y = np.concatenate((np.zeros(n1), 1 + np.arange(n1) * k // n1), 0)
+        y = y.astype(int)
     elif label == "regression":
         # create label y with gaussian distribution
         normal_rv = multivariate_normal(mu_regression, sigma_regression)
-- 
2.43.0


From e1c5e967933b88c845f0d8da7d55d5dc607ebbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 64/80] fix: variable frequency dataset weights channels, not
 time samples

---
 skada/datasets/_samples_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index a9b2341..5787528 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -258,8 +258,8 @@ def _generate_signal_with_peak_frequency(
                 X_filtered = signal.sosfilt(sos, X_random[i])
 
                 for j in range(n_channels):
-                    X_fft = rfft(X_filtered[:, j])
-                    X_filtered[:, j] = irfft(X_fft * channel_weights[j])
+                    X_fft = rfft(X_filtered[j])
+                    X_filtered[j] = irfft(X_fft * channel_weights[j])
                 X_new[i] += X_filtered
         X.append(X_new)
         y.append([n_class for _ in range(n_samples)])
-- 
2.43.0


From 92f41777d3115d1e4e3fc6f59737294001531a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 65/80] fix: scalar regression parameters are accepted for the
 subspace shift

---
 skada/datasets/_samples_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index 5787528..dd8701d 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -497,7 +497,8 @@ def make_shifted_datasets(
         mu_regression,
         sigma_regression,
         regression_scaling_constant,
-        label,
+        # the subspace data are drawn below, with their own (scalar) parameters
+        label if shift != "subspace" else "binary",
     )
 
     if shift == "covariate_shift":
-- 
2.43.0


From 5d79a1569e70ee40f538f0077a180080a6f60110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 66/80] fix: an interrupted Office-31 download is started again
 by the next call

---
 skada/datasets/_base.py   | 31 +++++++++++++++++++++++++++++++
 skada/datasets/_office.py | 12 ++++++------
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 5e1be13..c99165b 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -4,6 +4,7 @@
 # License: BSD 3-Clause
 
 import os
+import tempfile
 import warnings
 from functools import reduce
 from typing import Dict, Iterable, List, Literal, Mapping, Optional, Tuple, Union
@@ -81,6 +82,36 @@ def get_data_home(data_home: Union[str, os.PathLike, None]) -> str:
     return data_home
 
 
+def _install_dataset(dataset_dir, download, extract_root=False):
+    """Download and extract a dataset so that `dataset_dir` is never incomplete.
+
+    Everything happens in a temporary folder next to `dataset_dir`, which is
+    moved in place once complete. An interrupted download leaves no
+    `dataset_dir` behind, thus it is started again by the next call.
+
+    Parameters
+    ----------
+    dataset_dir : str
+        The folder to create.
+    download : callable
+        Function called with the folder to download to and the folder to
+        extract to.
+    extract_root : bool, default=False
+        Whether the name of the folder is part of the archive.
+    """
+    data_home, name = os.path.split(dataset_dir)
+    with tempfile.TemporaryDirectory(prefix=f"{name}.part_", dir=data_home) as tmp_dir:
+        extract_dir = os.path.join(tmp_dir, name)
+        os.makedirs(extract_dir)
+        download(tmp_dir, tmp_dir if extract_root else extract_dir)
+        try:
+            os.rename(extract_dir, dataset_dir)
+        except OSError:
+            # fine if the dataset was installed by another process meanwhile
+            if not os.path.exists(dataset_dir):
+                raise
+
+
 def _default_mask(labels):
     """Return the masked label: `nan` if any of the labels is continuous, else -1."""
     for y in (y[0] for y in labels if len(y) > 0):
diff --git a/skada/datasets/_office.py b/skada/datasets/_office.py
index fb44322..a011a10 100644
--- a/skada/datasets/_office.py
+++ b/skada/datasets/_office.py
@@ -11,6 +11,7 @@ import time
 import warnings
 from collections import namedtuple
 from enum import Enum
+from functools import partial
 from pathlib import Path
 from typing import Callable, List, Optional, Tuple, Union
 
@@ -21,7 +22,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _install_dataset, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -403,13 +404,12 @@ def _fetch_office31(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
         # juggling with `extract_root` is only required because SURF features
         # were archived with root folder and DECAF without it
-        _download_office31(
-            loader_spec.remote,
-            data_home,
-            data_home if loader_spec.extract_root else dataset_dir,
+        _install_dataset(
+            dataset_dir,
+            partial(_download_office31, loader_spec.remote),
+            extract_root=loader_spec.extract_root,
         )
     if categories == Office31CategoriesPreset.ALL:
         # reset categories filter
-- 
2.43.0


From 78439809dc8eb9b6ca235ba53c2b5b4eb76c8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 67/80] fix: interrupted Office-Home and Amazon downloads are
 started again by the next call

---
 skada/datasets/_amazon_review.py |  9 ++++-----
 skada/datasets/_office_home.py   | 15 ++++++---------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/skada/datasets/_amazon_review.py b/skada/datasets/_amazon_review.py
index feacd66..4aab505 100644
--- a/skada/datasets/_amazon_review.py
+++ b/skada/datasets/_amazon_review.py
@@ -7,6 +7,7 @@ import time
 import zipfile
 from collections import namedtuple
 from enum import Enum
+from functools import partial
 from pathlib import Path
 from typing import Callable, Tuple, Union
 
@@ -16,7 +17,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger, _shuffle_arrays
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _install_dataset, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -205,11 +206,9 @@ def _fetch_amazon_review(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_amazon_review(
-            loader_spec.remote,
-            data_home,
+        _install_dataset(
             dataset_dir,
+            partial(_download_amazon_review, loader_spec.remote),
         )
 
     (X, y) = _load_amazon_review(
diff --git a/skada/datasets/_office_home.py b/skada/datasets/_office_home.py
index 38f1290..830a5c3 100644
--- a/skada/datasets/_office_home.py
+++ b/skada/datasets/_office_home.py
@@ -9,6 +9,7 @@ import time
 import zipfile
 from collections import namedtuple
 from enum import Enum
+from functools import partial
 from pathlib import Path
 from typing import Tuple, Union
 
@@ -17,7 +18,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger, _shuffle_arrays
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _install_dataset, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -187,11 +188,9 @@ def _fetch_office_home_all(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
+        _install_dataset(
             dataset_dir,
+            partial(_download_office_home, loader_spec.remote),
         )
 
     (X, y, domains) = _load_office_home_all(
@@ -225,11 +224,9 @@ def _fetch_office_home(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
+        _install_dataset(
             dataset_dir,
+            partial(_download_office_home, loader_spec.remote),
         )
 
     (X, y) = _load_office_home(
-- 
2.43.0


From dd6b9e80ed604fce56faa1be8c5ff687f4ebf9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 68/80] fix: Office-31 filenames match the loaded samples

---
 skada/datasets/_office.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/datasets/_office.py b/skada/datasets/_office.py
index a011a10..feefcfd 100644
--- a/skada/datasets/_office.py
+++ b/skada/datasets/_office.py
@@ -470,6 +470,7 @@ def _load_office31(
             data.append(content.astype(loader_spec.dtype))
     files["data"] = np.vstack(data)
     files["target"] = files["target"][np.array(indices)]
+    files["filenames"] = files["filenames"][np.array(indices)]
 
     files["X"] = files.pop("data")
     files["y"] = files.pop("target")
-- 
2.43.0


From 34fe1f2b262468c720a905796ad7d933303009ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 69/80] fix: MNIST-USPS subset does not repeat samples

---
 skada/datasets/_mnist_usps.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_mnist_usps.py b/skada/datasets/_mnist_usps.py
index 7d00641..8d80307 100644
--- a/skada/datasets/_mnist_usps.py
+++ b/skada/datasets/_mnist_usps.py
@@ -75,8 +75,7 @@ def load_mnist_usps(
     mnist_target = mnist_target[mnist_target < n_classes]
 
     selected_samples = rng.choice(
-        np.linspace(0, len(mnist_data) - 1, len(mnist_data)),
-        int(n_samples * len(mnist_data)),
+        len(mnist_data), int(n_samples * len(mnist_data)), replace=False
     )
     mnist_data = mnist_data[selected_samples]
     mnist_target = mnist_target[selected_samples]
@@ -101,8 +100,7 @@ def load_mnist_usps(
     usps_target = usps_target[usps_target < n_classes]
 
     selected_samples = rng.choice(
-        np.linspace(0, len(usps_data) - 1, len(usps_data)),
-        int(n_samples * len(usps_data)),
+        len(usps_data), int(n_samples * len(usps_data)), replace=False
     )
     usps_data = usps_data[selected_samples]
     usps_target = usps_target[selected_samples]
-- 
2.43.0


From 1b12743f944934d266042a6dd8d27a162445e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 70/80] fix: MNIST-USPS loader accepts a RandomState instance

---
 skada/datasets/_mnist_usps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/datasets/_mnist_usps.py b/skada/datasets/_mnist_usps.py
index 8d80307..6254794 100644
--- a/skada/datasets/_mnist_usps.py
+++ b/skada/datasets/_mnist_usps.py
@@ -11,6 +11,7 @@ except ImportError:
     torchvision = False
 
 import numpy as np
+from sklearn.utils import check_random_state
 
 from skada.datasets import DomainAwareDataset
 
@@ -54,7 +55,7 @@ def load_mnist_usps(
     if n_samples < 0 or n_samples > 1:
         raise ValueError("n_samples should be between 0 and 1.")
 
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     transform = transforms.Compose(
         [
-- 
2.43.0


From 06237a948ec6106289e706682cc223445069703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:18 +0000
Subject: [PATCH 71/80] fix: metadata requested under an alias reaches
 intermediate steps

Non-final transformers received the metadata under the name of the alias
rather than of their parameter, failing with an unexpected keyword argument.
---
 skada/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index f7dc8aa..2fd4346 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -353,7 +353,13 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
                 # re-raise exception if the problem was not caused by the adapter
                 raise e
         else:
-            routed_params = {k: params[k] for k in routing_request._consumes(params=params)}
+            routed_params = {}
+            for k, alias in routing_request.requests.items():
+                if alias is True and k in params:
+                    routed_params[k] = params[k]
+                elif isinstance(alias, str) and alias in params:
+                    # requested under a different name
+                    routed_params[k] = params[alias]
         return routed_params
 
     def _auto_mask_target_labels(self, y, routed_params):
-- 
2.43.0


From 2f5d478af466ac1e7d2ed6cb5fcb4452644b7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:04 +0000
Subject: [PATCH 72/80] fix: metadata requested under an alias for transform is
 not lost while fitting

The parameters were routed twice by fit_transform, the second routing looked
for the alias in the already renamed parameters.
---
 skada/base.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 2fd4346..3e3eff6 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -437,10 +437,8 @@ class Shared(BaseSelector):
         else:
             self._fit('fit', X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = self._prepare_routing(
-                self.routing_.transform, X_container, method_params
-            )
-            output = self.transform(X, **transform_params)
+            # the parameters are routed to the estimator by the transform call
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     # xxx(okachaiev): solve the problem with parameter renaming
@@ -531,12 +529,9 @@ class PerDomain(BaseSelector):
         else:
             self._fit('fit', X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = self._prepare_routing(
-                self.routing_.transform, X_container, method_params
-            )
-            transform_params['sample_domain'] = method_params['sample_domain']
-            # the output of the transform call is already merged into a single ndarray
-            output = self.transform(X, **transform_params)
+            # the parameters are routed to the estimators by the transform call, its
+            # output is already merged into a single ndarray
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
-- 
2.43.0


From b49634755459ce0f25a353649333b898ca53216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:59 +0000
Subject: [PATCH 73/80] fix: subsamplers pick weights and domains by position

Weights given as a series with its own index were picked by label, i.e. for
other rows than the ones kept.
---
 skada/transformers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skada/transformers.py b/skada/transformers.py
index 516c193..71b5171 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -2,6 +2,7 @@
 #
 # License: BSD 3-Clause
 
+import numpy as np
 from sklearn.model_selection import ShuffleSplit, StratifiedShuffleSplit
 from sklearn.utils import check_random_state
 
@@ -44,7 +45,7 @@ class Subsampler(BaseAdapter):
 
     def _pack_params(self, idx, **params):
         return {
-            k: (v[idx] if idx is not None else v)
+            k: (np.asarray(v)[idx] if idx is not None else v)
             for k, v in params.items()
             if v is not None
         }
@@ -117,7 +118,7 @@ class DomainSubsampler(BaseAdapter):
 
     def _pack_params(self, idx, **params):
         return {
-            k: (v[idx] if idx is not None else v)
+            k: (np.asarray(v)[idx] if idx is not None else v)
             for k, v in params.items()
             if v is not None
         }
@@ -188,7 +189,7 @@ class StratifiedDomainSubsampler(BaseAdapter):
 
     def _pack_params(self, idx, **params):
         return {
-            k: (v[idx] if idx is not None else v)
+            k: (np.asarray(v)[idx] if idx is not None else v)
             for k, v in params.items()
             if v is not None
         }
-- 
2.43.0


From 751e42f55fc9d6df0d8f6a8a895069149763b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 74/80] fix: per_domain_split picks rows by position

Series were indexed by label, i.e. with an index of their own other rows
were returned.
---
 skada/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 228612e..2c31e4d 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -9,7 +9,7 @@ from typing import Optional, Sequence, Set
 
 import numpy as np
 from scipy.optimize import LinearConstraint, minimize
-from sklearn.utils import check_array, check_consistent_length
+from sklearn.utils import _safe_indexing, check_array, check_consistent_length
 
 from skada._utils import (
     _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL,
@@ -372,12 +372,12 @@ def per_domain_split(
     for domain, idx in domain_idx.items():
         if domain >= 0:
             source_dict[domain] = list(chain.from_iterable(
-                (a[idx],) if a is not None else (None,)
+                (_safe_indexing(a, idx),) if a is not None else (None,)
                 for a in arrays
             ))
         else:
             target_dict[domain] = list(chain.from_iterable(
-                (a[idx],) if a is not None else (None,)
+                (_safe_indexing(a, idx),) if a is not None else (None,)
                 for a in arrays
             ))
 
-- 
2.43.0


From 6baaf1af5757d44be8ebe479d1d11f59022420f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 75/80] fix: MultiLinearMongeAlignment adds its regularisation
 to the covariances

---
 skada/_mapping.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index 19c29db..0bc653a 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -522,7 +522,7 @@ def LinearOTMapping(
     )
 
 
-def _get_cov_mean(X, w=None, bias=True):
+def _get_cov_mean(X, w=None, reg=0.0, bias=True):
     """Returns covariance and mean
 
     Parameters
@@ -531,6 +531,8 @@ def _get_cov_mean(X, w=None, bias=True):
         The source data.
     w : array-like, shape (n_samples,)
         The weights of the samples.
+    reg: float, optional (default=0.0)
+        regularization added to the diagonal of the covariance.
     bias: bool, optional (default=True)
         estimate bias (mean).
 
@@ -548,7 +550,7 @@ def _get_cov_mean(X, w=None, bias=True):
     else:
         mean = np.zeros(X.shape[1])
     X = X - mean
-    cov = np.dot(w * X.T, X) / np.sum(w)
+    cov = np.dot(w * X.T, X) / np.sum(w) + reg * np.eye(X.shape[1])
     return cov, mean
 
 
@@ -625,23 +627,19 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
         sources, targets = per_domain_split(X, y, None, sample_domain=sample_domain)
 
         self.cov_means_sources_ = {
-            domain: _get_cov_mean(X, w, bias=self.bias)
+            domain: _get_cov_mean(X, w, reg=self.reg, bias=self.bias)
             for domain, (X, y, w) in sources.items()
         }
 
         self.cov_means_targets_ = {
-            domain: _get_cov_mean(X, w, bias=self.bias)
+            domain: _get_cov_mean(X, w, reg=self.reg, bias=self.bias)
             for domain, (X, y, w) in targets.items()
         }
 
         C = np.stack([cov for cov, mean in self.cov_means_sources_.values()])
         m = np.stack([mean for cov, mean in self.cov_means_sources_.values()])
 
-        self.barycenter_ = bures_wasserstein_barycenter(
-            m,
-            C,
-            eps=self.reg,
-        )
+        self.barycenter_ = bures_wasserstein_barycenter(m, C)
 
         self.mappings_ = {
             domain: bures_wasserstein_mapping(
-- 
2.43.0


From 853a4d93edbcaf0b53b26395fe0cad41d12f98df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:24 +0000
Subject: [PATCH 76/80] fix: supervised scorer passes the domain labels on to
 the estimator's score

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 5e81ff1..26840a0 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -34,7 +34,8 @@ from .utils import check_X_y_domain, extract_source_indices, source_target_split
 
 
 def _estimator_score(estimator, X, y=None, **kwargs):
-    return estimator.score(X, y)
+    consumed = get_routing_for_object(estimator).consumes("score", kwargs.keys())
+    return estimator.score(X, y, **{name: kwargs[name] for name in consumed})
 
 
 class _BaseDomainAwareScorer(_BaseScorer):
-- 
2.43.0


From 4a18bf1dca1276cf510f08774914cea6ec54a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:24 +0000
Subject: [PATCH 77/80] fix: SelectSourceTarget refuses a mixed pair also when
 only the target estimator transforms

---
 skada/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 3e3eff6..180d3a6 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -640,7 +640,7 @@ class SelectSourceTarget(BaseSelector):
     def __init__(self, source_estimator: BaseEstimator, target_estimator: Optional[BaseEstimator] = None, mask_target_labels: bool = False, **kwargs):
         if target_estimator is not None \
                 and hasattr(source_estimator, 'transform') \
-                and not hasattr(target_estimator, 'transform'):
+                != hasattr(target_estimator, 'transform'):
             raise TypeError("The provided source and target estimators must "
                             "both be transformers, or neither should be.")
         
-- 
2.43.0


From 86d559c23adc5f5c6c9298752b3a482481b1a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:04 +0000
Subject: [PATCH 78/80] fix: scores of a shared scorer no longer mix up the
 fits of concurrent calls

---
 skada/metrics.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 26840a0..5900426 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -151,17 +151,19 @@ class ImportanceWeightedScorer(_BaseDomainAwareScorer):
 
         Returns
         -------
-        self : object
-            Returns self.
+        source_estimator, target_estimator : object
+            The fitted weight estimators.
         """
         weight_estimator = self.weight_estimator
         if weight_estimator is None:
             weight_estimator = KernelDensity()
-        self.weight_estimator_source_ = clone(weight_estimator)
-        self.weight_estimator_target_ = clone(weight_estimator)
-        self.weight_estimator_source_.fit(X_source)
-        self.weight_estimator_target_.fit(X_target)
-        return self
+        source_estimator = clone(weight_estimator)
+        target_estimator = clone(weight_estimator)
+        source_estimator.fit(X_source)
+        target_estimator.fit(X_target)
+        self.weight_estimator_source_ = source_estimator
+        self.weight_estimator_target_ = target_estimator
+        return source_estimator, target_estimator
 
     def _score(self, _, estimator, X, y, sample_domain=None, **params):
         scorer = check_scoring(estimator, self.scoring)
@@ -184,9 +186,12 @@ class ImportanceWeightedScorer(_BaseDomainAwareScorer):
         X_source_reshaped = X_source.reshape(X_source.shape[0], -1)
         X_target_reshaped = X_target.reshape(X_target.shape[0], -1)
 
-        self._fit(X_source_reshaped, X_target_reshaped)
-        ws = self.weight_estimator_source_.score_samples(X_source_reshaped)
-        wt = self.weight_estimator_target_.score_samples(X_source_reshaped)
+        # the scorer is shared by the threads of a parallel cross-validation
+        source_estimator, target_estimator = self._fit(
+            X_source_reshaped, X_target_reshaped
+        )
+        ws = source_estimator.score_samples(X_source_reshaped)
+        wt = target_estimator.score_samples(X_source_reshaped)
         weights = np.exp(wt - ws)
 
         if weights.sum() != 0:
@@ -390,12 +395,11 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
         domain_classifier = self.domain_classifier
         if domain_classifier is None:
             domain_classifier = LogisticRegression()
-        self.domain_classifier_ = clone(domain_classifier)
+        domain_classifier = clone(domain_classifier)
         y_domain = np.concatenate((len(features) * [1], len(features_target) * [0]))
-        self.domain_classifier_.fit(
-            np.concatenate((features, features_target)), y_domain
-        )
-        return self
+        domain_classifier.fit(np.concatenate((features, features_target)), y_domain)
+        self.domain_classifier_ = domain_classifier
+        return domain_classifier
 
     def _score(self, _, estimator, X, y, sample_domain=None, **kwargs):
         if not hasattr(estimator, "predict_proba"):
@@ -457,9 +461,10 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
             features_val = features_val.detach().numpy()
             features_target = features_target.detach().numpy()
 
-        self._fit_adapt(features_train, features_target)
+        # the scorer is shared by the threads of a parallel cross-validation
+        domain_classifier = self._fit_adapt(features_train, features_target)
         N_train, N_target = len(features_train), len(features_target)
-        domain_pred = self.domain_classifier_.predict_proba(features_val)
+        domain_pred = domain_classifier.predict_proba(features_val)
         weights = (N_train / N_target) * domain_pred[:, :1] / domain_pred[:, 1:]
         y_pred = estimator.predict_proba(
             X_val, sample_domain=sample_domain_val, allow_source=True
-- 
2.43.0


From ab753c60ae20713c90686e099902aa9986b7c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:00 +0000
Subject: [PATCH 79/80] fix: GradualEstimator can be scored inside a pipeline
 and with weights

---
 skada/_gradual_da.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index a9859d2..5951acc 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -284,7 +284,7 @@ class GradualEstimator(DAEstimator):
 
         return self.base_estimator_.predict_log_proba(X, **kwargs)
 
-    def score(self, X, y):
+    def score(self, X, y, sample_weight=None):
         """Compute the accuracy of the model on the given data.
 
         Parameters
@@ -293,6 +293,8 @@ class GradualEstimator(DAEstimator):
             The input data.
         y : array-like, shape (n_samples,)
             The true labels.
+        sample_weight : array-like, shape (n_samples,), default=None
+            The sample weights.
 
         Returns
         -------
@@ -301,4 +303,4 @@ class GradualEstimator(DAEstimator):
         """
         check_is_fitted(self, "base_estimator_")
 
-        return (self.base_estimator_.predict(X) == y).sum() / len(y)
+        return np.average(self.base_estimator_.predict(X) == y, weights=sample_weight)
-- 
2.43.0


From 3122ff89d0470bbcdb8d4f23f48f3a7db4046714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:40 +0000
Subject: [PATCH 80/80] fix: features of a network no longer mix up the forward
 passes of concurrent calls

---
 skada/deep/utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index c8c3891..1e41100 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -4,6 +4,7 @@
 #
 # License: BSD 3-Clause
 import numbers
+import threading
 from functools import partial
 
 from sklearn.base import BaseEstimator
@@ -14,8 +15,20 @@ from torch.nn.functional import cosine_similarity, normalize
 from sklearn.utils.validation import check_is_fitted
 
 
-class LayerOutputs(dict):
-    """Outputs of the last forward pass, left out of copies and pickles."""
+class LayerOutputs(threading.local):
+    """Outputs of the last forward pass, left out of copies and pickles.
+
+    Every thread sees the outputs of its own forward pass.
+    """
+
+    def __init__(self):
+        self.outputs = {}
+
+    def __getitem__(self, layer_name):
+        return self.outputs[layer_name]
+
+    def __setitem__(self, layer_name, output):
+        self.outputs[layer_name] = output
 
     def __reduce__(self):
         return LayerOutputs, ()
-- 
2.43.0

