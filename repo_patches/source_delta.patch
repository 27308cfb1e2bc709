From 4283ef283562661a89fc7453f8eb2fd092a7c83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:32 +0000
Subject: [PATCH 01/36] fix: fix_variable must ignore interactions which are
 already removed

Fixing both ends of a coupling (or fixing a variable after removing one of
its interactions) substituted the removed interaction again, which brought
it back as a linear term or added it to the offset a second time.
---
 sawatabi/model/logical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f528bda..fad6cef 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -388,8 +388,8 @@ class LogicalModel(AbstractModel):
         # TODO: Delete variable physically
         self._fixed[target.label] = True
 
-        # Update related interations
-        selected = self.select_interactions_by_variable(target)
+        # Update related interations (interactions which are already removed must be left untouched)
+        selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]
 
         if len(selected) <= 0:
             warnings.warn("No interactions updated.")
-- 
2.43.0


From d844ffccdbddb461378cd181f5df76f0e9f27192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:32 +0000
Subject: [PATCH 02/36] fix: register attributes introduced by
 update_interaction

An attribute key first seen in update_interaction was not registered, so it
was invisible to get_attributes and merge, and the next add_interaction left
its column one element short (the table could not be read any more).
---
 sawatabi/model/logical_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index fad6cef..fda7b99 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -255,6 +255,7 @@ class LogicalModel(AbstractModel):
                 attrs_key = f"attributes.{k}"
                 if attrs_key not in self._interactions_array:
                     self._interactions_array[attrs_key] = [np.nan] * self._interactions_length
+                    self._interactions_attrs.append(attrs_key)
                 self._interactions_array[attrs_key][update_idx] = v
         self._interactions_array["timestamp"][update_idx] = timestamp
         self._interactions_array["dirty"][update_idx] = True
-- 
2.43.0


From 4794f186ae5cbe03a051a5d98f534e11a4429588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:12 +0000
Subject: [PATCH 03/36] fix: take the scale into account when converting
 between Ising and QUBO

The linear terms and the offset that a conversion derives from an interaction
ignored its scale, so the converted model was a different problem whenever a
scale other than 1 was used.
---
 sawatabi/model/logical_model.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index fda7b99..c9de988 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -722,7 +722,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
-                self._offset += coeff * 0.5
+                self._offset += coeff * h["scale"] * 0.5
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -730,12 +730,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=coeff * 0.25)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=coeff * 0.25,
+                    scale=J["scale"],
                 )
-                self._offset += coeff * 0.25
+                self._offset += coeff * J["scale"] * 0.25
         else:
             warnings.warn("The model is already an Ising model.")
 
@@ -757,7 +763,7 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 2.0)
-                self._offset -= coeff
+                self._offset -= coeff * h["scale"]
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
@@ -765,12 +771,18 @@ class LogicalModel(AbstractModel):
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
                 self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][0],
+                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
                 self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
+                    target=J["interacts"][1],
+                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    coefficient=-coeff * 2.0,
+                    scale=J["scale"],
                 )
-                self._offset += coeff
+                self._offset += coeff * J["scale"]
         else:
             warnings.warn("The model is already a QUBO model.")
 
-- 
2.43.0


From 15d4be2f9ce077c4b2cee1dded4c24a412231180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:21 +0000
Subject: [PATCH 04/36] fix: keep the timestamps of the interactions when
 converting the model type

Converting (also implicitly, in merge) re-stamped every interaction, which
lost the event time given by the user.
---
 sawatabi/model/logical_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index c9de988..3299635 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -721,14 +721,14 @@ class LogicalModel(AbstractModel):
             h_df = self.select_interaction(query="(body == 1) and (removed == False)")
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
-                self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
+                self.update_interaction(name=h["name"], coefficient=coeff * 0.5, timestamp=h["timestamp"])
                 self._offset += coeff * h["scale"] * 0.5
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
             for _, J in J_df.iterrows():
                 coeff = J["coefficient"]
-                self.update_interaction(name=J["name"], coefficient=coeff * 0.25)
+                self.update_interaction(name=J["name"], coefficient=coeff * 0.25, timestamp=J["timestamp"])
                 self.add_interaction(
                     target=J["interacts"][0],
                     name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
@@ -762,14 +762,14 @@ class LogicalModel(AbstractModel):
             h_df = self.select_interaction(query="(body == 1) and (removed == False)")
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
-                self.update_interaction(name=h["name"], coefficient=coeff * 2.0)
+                self.update_interaction(name=h["name"], coefficient=coeff * 2.0, timestamp=h["timestamp"])
                 self._offset -= coeff * h["scale"]
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
             for _, J in J_df.iterrows():
                 coeff = J["coefficient"]
-                self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
+                self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0, timestamp=J["timestamp"])
                 self.add_interaction(
                     target=J["interacts"][0],
                     name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
-- 
2.43.0


From 6c4da9162e5e88ed06252c65978142b78114a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:48 +0000
Subject: [PATCH 05/36] fix: delete_variable must work whatever constraints the
 model has

It raised (leaving the model half updated) when a constraint did not contain
the variable, when the model had an EqualityConstraint, and, after a model type
conversion, even for members, because Spin and Binary never compare equal.
---
 sawatabi/model/constraint/abstract_constraint.py | 6 ++++++
 sawatabi/model/logical_model.py                  | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 7197ea2..4013dc8 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -44,6 +44,12 @@ class AbstractConstraint(BaseMixin):
             variables = [variables]
         return set(variables)
 
+    def _discard_variable(self, variable):
+        # Removes the variable (identified by its label) from this constraint if it is a member.
+        for key in ("_variables", "_variables_1", "_variables_2"):
+            if hasattr(self, key):
+                setattr(self, key, {v for v in getattr(self, key) if v.label != variable.label})
+
     def get_constraint_class(self):
         return self._constraint_class
 
diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 3299635..334b315 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -362,7 +362,7 @@ class LogicalModel(AbstractModel):
 
         # Deal with constraints
         for k, v in self.get_constraints().items():
-            v.remove_variable(variables=target)
+            v._discard_variable(target)
 
         # Remove related interations
         removed = self.select_interactions_by_variable(target)
-- 
2.43.0


From 7b3953a2315d1b453031535069f4ac74b4628f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:12 +0000
Subject: [PATCH 06/36] fix: restore the logical model when to_physical raises

When a placeholder was missing, the interactions derived from the constraints
stayed in the logical model, and were counted again by the next to_physical.
---
 sawatabi/model/logical_model.py | 65 ++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 334b315..5fb1551 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -499,10 +499,6 @@ class LogicalModel(AbstractModel):
     def to_physical(self, placeholder=None):
         if placeholder is None:
             placeholder = {}
-        physical = PhysicalModel(mtype=self._mtype)
-
-        linear, quadratic = {}, {}
-        will_remove = []
 
         # Save the model before merging constraints to restore it later
         # original_variables = copy.deepcopy(self._variables)  # Variables will not be changed
@@ -514,6 +510,41 @@ class LogicalModel(AbstractModel):
         original_interactions_attrs = copy.deepcopy(self._interactions_attrs)
         original_interactions_length = self._interactions_length
 
+        try:
+            physical, will_remove = self._resolve_to_physical(placeholder)
+        finally:
+            # Restore the model before adding constraints
+            # self._variables = original_variables  # Variables were not changed
+            self._offset = original_offset
+            self._deleted = original_deleted
+            self._fixed = original_fixed
+            # self._constraints = original_constraints  # Constraints were not changed
+            self._interactions_array = original_interactions_array
+            self._interactions_attrs = original_interactions_attrs
+            self._interactions_length = original_interactions_length
+
+        # Remove interactions
+        # TODO: Physically remove the logically removed interactions
+        for rm in will_remove:
+            idx = self._interactions_array["name"].index(rm)
+            for k in self._interactions_array.keys():
+                self._interactions_array[k].pop(idx)
+            self._interactions_length -= 1
+
+        # Set dirty flag
+        for i in range(self._interactions_length):
+            # TODO: Calc difference from previous physical model by referencing dirty flags.
+            if self._interactions_array["dirty"][i]:
+                self._interactions_array["dirty"][i] = False
+
+        return physical
+
+    def _resolve_to_physical(self, placeholder):
+        physical = PhysicalModel(mtype=self._mtype)
+
+        linear, quadratic = {}, {}
+        will_remove = []
+
         # Resolve constraints, and convert them to the interactions
         for label, constraint in self._constraints.items():
             constraint_model = constraint.to_model()
@@ -584,31 +615,7 @@ class LogicalModel(AbstractModel):
         # save the last physical model
         self._previous_physical_model = physical
 
-        # Restore the model before adding constraints
-        # self._variables = original_variables  # Variables were not changed
-        self._offset = original_offset
-        self._deleted = original_deleted
-        self._fixed = original_fixed
-        # self._constraints = original_constraints  # Constraints were not changed
-        self._interactions_array = original_interactions_array
-        self._interactions_attrs = original_interactions_attrs
-        self._interactions_length = original_interactions_length
-
-        # Remove interactions
-        # TODO: Physically remove the logically removed interactions
-        for rm in will_remove:
-            idx = self._interactions_array["name"].index(rm)
-            for k in self._interactions_array.keys():
-                self._interactions_array[k].pop(idx)
-            self._interactions_length -= 1
-
-        # Set dirty flag
-        for i in range(self._interactions_length):
-            # TODO: Calc difference from previous physical model by referencing dirty flags.
-            if self._interactions_array["dirty"][i]:
-                self._interactions_array["dirty"][i] = False
-
-        return physical
+        return physical, will_remove
 
     def merge(self, other):
         self._check_argument_type("other", other, LogicalModel)
-- 
2.43.0


From 36bf9643402c1f5f8e69ed0cbe62ebf3235c50f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:53 +0000
Subject: [PATCH 07/36] fix: accept placeholders in update_interaction, as
 add_interaction does

to_ising and to_qubo update the coefficients through update_interaction, so
they raised TypeError (leaving the model half converted) for models whose
coefficients contain a placeholder.
---
 sawatabi/model/logical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 5fb1551..bca5747 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -214,9 +214,9 @@ class LogicalModel(AbstractModel):
             raise ValueError("Both 'target' and 'name' cannot be specified simultaneously.")
 
         if coefficient is not None:
-            self._check_argument_type("coefficient", coefficient, numbers.Number)
+            self._check_argument_type("coefficient", coefficient, (numbers.Number, pyqubo.core.Express, pyqubo.core.Coefficient))
         if scale is not None:
-            self._check_argument_type("scale", scale, numbers.Number)
+            self._check_argument_type("scale", scale, (numbers.Number, pyqubo.core.Express))
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
         if timestamp is not None:
-- 
2.43.0


From 1dadd3abf5c287ef86a03a608b878ef11c9c0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:01 +0000
Subject: [PATCH 08/36] fix: check that models can be merged before changing
 them

merge with a duplicate constraint label raised after the interactions had
been merged and the other model converted, and the retry counted them twice.
---
 sawatabi/model/logical_model.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index bca5747..3f81de4 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -620,16 +620,21 @@ class LogicalModel(AbstractModel):
     def merge(self, other):
         self._check_argument_type("other", other, LogicalModel)
 
-        # Check type
-        if self._mtype != other._mtype:
-            other._convert_mtype()
-
         # Check variables
         for key, value in self._variables.items():
             if key in other._variables.keys():
                 if len(value.shape) != len(other._variables[key].shape):
                     raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
 
+        # Check constraints
+        # If both models have a constraint with the same label, cannnot merge currently
+        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
+            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
+
+        # Check type
+        if self._mtype != other._mtype:
+            other._convert_mtype()
+
         # Merge variables
         for key, value in other._variables.items():
             if key not in self._variables:
@@ -668,9 +673,6 @@ class LogicalModel(AbstractModel):
         self._interactions_length = self._interactions_length + other._interactions_length
 
         # Merge constraints
-        # If both models have a constraint with the same label, cannnot merge currently
-        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
-            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
         self._constraints.update(other._constraints)
 
         # Merge other fields
-- 
2.43.0


From 885fa15300b661000a8d1431ed4393c0af667e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:08 +0000
Subject: [PATCH 09/36] fix: keep interaction names unique when models are
 merged

Merging the same model twice, or a model into itself, gave several
interactions the same name, and only the first of them could then be updated
or removed.
---
 sawatabi/model/logical_model.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 3f81de4..e7242c0 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -338,6 +338,15 @@ class LogicalModel(AbstractModel):
     def _has_name(self, internal_name):
         return internal_name in self._interactions_array["name"]
 
+    @staticmethod
+    def _get_unique_name(name, used_names):
+        unique_name = name
+        suffix = 2
+        while unique_name in used_names:
+            unique_name = f"{name} ({suffix})"
+            suffix += 1
+        return unique_name
+
     def _is_removed(self, internal_name):
         idx = self._interactions_array["name"].index(internal_name)
         return self._interactions_array["removed"][idx]
@@ -660,13 +669,16 @@ class LogicalModel(AbstractModel):
         duplicate_names = list(set(self._interactions_array["name"]) & set(other._interactions_array["name"]))
 
         # Rename duplicate interaction names by adding suffix of model id
+        used_names = set(merged_interactions_with_duplication["name"])
         for idx, name in enumerate(merged_interactions_with_duplication["name"]):
             if name in duplicate_names:
                 if idx < self._interactions_length:
                     model_id = id(self)
                 else:
                     model_id = id(other)
-                merged_interactions_with_duplication["name"][idx] = f"{name} ({model_id})"
+                unique_name = self._get_unique_name(f"{name} ({model_id})", used_names)
+                merged_interactions_with_duplication["name"][idx] = unique_name
+                used_names.add(unique_name)
 
         self._interactions_array = merged_interactions_with_duplication
         self._interactions_attrs = merged_attrs
-- 
2.43.0


From 9f4de4235e324f0da7b421fb18e679ff5cdba30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:08 +0000
Subject: [PATCH 10/36] fix: fix_variable must not fail when its interaction
 name is already taken

Fixing a variable, adding the same interaction again and fixing once more
raised ValueError half way, with the offset already changed.
---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index e7242c0..6f5021f 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -424,7 +424,7 @@ class LogicalModel(AbstractModel):
                         interacts_to = interacts[1]
                     elif interacts[1].label == target.label:
                         interacts_to = interacts[0]
-                    new_name = f"{interacts_to.label} (before fixed: {s})"
+                    new_name = self._get_unique_name(f"{interacts_to.label} (before fixed: {s})", self._interactions_array["name"])
                     new_coefficient = value * self._interactions_array["coefficient"][idx] * self._interactions_array["scale"][idx]
                     self.add_interaction(target=interacts_to, name=new_name, coefficient=new_coefficient)
                     self.remove_interaction(name=s)
-- 
2.43.0


From 9baf0419267b7e804268c1db376f83acae11ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:16 +0000
Subject: [PATCH 11/36] fix: update_interaction must default to the time of the
 update

The default was evaluated once, at import time, so updates without a
timestamp moved the interaction back to the time the module was loaded.
---
 sawatabi/model/logical_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 6f5021f..f74617a 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -206,7 +206,7 @@ class LogicalModel(AbstractModel):
         coefficient=None,
         scale=None,
         attributes=None,
-        timestamp=current_time(),
+        timestamp=None,
     ):
         if (not target) and (not name):
             raise ValueError("Either 'target' or 'name' must be specified.")
@@ -219,8 +219,9 @@ class LogicalModel(AbstractModel):
             self._check_argument_type("scale", scale, (numbers.Number, pyqubo.core.Express))
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
-        if timestamp is not None:
-            self._check_argument_type("timestamp", timestamp, (int, float))
+        if timestamp is None:
+            timestamp = current_time()
+        self._check_argument_type("timestamp", timestamp, (int, float))
 
         if target is not None:
             interaction_info = self._get_interaction_info_from_target(target)
-- 
2.43.0


From 00ec793e4fb1a44d9984e1b3b0421c40d382058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:16 +0000
Subject: [PATCH 12/36] fix: keep the attributes when update_interaction adds
 the interaction

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f74617a..2cd60ad 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -239,7 +239,7 @@ class LogicalModel(AbstractModel):
                 warnings.warn(f"An interaction named '{internal_name}' does not exist yet in the model, but will be added instead of updating it.")
                 _coefficient = 0.0 if coefficient is None else coefficient
                 _scale = 1.0 if scale is None else scale
-                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, timestamp=timestamp)
+                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, attributes=attributes, timestamp=timestamp)
 
         if self._is_removed(internal_name):
             raise ValueError(f"An interaction named '{internal_name}' is already removed.")
-- 
2.43.0


From 71f3b6e618e92fb0a89942ecd410af47e92671fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:25 +0000
Subject: [PATCH 13/36] fix: give an index to every variable of the physical
 model

A variable which was deleted and used again (or which comes from a merged
model) was in the physical model without an index, and solving it raised
KeyError.
---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 2cd60ad..58c310b 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -617,7 +617,7 @@ class LogicalModel(AbstractModel):
         for val in self._variables.values():
             flattened = list(Functions._flatten(val.bit_list))
             for v in flattened:
-                if (v.label not in self._deleted) and (v.label in physical._variables_set):
+                if v.label in physical._variables_set:
                     physical._label_to_index[v.label] = current_index
                     physical._index_to_label[current_index] = v.label
                     current_index += 1
-- 
2.43.0


From 5f1e496051df545c60584727612734a46485c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:33 +0000
Subject: [PATCH 14/36] fix: count a variable which is both fixed and deleted
 once in get_size

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 58c310b..11302ee 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -840,7 +840,7 @@ class LogicalModel(AbstractModel):
         """
         Returns the number of all alive variables (i.e., variables which are not removed or fixed).
         """
-        return self.get_all_size() - self.get_deleted_size() - self.get_fixed_size()
+        return self.get_all_size() - len(set(self._deleted) | set(self._fixed))
 
     def get_deleted_size(self):
         """
-- 
2.43.0


From 1410130a840828ea802c14d35e6608dc090be2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:14 +0000
Subject: [PATCH 15/36] fix: from_pyqubo must load Ising coefficients into an
 Ising model

The QUBO coefficients of the expression were used as couplings and fields of
the spins, which is a different problem.
---
 sawatabi/model/logical_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 11302ee..fbaa566 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -471,10 +471,15 @@ class LogicalModel(AbstractModel):
         else:
             pyqubo_model = expression
 
-        compiled_qubo = pyqubo_model.compiled_qubo
+        if self._mtype == constants.MODEL_ISING:
+            linear, quadratic, offset = pyqubo_model.to_ising()
+            coefficients = {**{(k, k): v for k, v in linear.items()}, **quadratic}
+        else:
+            coefficients = pyqubo_model.compiled_qubo.qubo
+            offset = pyqubo_model.compiled_qubo.offset
         structure = pyqubo_model.structure
 
-        for k, v in compiled_qubo.qubo.items():
+        for k, v in coefficients.items():
             # For the first variable.
             # - structure[k[0]][0] holds the variable name,
             # - structure[k[0]][1:] holds the variable index as tuple.
@@ -500,7 +505,7 @@ class LogicalModel(AbstractModel):
                 # 2-body
                 self.add_interaction(target=(target_0, target_1), coefficient=coeff)
 
-        self._offset = compiled_qubo.offset
+        self._offset = offset
 
     ################################
     # Converts
-- 
2.43.0


From d1ff4d00a267c283a7276a8909c1afb6a55378c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:48 +0000
Subject: [PATCH 16/36] fix: seed=0 of SawatabiSolver must be reproducible as
 any other seed

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 39437be..8cdbd47 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -67,7 +67,7 @@ class SawatabiSolver(AbstractSolver):
                 raise ValueError("reverse_options must contain 'reverse_temperature'")
 
         # Use a rangom generator so that this random sequence is isolated
-        if seed:
+        if seed is not None:
             self._rng = np.random.default_rng(seed)
         else:
             self._rng = np.random.default_rng()
-- 
2.43.0


From 881a25ec174f585d90aa67466a96229e2f0ef185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:48 +0000
Subject: [PATCH 17/36] fix: SawatabiSolver must not change the initial_states
 of the caller

The binary states were rewritten to spins in the caller's own dicts, so they
were not valid states of the (QUBO) model any more.
---
 sawatabi/solver/sawatabi_solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 8cdbd47..a4e22b1 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -81,10 +81,7 @@ class SawatabiSolver(AbstractSolver):
 
             # Convert initial states as well
             if initial_states:
-                for i, initial_state in enumerate(initial_states):
-                    for k, v in initial_state.items():
-                        if v == 0:
-                            initial_states[i][k] = -1
+                initial_states = [{k: -1 if v == 0 else v for k, v in initial_state.items()} for initial_state in initial_states]
 
         self._model = model
         self._bqm = bqm
-- 
2.43.0


From 7b8c520314e0dbb17e16d39f0a36296ae19af532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:48 +0000
Subject: [PATCH 18/36] fix: empty reverse_options of SawatabiSolver means
 forward annealing

It passed the validation of the options, took the forward initial temperature,
and then raised KeyError.
---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index a4e22b1..e429b18 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -168,7 +168,7 @@ class SawatabiSolver(AbstractSolver):
             reverse_target_temperature = reverse_options["reverse_temperature"]  # The max temperature when the phase is reverse annealing
 
         energy = initial_energy
-        reversing_phase = reverse_options is not None
+        reversing_phase = bool(reverse_options)
         sweep = 0
 
         energy_hist = []
-- 
2.43.0


From 0c15d794a3aa01e33a81ff599f3866ad95472634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:18 +0000
Subject: [PATCH 19/36] fix: energy_history of SawatabiSolver must use the
 energies of the model

The history was shifted from the reported energies by twice the offset.
---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index e429b18..8252555 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -186,7 +186,7 @@ class SawatabiSolver(AbstractSolver):
 
             # logger.info(f"sweep: {sweep + 1}/{num_sweeps}  (temperature: {temperature}, reversing_phase: {reversing_phase})")
 
-            energy_hist.append(energy)
+            energy_hist.append(energy + self._original_bqm.offset * 2)
             temperature_hist.append(temperature)
 
             # Pick up a spin (variable) randomly
-- 
2.43.0


From 406631ac422048644c386e259f9dcacd665f5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:55 +0000
Subject: [PATCH 20/36] fix: energies of OptiganSolver must include the offset
 of the model

The polynomial sent to the service has no constant term, and, unlike the other
solvers, the offset was not added to the energies in the response.
---
 sawatabi/solver/optigan_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sawatabi/solver/optigan_solver.py b/sawatabi/solver/optigan_solver.py
index 6bd0ea2..64776cf 100644
--- a/sawatabi/solver/optigan_solver.py
+++ b/sawatabi/solver/optigan_solver.py
@@ -106,7 +106,9 @@ class OptiganSolver(AbstractSolver):
         for spins in result["spins"]:
             sample = dict(zip(list(model._index_to_label.values()), spins))
             samples.append(sample)
-        sampleset = dimod.SampleSet.from_samples(samples, vartype=dimod.BINARY, energy=result["energies"], aggregate_samples=True, sort_labels=True)
+        # The offset is not a part of the polynomial
+        energies = [energy + model.get_offset() for energy in result["energies"]]
+        sampleset = dimod.SampleSet.from_samples(samples, vartype=dimod.BINARY, energy=energies, aggregate_samples=True, sort_labels=True)
         sampleset._info = result
 
         return sampleset
-- 
2.43.0


From 1dcdcba717c8104796c21498a89c544b9e6af238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:31 +0000
Subject: [PATCH 21/36] fix: incoming and outgoing must be the exact difference
 of the windows

They were cut out by comparing timestamps with the first or last element.
With Partial, an element which was dropped while an older one was retained
never appeared as outgoing, so a model maintained from the differences kept it.
---
 sawatabi/algorithm/abstract_algorithm.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 60b28ef..7a3d346 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -118,26 +118,15 @@ class AbstractAlgorithm(BaseMixin):
 
             # Resolve outgoing elements in this iteration
             def resolve_outgoing(prev_elements, sorted_elements):
-                outgoing = []
-                for p in prev_elements:
-                    if p[0] >= sorted_elements[0][0]:
-                        break
-                    outgoing.append(p)
-                return outgoing
+                current_indices = {element[1][0] for element in sorted_elements}
+                return [p for p in prev_elements if p[1][0] not in current_indices]
 
             outgoing = resolve_outgoing(prev_elements, sorted_elements)
 
             # Resolve incoming elements in this iteration
             def resolve_incoming(prev_elements, sorted_elements):
-                incoming = []
-                if len(prev_elements) == 0:
-                    incoming = sorted_elements
-                else:
-                    for v in reversed(sorted_elements):
-                        if v[0] <= prev_elements[-1][0]:
-                            break
-                        incoming.insert(0, v)
-                return incoming
+                prev_indices = {element[1][0] for element in prev_elements}
+                return [v for v in sorted_elements if v[1][0] not in prev_indices]
 
             incoming = resolve_incoming(prev_elements, sorted_elements)
 
-- 
2.43.0


From 756ae376ee175d0079829f936a6aac69215776e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:32 +0000
Subject: [PATCH 22/36] fix: Partial must not duplicate elements when the
 windows overlap

---
 sawatabi/algorithm/abstract_algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 7a3d346..085ad15 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -112,7 +112,9 @@ class AbstractAlgorithm(BaseMixin):
             # Partial: Merge current window with the specified data.
             elif algorithm == sawatabi.constants.ALGORITHM_PARTIAL:
                 filter_fn = algorithm_options["filter_fn"]
-                filtered = filter(filter_fn, prev_elements)
+                # Elements which are still in the current window must not be duplicated
+                current_indices = {element[1][0] for element in sorted_elements}
+                filtered = filter(filter_fn, [p for p in prev_elements if p[1][0] not in current_indices])
                 sorted_elements = list(filtered) + sorted_elements
                 sorted_elements = sorted(sorted_elements)
 
-- 
2.43.0


From 244c30fdc77ed53ed5109a2c26790d7c1db3673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:32 +0000
Subject: [PATCH 23/36] fix: the first window is never outdated, also for
 timestamps before the epoch

---
 sawatabi/algorithm/abstract_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 085ad15..2e09a97 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -79,7 +79,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Extract the previous timestamp, elements, and model from state
             if len(timestamp_state_as_list) == 0:
-                prev_timestamp = -1.0
+                prev_timestamp = float("-inf")
             else:
                 prev_timestamp = timestamp_state_as_list[-1]
             if len(elements_state_as_list) == 0:
-- 
2.43.0


From a3eafb39e80b56106c16408a4b5f0c7a9d487122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:32 +0000
Subject: [PATCH 24/36] fix: report the timestamp of the processed event in the
 outdated message

---
 sawatabi/algorithm/abstract_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 2e09a97..9a74652 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -100,7 +100,7 @@ class AbstractAlgorithm(BaseMixin):
             if float(timestamp) < float(prev_timestamp):
                 yield (
                     f"The received event is outdated: Timestamp is {timestamp.to_utc_datetime()}, "
-                    + f"while an event with timestamp of {timestamp.to_utc_datetime()} has been already processed."
+                    + f"while an event with timestamp of {prev_timestamp.to_utc_datetime()} has been already processed."
                 )
                 return
 
-- 
2.43.0


From 683108a420573368f7ffd18ac85b91012e571897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:41 +0000
Subject: [PATCH 25/36] fix: Attenuation must only scale the interactions which
 have the key

A model with an interaction without the attribute got NaN scales, and a model
without interactions, or without the attribute, stopped the whole pipeline.
---
 sawatabi/algorithm/abstract_algorithm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 9a74652..27fe15c 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -155,12 +155,15 @@ class AbstractAlgorithm(BaseMixin):
             # Attenuation: Update scale based on data timestamp.
             if algorithm == sawatabi.constants.ALGORITHM_ATTENUATION:
                 model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
-                ref_timestamp = model._interactions_array[algorithm_options["attenuation.key"]]
-                min_ts = min(ref_timestamp)
-                max_ts = max(ref_timestamp)
+                ref_timestamp = model._interactions_array.get(algorithm_options["attenuation.key"], [])
+                valid_timestamp = [t for t in ref_timestamp if t == t]  # Interactions without the key have NaN
+                min_ts = min(valid_timestamp, default=0.0)
+                max_ts = max(valid_timestamp, default=0.0)
                 min_scale = algorithm_options["attenuation.min_scale"]
                 if min_ts < max_ts:
                     for i, t in enumerate(ref_timestamp):
+                        if t != t:
+                            continue
                         new_scale = (1.0 - min_scale) / (max_ts - min_ts) * (t - min_ts) + min_scale
                         model._interactions_array["scale"][i] = new_scale
 
-- 
2.43.0


From 607a74382441bae95c0809fe7693a435dc7b0854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:06 +0000
Subject: [PATCH 26/36] fix: enumerate the empty subset in solve_npp_with_dp

With enumerate_all, no partition at all was returned when the best one leaves
a side empty (for example a single number).
---
 sawatabi/utils/npp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/utils/npp.py b/sawatabi/utils/npp.py
index 3012fb4..e383c2b 100644
--- a/sawatabi/utils/npp.py
+++ b/sawatabi/utils/npp.py
@@ -34,7 +34,7 @@ def solve_npp_with_dp(numbers, enumerate_all=False, print_dp_table=False):
 
     # Initialize the top row with True
     for j in range(n + 1):
-        dp[0][j] = (True, [])
+        dp[0][j] = (True, [[]] if enumerate_all else [])
 
     # Initialize the left column with False (except 0)
     for i in range(1, s + 1):
-- 
2.43.0


From 08e570f6d5c6487c1a5230d3254b3a87eb24d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:03 +0000
Subject: [PATCH 27/36] fix: merged models must not share their constraints

Deleting a variable from the merged model also removed it from the constraint
of the other model, because both held the same constraint object.
---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index fbaa566..05ba246 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -691,7 +691,7 @@ class LogicalModel(AbstractModel):
         self._interactions_length = self._interactions_length + other._interactions_length
 
         # Merge constraints
-        self._constraints.update(other._constraints)
+        self._constraints.update({label: copy.copy(constraint) for label, constraint in other._constraints.items()})
 
         # Merge other fields
         self._offset += other._offset
-- 
2.43.0


From eec2aff4a12f5a7010f670c1133f1b7f9a21d450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:30 +0000
Subject: [PATCH 28/36] fix: identify the variables of a constraint by their
 label

After a conversion of the model type, adding a member again made the model
unusable (to_physical raised) and removing a member raised ValueError, because
the constraint still held the variables of the previous type.
---
 sawatabi/model/constraint/abstract_constraint.py | 16 ++++++++++++++++
 sawatabi/model/constraint/equality_constraint.py | 14 ++++----------
 sawatabi/model/constraint/n_hot_constraint.py    |  7 ++-----
 .../constraint/zero_or_one_hot_constraint.py     |  7 ++-----
 4 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 4013dc8..d7330d0 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -44,6 +44,22 @@ class AbstractConstraint(BaseMixin):
             variables = [variables]
         return set(variables)
 
+    # A variable is identified by its label: Spin and Binary of the same label (before and after a conversion
+    # of the model type) never compare equal.
+    @staticmethod
+    def _union(variables, added):
+        labels = {v.label for v in variables}
+        return variables.union({v for v in added if v.label not in labels})
+
+    @staticmethod
+    def _difference(variables, removed):
+        labels = {v.label for v in variables}
+        removed_labels = {v.label for v in removed}
+        for label in removed_labels:
+            if label not in labels:
+                raise ValueError(f"Variable '{label}' does not exist in the constraint variables.")
+        return {v for v in variables if v.label not in removed_labels}
+
     def _discard_variable(self, variable):
         # Removes the variable (identified by its label) from this constraint if it is a member.
         for key in ("_variables", "_variables_1", "_variables_2"):
diff --git a/sawatabi/model/constraint/equality_constraint.py b/sawatabi/model/constraint/equality_constraint.py
index 91a13a2..c0c27a5 100644
--- a/sawatabi/model/constraint/equality_constraint.py
+++ b/sawatabi/model/constraint/equality_constraint.py
@@ -34,25 +34,19 @@ class EqualityConstraint(AbstractConstraint):
 
     def add_variable_to_1(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        self._variables_1 = self._variables_1.union(variables_set)
+        self._variables_1 = self._union(self._variables_1, variables_set)
 
     def add_variable_to_2(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        self._variables_2 = self._variables_2.union(variables_set)
+        self._variables_2 = self._union(self._variables_2, variables_set)
 
     def remove_variable_from_1(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        for v in variables_set:
-            if v not in self._variables_1:
-                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
-        self._variables_1 = self._variables_1.difference(variables_set)
+        self._variables_1 = self._difference(self._variables_1, variables_set)
 
     def remove_variable_from_2(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        for v in variables_set:
-            if v not in self._variables_2:
-                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
-        self._variables_2 = self._variables_2.difference(variables_set)
+        self._variables_2 = self._difference(self._variables_2, variables_set)
 
     def get_variables_1(self):
         return self._variables_1
diff --git a/sawatabi/model/constraint/n_hot_constraint.py b/sawatabi/model/constraint/n_hot_constraint.py
index 91b437d..d0d4654 100644
--- a/sawatabi/model/constraint/n_hot_constraint.py
+++ b/sawatabi/model/constraint/n_hot_constraint.py
@@ -35,14 +35,11 @@ class NHotConstraint(AbstractConstraint):
 
     def add_variable(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        self._variables = self._variables.union(variables_set)
+        self._variables = self._union(self._variables, variables_set)
 
     def remove_variable(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        for v in variables_set:
-            if v not in self._variables:
-                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
-        self._variables = self._variables.difference(variables_set)
+        self._variables = self._difference(self._variables, variables_set)
 
     def get_variables(self):
         return self._variables
diff --git a/sawatabi/model/constraint/zero_or_one_hot_constraint.py b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
index 5bcea72..8ace276 100644
--- a/sawatabi/model/constraint/zero_or_one_hot_constraint.py
+++ b/sawatabi/model/constraint/zero_or_one_hot_constraint.py
@@ -35,14 +35,11 @@ class ZeroOrOneHotConstraint(AbstractConstraint):
 
     def add_variable(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        self._variables = self._variables.union(variables_set)
+        self._variables = self._union(self._variables, variables_set)
 
     def remove_variable(self, variables):
         variables_set = self._check_variables_and_to_set(variables)
-        for v in variables_set:
-            if v not in self._variables:
-                raise ValueError(f"Variable '{v}' does not exist in the constraint variables.")
-        self._variables = self._variables.difference(variables_set)
+        self._variables = self._difference(self._variables, variables_set)
 
     def get_variables(self):
         return self._variables
-- 
2.43.0


From 0b40797719e87acb372c10e77fb0a09a520acc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:21 +0000
Subject: [PATCH 29/36] fix: a failing mapping must not change the model of the
 next window

---
 sawatabi/algorithm/abstract_algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 27fe15c..b95f54b 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
 import traceback
 
 import apache_beam as beam
@@ -89,7 +90,8 @@ class AbstractAlgorithm(BaseMixin):
             if len(model_state_as_list) == 0:
                 prev_model = sawatabi.model.LogicalModel(mtype=initial_mtype)
             else:
-                prev_model = model_state_as_list[-1]
+                # A mapping which fails must not change the model in the state
+                prev_model = copy.deepcopy(model_state_as_list[-1])
             if len(sampleset_state_as_list) == 0:
                 prev_sampleset = None
             else:
-- 
2.43.0


From 48caf524d3b7286d90a4bcdb2bdb4f207b4bc5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:21 +0000
Subject: [PATCH 30/36] fix: options which are set to False are not requested

---
 sawatabi/algorithm/abstract_algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index b95f54b..1352840 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -226,7 +226,7 @@ class AbstractAlgorithm(BaseMixin):
             | "Prepare key" >> beam.Map(lambda element: (None, element))
             | "Assign global index for Ising variables" >> beam.ParDo(AbstractAlgorithm.IndexAssigningStatefulDoFn()))
 
-        if "input.reassign_timestamp" in algorithm_options:
+        if algorithm_options.get("input.reassign_timestamp"):
             # Add (Re-assign) event timestamp based on the index
             # - element[0]: index
             # - element[1]: data
@@ -260,7 +260,7 @@ class AbstractAlgorithm(BaseMixin):
         # Output part
         # --------------------------------
 
-        if "output.with_timestamp" in algorithm_options:
+        if algorithm_options.get("output.with_timestamp"):
             solved = (solved
                 | "With timestamp for each window" >> beam.ParDo(AbstractAlgorithm.WithTimestampStrFn()))
 
-- 
2.43.0


From e789eaf9ae1d6eb1f99848cb26cbddb4d261a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:09 +0000
Subject: [PATCH 31/36] fix: a constraint keeps its own set of variables, not
 the set object of the caller

---
 sawatabi/model/constraint/abstract_constraint.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index d7330d0..3add8e9 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -36,8 +36,6 @@ class AbstractConstraint(BaseMixin):
         self._check_argument_type("variables", variables, (pyqubo.Array, pyqubo.Spin, pyqubo.Binary, list, set))
         if isinstance(variables, (list, set)):
             self._check_argument_type_in_list("variables", variables, (pyqubo.Spin, pyqubo.Binary))
-        if isinstance(variables, set):
-            return variables
         if isinstance(variables, pyqubo.Array):
             variables = list(Functions._flatten(variables.bit_list))
         elif isinstance(variables, (pyqubo.Spin, pyqubo.Binary)):
-- 
2.43.0


From 7af721e71380144f59c690b6611544240574f355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:33 +0000
Subject: [PATCH 32/36] fix: placeholders of a loaded PyQUBO expression could
 not be calculated with later, and loading changed the given model

---
 sawatabi/model/logical_model.py | 56 ++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 05ba246..4e6c7a8 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -12,7 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-import collections
 import copy
 import numbers
 import pprint
@@ -471,12 +470,11 @@ class LogicalModel(AbstractModel):
         else:
             pyqubo_model = expression
 
+        # Polynomial of the placeholders (or just a constant) for each term. The given model must not be changed.
+        coefficients = {k: self._get_placeholder_terms(v) for k, v in pyqubo_model.compiled_qubo.qubo.items()}
+        offset = self._get_placeholder_terms(pyqubo_model.compiled_qubo.offset)
         if self._mtype == constants.MODEL_ISING:
-            linear, quadratic, offset = pyqubo_model.to_ising()
-            coefficients = {**{(k, k): v for k, v in linear.items()}, **quadratic}
-        else:
-            coefficients = pyqubo_model.compiled_qubo.qubo
-            offset = pyqubo_model.compiled_qubo.offset
+            coefficients, offset = self._qubo_to_ising(coefficients, offset)
         structure = pyqubo_model.structure
 
         for k, v in coefficients.items():
@@ -490,13 +488,7 @@ class LogicalModel(AbstractModel):
             variable_1 = self.get_variables_by_name(structure[k[1]][0])
             target_1 = variable_1[structure[k[1]][1:]]
 
-            coeff = v
-            if isinstance(coeff, pyqubo.Coefficient):
-                assert isinstance(coeff.terms, collections.defaultdict)
-                for placeholder_k, _ in coeff.terms.items():
-                    coeff.terms[placeholder_k] *= -1
-            else:
-                coeff *= -1
+            coeff = self._get_placeholder_expression(v) * -1
 
             if k[0] == k[1]:
                 # 1-body
@@ -505,7 +497,43 @@ class LogicalModel(AbstractModel):
                 # 2-body
                 self.add_interaction(target=(target_0, target_1), coefficient=coeff)
 
-        self._offset = offset
+        self._offset = self._get_placeholder_expression(offset)
+
+    @staticmethod
+    def _get_placeholder_terms(value):
+        if isinstance(value, pyqubo.Coefficient):
+            return dict(value.terms)
+        return {pyqubo.core.PlaceholderProd({}): value}
+
+    @staticmethod
+    def _get_placeholder_expression(terms):
+        # Unlike pyqubo.Coefficient, an expression can be multiplied and added later (converts, fixes, merges, ...).
+        expression = 0.0
+        for product, value in terms.items():
+            for label, power in product.keys.items():
+                for _ in range(int(power)):
+                    value = value * pyqubo.Placeholder(label)
+            expression = expression + value
+        return expression
+
+    @staticmethod
+    def _qubo_to_ising(qubo, offset):
+        # x = (s + 1) / 2
+        ising, ising_offset = {}, dict(offset)
+
+        def add(target, terms, factor):
+            for product, value in terms.items():
+                target[product] = target.get(product, 0.0) + factor * value
+
+        for (i, j), terms in qubo.items():
+            if i == j:
+                add(ising.setdefault((i, i), {}), terms, 0.5)
+                add(ising_offset, terms, 0.5)
+            else:
+                for k in [(i, j), (i, i), (j, j)]:
+                    add(ising.setdefault(k, {}), terms, 0.25)
+                add(ising_offset, terms, 0.25)
+        return ising, ising_offset
 
     ################################
     # Converts
-- 
2.43.0


From 0f65aae2804494876ff4818f4f19bfdf2f537a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:17 +0000
Subject: [PATCH 33/36] fix: creating a physical model failed when a removed
 interaction has the name of a term of a constraint

---
 sawatabi/model/logical_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 4e6c7a8..4dcdccc 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -568,8 +568,7 @@ class LogicalModel(AbstractModel):
 
         # Remove interactions
         # TODO: Physically remove the logically removed interactions
-        for rm in will_remove:
-            idx = self._interactions_array["name"].index(rm)
+        for idx in reversed(will_remove):
             for k in self._interactions_array.keys():
                 self._interactions_array[k].pop(idx)
             self._interactions_length -= 1
@@ -596,7 +595,8 @@ class LogicalModel(AbstractModel):
         # group by key
         for i in range(self._interactions_length):
             if self._interactions_array["removed"][i]:
-                will_remove.append(self._interactions_array["name"][i])
+                # Constraints are merged behind the interactions of this model, so their indices do not change (but their names may)
+                will_remove.append(i)
                 continue
 
             # Resolve placeholders for coefficients and scales, using PyQUBO.
-- 
2.43.0


From 343f2a0e9d82f3720c1eb7dc94db72081829bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:17 +0000
Subject: [PATCH 34/36] fix: Attenuation ended the stream with an error when
 the model has placeholders

---
 sawatabi/algorithm/abstract_algorithm.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 1352840..4bb3f54 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -156,16 +156,15 @@ class AbstractAlgorithm(BaseMixin):
             # Algorithm specific operations
             # Attenuation: Update scale based on data timestamp.
             if algorithm == sawatabi.constants.ALGORITHM_ATTENUATION:
-                model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
                 ref_timestamp = model._interactions_array.get(algorithm_options["attenuation.key"], [])
-                valid_timestamp = [t for t in ref_timestamp if t == t]  # Interactions without the key have NaN
-                min_ts = min(valid_timestamp, default=0.0)
-                max_ts = max(valid_timestamp, default=0.0)
+                # Interactions which are removed or without the key (they have NaN) are not considered
+                removed = model._interactions_array["removed"]
+                valid_timestamp = {i: t for i, t in enumerate(ref_timestamp) if (t == t) and not removed[i]}
+                min_ts = min(valid_timestamp.values(), default=0.0)
+                max_ts = max(valid_timestamp.values(), default=0.0)
                 min_scale = algorithm_options["attenuation.min_scale"]
                 if min_ts < max_ts:
-                    for i, t in enumerate(ref_timestamp):
-                        if t != t:
-                            continue
+                    for i, t in valid_timestamp.items():
                         new_scale = (1.0 - min_scale) / (max_ts - min_ts) * (t - min_ts) + min_scale
                         model._interactions_array["scale"][i] = new_scale
 
-- 
2.43.0


From 821241886f2e754464dbf81a02912bc7926f7003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:53 +0000
Subject: [PATCH 35/36] fix: a PyQUBO expression which cannot be loaded left a
 part of its terms in the model

---
 sawatabi/model/logical_model.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 4dcdccc..65fc205 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -477,6 +477,7 @@ class LogicalModel(AbstractModel):
             coefficients, offset = self._qubo_to_ising(coefficients, offset)
         structure = pyqubo_model.structure
 
+        interactions = []
         for k, v in coefficients.items():
             # For the first variable.
             # - structure[k[0]][0] holds the variable name,
@@ -490,12 +491,16 @@ class LogicalModel(AbstractModel):
 
             coeff = self._get_placeholder_expression(v) * -1
 
-            if k[0] == k[1]:
-                # 1-body
-                self.add_interaction(target=target_0, coefficient=coeff)
-            else:
-                # 2-body
-                self.add_interaction(target=(target_0, target_1), coefficient=coeff)
+            # 1-body or 2-body
+            target = target_0 if k[0] == k[1] else (target_0, target_1)
+            name = self._get_interaction_info_from_target(target)["name"]
+            if self._has_name(name):
+                raise ValueError(f"An interaction named '{name}' already exists. Cannot add the same name.")
+            interactions.append((target, coeff))
+
+        # Nothing must be added if one of the interactions is invalid
+        for target, coeff in interactions:
+            self.add_interaction(target=target, coefficient=coeff)
 
         self._offset = self._get_placeholder_expression(offset)
 
-- 
2.43.0


From 4f7fa04a0f74118cf8a1a00b12b4bdeda6b9033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:45 +0000
Subject: [PATCH 36/36] fix: names of interactions added by conversions are
 unique on a coarse clock

---
 sawatabi/model/logical_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 65fc205..c98136f 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -791,13 +791,13 @@ class LogicalModel(AbstractModel):
                 self.update_interaction(name=J["name"], coefficient=coeff * 0.25, timestamp=J["timestamp"])
                 self.add_interaction(
                     target=J["interacts"][0],
-                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_unique_name(f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", self._interactions_array["name"]),
                     coefficient=coeff * 0.25,
                     scale=J["scale"],
                 )
                 self.add_interaction(
                     target=J["interacts"][1],
-                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_unique_name(f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", self._interactions_array["name"]),
                     coefficient=coeff * 0.25,
                     scale=J["scale"],
                 )
@@ -832,13 +832,13 @@ class LogicalModel(AbstractModel):
                 self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0, timestamp=J["timestamp"])
                 self.add_interaction(
                     target=J["interacts"][0],
-                    name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_unique_name(f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", self._interactions_array["name"]),
                     coefficient=-coeff * 2.0,
                     scale=J["scale"],
                 )
                 self.add_interaction(
                     target=J["interacts"][1],
-                    name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})",
+                    name=self._get_unique_name(f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", self._interactions_array["name"]),
                     coefficient=-coeff * 2.0,
                     scale=J["scale"],
                 )
-- 
2.43.0

