From 9392a5b2fc2cb3d4f65f7b9c1d8c66d65a446a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 01/71] fix: AttrDict.union must not share nested dictionaries
 with its argument

An empty sub-dictionary or a _REPLACE_ block was inserted by reference, so
later changes to the merged dictionary leaked back: templates inheriting an
empty block changed each other, and scenario overrides beat a _REPLACE_ block
given in override_dict.
---
 src/calliope/attrdict.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 64189af..aadcb92 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -245,6 +245,9 @@ class AttrDict(dict):
                 raise KeyError(f"Key defined twice: {k}")
             else:
                 other_value = other.get_key(k)
+                if isinstance(other_value, AttrDict):
+                    # Do not share (empty) sub-dicts between `self` and `other`.
+                    other_value = other_value.copy()
                 # If other value is None, and would overwrite an entire subdict,
                 # we skip it
                 if not (
@@ -253,4 +256,8 @@ class AttrDict(dict):
                     self.set_key(k, other_value)
         for k in wipe_keys:
             self.del_key(k)
-            self.set_key(k, other.get_key(k + "." + WIPE_KEY))
+            replacement = other.get_key(k + "." + WIPE_KEY)
+            if isinstance(replacement, AttrDict):
+                # Later changes to `self` must not propagate back to `other`.
+                replacement = replacement.copy()
+            self.set_key(k, replacement)
-- 
2.43.0


From 60e0e41f0755a8a3a953a6052cc38374b1196c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 02/71] fix: AttrDict.set_key must not wipe a block when a
 nested key cannot be set

---
 src/calliope/attrdict.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index aadcb92..d7e8dc0 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -91,19 +91,14 @@ class AttrDict(dict):
             value = AttrDict(value)
         if "." in key:
             key, remainder = key.split(".", 1)
-            try:
-                self[key].set_key(remainder, value)
-            except KeyError:
+            # If the key is missing or its value is None, we replace it
+            if self.get(key) is None:
                 self[key] = AttrDict()
-                self[key].set_key(remainder, value)
-            except AttributeError:
-                if self[key] is None:  # If the value is None, we replace it
-                    self[key] = AttrDict()
-                    self[key].set_key(remainder, value)
-                # Else there is probably something there, and we don't just
-                # want to overwrite so stop and warn the user
-                else:
-                    raise KeyError("Cannot set nested key on non-dict key.")
+            # If there is something else there, we don't just want to
+            # overwrite it, so stop and warn the user
+            elif not isinstance(self[key], AttrDict):
+                raise KeyError("Cannot set nested key on non-dict key.")
+            self[key].set_key(remainder, value)
         else:
             if key in self and isinstance(value, AttrDict):
                 for k, v in value.items():
-- 
2.43.0


From b1d21b0e3c8470f84888a705652ca182ac485ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 03/71] fix: combined overrides that set a block and a value at
 the same key are rejected in any order

---
 src/calliope/attrdict.py                    | 13 ++++++++++---
 src/calliope/preprocess/model_definition.py | 11 ++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index d7e8dc0..c986850 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -243,12 +243,19 @@ class AttrDict(dict):
                 if isinstance(other_value, AttrDict):
                     # Do not share (empty) sub-dicts between `self` and `other`.
                     other_value = other_value.copy()
+                self_value = self.get_key(k, None)
                 # If other value is None, and would overwrite an entire subdict,
                 # we skip it
-                if not (
-                    other_value is None and isinstance(self.get_key(k, None), AttrDict)
+                if other_value is None and isinstance(self_value, AttrDict):
+                    continue
+                if (
+                    not allow_override
+                    and isinstance(self_value, AttrDict)
+                    and self_value
+                    and not isinstance(other_value, AttrDict)
                 ):
-                    self.set_key(k, other_value)
+                    raise KeyError(f"Key defined twice: {k}")
+                self.set_key(k, other_value)
         for k in wipe_keys:
             self.del_key(k)
             replacement = other.get_key(k + "." + WIPE_KEY)
diff --git a/src/calliope/preprocess/model_definition.py b/src/calliope/preprocess/model_definition.py
index e168b7f..bf32e96 100644
--- a/src/calliope/preprocess/model_definition.py
+++ b/src/calliope/preprocess/model_definition.py
@@ -169,7 +169,8 @@ def _load_overrides_from_scenario(
         scenario_list = listify(scenarios[scenario])
     else:
         scenario_list = scenario.split(",")
-    scenario_overrides = set()
+    # A dictionary instead of a set, to keep the order in which overrides are given.
+    scenario_overrides: dict[str, None] = {}
     for override in scenario_list:
         if isinstance(override, dict):
             raise exceptions.ModelError(
@@ -177,14 +178,18 @@ def _load_overrides_from_scenario(
             )
         if override in scenarios:
             scenario_overrides.update(
-                _load_overrides_from_scenario(model_def, override, overrides, scenarios)
+                dict.fromkeys(
+                    _load_overrides_from_scenario(
+                        model_def, override, overrides, scenarios
+                    )
+                )
             )
         elif override not in overrides.keys():
             raise exceptions.ModelError(
                 f"(scenarios, {scenario}) | Unrecognised override name: {override}."
             )
         else:
-            scenario_overrides.add(override)
+            scenario_overrides[override] = None
 
     return list(scenario_overrides)
 
-- 
2.43.0


From 624165ba605d2a2e9d9cc5434da3a8edefd01312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 04/71] fix: resolve template references inside sub-sections of
 templates

---
 src/calliope/preprocess/model_definition.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/calliope/preprocess/model_definition.py b/src/calliope/preprocess/model_definition.py
index bf32e96..7a7199f 100644
--- a/src/calliope/preprocess/model_definition.py
+++ b/src/calliope/preprocess/model_definition.py
@@ -255,13 +255,18 @@ class TemplateSolver:
                 inherited_data = self._resolve_template(inherited_name, stack)
             result.union(inherited_data)
 
-        local_data = {k: raw_data[k] for k in raw_data.keys() - {self.TEMPLATE_CALL}}
+        # Sub-sections of a template may refer to templates, too
+        local_data = {
+            k: self._resolve_data(raw_data[k], level=1, stack=stack)
+            for k in raw_data
+            if k != self.TEMPLATE_CALL
+        }
         result.union(local_data, allow_override=True)
 
         stack.remove(name)
         return result
 
-    def _resolve_data(self, section, level: int = 0):
+    def _resolve_data(self, section, level: int = 0, stack: None | set[str] = None):
         if isinstance(section, dict):
             if self.TEMPLATES_SECTION in section:
                 if level != 0:
@@ -269,14 +274,20 @@ class TemplateSolver:
                         "Template definitions must be placed at the top level of the YAML file."
                     )
             if self.TEMPLATE_CALL in section:
-                template = self.resolved_templates[section[self.TEMPLATE_CALL]].copy()
+                name = section[self.TEMPLATE_CALL]
+                if name in self.resolved_templates:
+                    template = self.resolved_templates[name].copy()
+                else:
+                    template = self._resolve_template(name, stack)
             else:
                 template = AttrDict()
 
             local = AttrDict()
             for key in section.keys():
                 if key not in [self.TEMPLATE_CALL, self.TEMPLATES_SECTION]:
-                    local[key] = self._resolve_data(section[key], level=level + 1)
+                    local[key] = self._resolve_data(
+                        section[key], level=level + 1, stack=stack
+                    )
 
             # Local values have priority.
             template.union(local, allow_override=True)
-- 
2.43.0


From 8b2f1e8ef4c56be26f086b7bee9d310de19c8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 05/71] fix: allow_override applies to imports of imported YAML
 files, too

---
 src/calliope/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 9b01d6f..b0f1604 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -281,7 +281,7 @@ def _resolve_yaml_imports(
 
         for k in imports:
             path = relative_path(base_path, k)
-            imported = read_rich_yaml(path)
+            imported = read_rich_yaml(path, allow_override=allow_override)
             # loaded is added to imported (i.e. it takes precedence)
             imported.union(loaded_dict, allow_override=allow_override)
             loaded_dict = imported
-- 
2.43.0


From 28b12a2935184a7b712955dbb822bebb40725a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 06/71] fix: re-initialising a model in another mode must not
 keep the previous math

---
 src/calliope/model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 7461d60..365d637 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -194,11 +194,10 @@ class Model(ModelStructure):
                 attrs.math.init.model_dump(),
                 validate=self.config.init.pre_validate_math_strings,
             )
-            attrs = attrs.update(
-                {
-                    "runtime.math_priority": math_priority,
-                    "math.build": math.model_dump(),
-                }
+            attrs = attrs.update({"runtime.math_priority": math_priority})
+            # Replaced, not updated: nothing of the previous math must be left.
+            attrs = attrs.model_copy(
+                update={"math": attrs.math.model_copy(update={"build": math})}
             )
         if inputs:
             model_data_factory = ModelDataCleaner(
-- 
2.43.0


From 248ad6538e4e955aaa6d9c5450de4a74cdc7cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 07/71] fix: build global expressions that have a single member

---
 src/calliope/backend/gurobi_backend_model.py | 3 ++-
 src/calliope/backend/pyomo_backend_model.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index 0d75250..80e07d9 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -108,7 +108,8 @@ class GurobiBackendModel(backend_model.BackendModel):
     ) -> xr.DataArray:
         expression = expression.squeeze(drop=True)
         self._clean_arrays(expression)
-        to_fill = expression.where(where)
+        # aligned first: a 0-dimensional object array would be unpacked by `where`.
+        to_fill = expression.broadcast_like(where).where(where)
 
         return to_fill
 
diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index f6430cb..82216c3 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -219,7 +219,8 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     ) -> xr.DataArray:
         expression = expression.squeeze(drop=True)
 
-        to_fill = expression.where(where)
+        # aligned first: a 0-dimensional object array would be unpacked by `where`.
+        to_fill = expression.broadcast_like(where).where(where)
 
         return to_fill
 
-- 
2.43.0


From 8f36c77719545dcd7d96b95e57e309cb112c9d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 08/71] fix: a reloaded model that was never solved must not be
 reported as solved

---
 src/calliope/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 365d637..7082e20 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -184,7 +184,11 @@ class Model(ModelStructure):
 
         self._start_window_idx: int = 0
         self._is_built: bool = False
-        self._is_solved: bool = False if results is None else True
+        # Empty results are those of a model saved before it was solved or after a
+        # solve that did not find a solution; only the latter has a termination condition.
+        self._is_solved: bool = (
+            bool(self.results) or attrs.runtime.termination_condition is not None
+        )
         self.config = self.config.update({"init": kwargs})
 
         math_priority = model_math.get_math_priority(self.config.init)
-- 
2.43.0


From 7d65aa03f6598327381721f625c6289170c12c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 09/71] fix: a failed rebuild must not leave the model reported
 as built

---
 src/calliope/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 7082e20..b7aedaf 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -293,6 +293,8 @@ class Model(ModelStructure):
         )
 
         self.config = self.config.update({"build": kwargs})
+        # Whatever was built before is gone, even if building fails half-way.
+        self._is_built = False
 
         mode = self.config.init.mode
         if mode == "operate":
-- 
2.43.0


From f640c5512c2413e821c94ed3753f65cba7a54f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 10/71] fix: switching to an unknown objective must not
 deactivate the current one

---
 src/calliope/backend/pyomo_backend_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 82216c3..371b1e4 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -256,10 +256,11 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         return xr.DataArray(objective)
 
     def set_objective(self, name: str) -> None:  # noqa: D102, override
+        to_set = self.objectives[name].item()
         self.objectives[self.objective].item().deactivate()
         self.log("objectives", self.objective, "Objective deactivated.", level="info")
 
-        self.objectives[name].item().activate()
+        to_set.activate()
         self.objective = name
         self.config = self.config.update({"objective": name})
 
-- 
2.43.0


From 2bb32799a9355dfb059144eb368fc89d93db7fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 11/71] fix: building with an unknown objective must fail
 instead of leaving none active

---
 src/calliope/backend/backend_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index e8ae0a5..b908f03 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -638,6 +638,10 @@ class BackendModelGenerator(ABC, metaclass=SelectiveWrappingMeta):
                     f"Optimisation Model | {components}:{name} | Built in {end:.4f}s"
                 )
             LOGGER.info(f"Optimisation Model | {components} | Generated.")
+        if self.math.objectives._active and self.objective not in self.objectives:
+            raise BackendError(
+                f"Unknown objective `{self.objective}`; must be one of {list(self.objectives)}."
+            )
 
     @abstractmethod
     def delete_component(self, key: str, component_type: ALL_COMPONENTS_T) -> None:
-- 
2.43.0


From 941f8d4ca29d1c370cdffb2c7ab54c4672505e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 12/71] fix: shadow prices of an earlier solve must not
 reappear after a solve with cbc

---
 src/calliope/backend/pyomo_backend_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 371b1e4..375a6a0 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -874,6 +874,8 @@ class PyomoShadowPrices(backend_model.ShadowPrices):
     def deactivate(self):  # noqa: D102, override
         ...
         self._dual_obj.deactivate()
+        # Duals of an earlier solve do not belong to the results of a later one.
+        self._dual_obj.clear()
 
     @property
     def is_active(self) -> bool:  # noqa: D102, override
-- 
2.43.0


From ac444e3ee5fb3d50fca3188ae0323899280075c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 13/71] fix: find sub-expressions and slices under a leading
 sign

---
 src/calliope/backend/parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calliope/backend/parsing.py b/src/calliope/backend/parsing.py
index ff428d2..3761b68 100644
--- a/src/calliope/backend/parsing.py
+++ b/src/calliope/backend/parsing.py
@@ -71,6 +71,7 @@ class ParsedBackendEquation:
         """
         valid_eval_classes: tuple = (
             expression_parser.EvalOperatorOperand,
+            expression_parser.EvalSignOp,
             expression_parser.EvalFunction,
         )
         to_find = expression_parser.EvalSubExpressions
@@ -91,6 +92,7 @@ class ParsedBackendEquation:
         valid_eval_classes = tuple(
             [
                 expression_parser.EvalOperatorOperand,
+                expression_parser.EvalSignOp,
                 expression_parser.EvalFunction,
                 expression_parser.EvalSlicedComponent,
             ]
-- 
2.43.0


From 5b4c97147fb27f84cfda4f12e0982c2c5cd6aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 14/71] fix: evaluate exponents and signs with standard
 operator precedence

---
 src/calliope/backend/expression_parser.py | 27 ++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/calliope/backend/expression_parser.py b/src/calliope/backend/expression_parser.py
index fb6712e..e6bdfda 100644
--- a/src/calliope/backend/expression_parser.py
+++ b/src/calliope/backend/expression_parser.py
@@ -245,7 +245,9 @@ class EvalOperatorOperand(EvalArrayOrMath):
             # We ignore zeros that do nothing
             if self._skip_component_on_conditional(evaluated_operand, operator_):
                 continue
-            if isinstance(self.value[0], type(self)):
+            if isinstance(self.value[0], type(self)) or (
+                operator_ == "**" and isinstance(self.value[0], EvalSignOp)
+            ):
                 val = "(" + val + ")"
             if isinstance(operand, type(self)):
                 evaluated_operand = "(" + evaluated_operand + ")"
@@ -1105,12 +1107,27 @@ def arithmetic_parser(*args, arithmetic: pp.Forward | None = None) -> pp.Forward
     if arithmetic is None:
         arithmetic = pp.Forward()
 
-    arithmetic <<= pp.infixNotation(
+    def _parse_exponentiation(instring: str, loc: int, tokens: pp.ParseResults):
+        if len(tokens[0]) == 1:
+            return tokens[0][0]
+        return EvalOperatorOperand(instring, loc, tokens)
+
+    # Exponentiation binds tighter than a sign on its left, but not than one on its right,
+    # and is evaluated from right to left: -a**b**-c is -(a**(b**(-c))).
+    signed = pp.Forward()
+    operand = pp.MatchFirst(
         # the order matters if two could capture the same string, e.g. "inf".
-        pp.MatchFirst(args),
+        [*args, pp.Suppress("(") + arithmetic + pp.Suppress(")")]
+    )
+    exponentiation = pp.Group(operand + pp.Opt(expop + signed))
+    exponentiation.set_parse_action(_parse_exponentiation)
+    sign = pp.Group(signop + signed)
+    sign.set_parse_action(EvalSignOp)
+    signed <<= sign | exponentiation
+
+    arithmetic <<= pp.infixNotation(
+        signed,
         [
-            (signop, 1, pp.opAssoc.RIGHT, EvalSignOp),
-            (expop, 2, pp.opAssoc.LEFT, EvalOperatorOperand),
             (multop, 2, pp.opAssoc.LEFT, EvalOperatorOperand),
             (signop, 2, pp.opAssoc.LEFT, EvalOperatorOperand),
         ],
-- 
2.43.0


From f3487a9ba42ba8663f2307eb667d843fc8d31bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:22 +0000
Subject: [PATCH 15/71] fix: do not drop values from arithmetic inside helper
 functions where the component itself is not built

---
 src/calliope/backend/expression_parser.py | 15 ++++++++-----
 src/calliope/backend/helper_functions.py  | 27 +++++++++++++++++++++++
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/calliope/backend/expression_parser.py b/src/calliope/backend/expression_parser.py
index e6bdfda..13105b4 100644
--- a/src/calliope/backend/expression_parser.py
+++ b/src/calliope/backend/expression_parser.py
@@ -446,17 +446,20 @@ class EvalFunction(EvalArrayOrMath):
     def _eval(self, return_type: RETURN_T) -> str | xr.DataArray:
         """Pass evaluated arguments to evaluated helper function."""
         helper_function = self.func_name.eval(return_type, self.eval_attrs)
-        if helper_function.ignore_where:
-            self.eval_attrs = replace(self.eval_attrs, where_array=xr.DataArray(True))
+        kwargs_ = {}
+        for kwarg_name, kwarg_val in self.kwargs.items():
+            kwargs_[kwarg_name] = self._arg_eval(return_type, kwarg_val)
+
+        if return_type == "array":
+            where_array = helper_function.where_for_args(
+                self.eval_attrs.where_array, **kwargs_
+            )
+            self.eval_attrs = replace(self.eval_attrs, where_array=where_array)
 
         args_ = []
         for arg in self.args:
             args_.append(self._arg_eval(return_type, arg))
 
-        kwargs_ = {}
-        for kwarg_name, kwarg_val in self.kwargs.items():
-            kwargs_[kwarg_name] = self._arg_eval(return_type, kwarg_val)
-
         evaluated = helper_function(*args_, **kwargs_)
         return evaluated
 
diff --git a/src/calliope/backend/helper_functions.py b/src/calliope/backend/helper_functions.py
index d1b1366..57f4f67 100644
--- a/src/calliope/backend/helper_functions.py
+++ b/src/calliope/backend/helper_functions.py
@@ -53,6 +53,18 @@ class ParsingHelperFunction(ABC):
         """If True, `where` arrays will not be applied to the incoming data variables (valid for expression helpers)."""
         return False
 
+    def where_for_args(self, where_array: xr.DataArray, **kwargs) -> xr.DataArray:
+        """`where` array to apply to arithmetic in the incoming arrays (valid for expression helpers).
+
+        Helpers that combine values across the items of a dimension need all of those values,
+        including those of items at which the math component itself is not built.
+
+        Args:
+            where_array (xr.DataArray): `where` array of the expression in which the helper is used.
+            **kwargs: Evaluated keyword arguments of the helper.
+        """
+        return xr.DataArray(True) if self.ignore_where else where_array
+
     @abstractmethod
     def as_math_string(self, *args, **kwargs) -> str:
         """Method to update LaTeX math strings to include the action applied by the helper function.
@@ -369,6 +381,12 @@ class Sum(ParsingHelperFunction):
     #:
     ALLOWED_IN = ["expression", "where"]
 
+    def where_for_args(  # noqa: D102, override
+        self, where_array: xr.DataArray, **kwargs
+    ) -> xr.DataArray:
+        over = set(self._to_str_list(kwargs.get("over", [])))
+        return where_array.any(over.intersection(where_array.dims))
+
     def as_math_string(  # noqa: D102, override
         self, array: str, *, over: str | list[str | xr.DataArray]
     ) -> str:
@@ -406,6 +424,11 @@ class ReduceCarrierDim(ParsingHelperFunction):
     #:
     ALLOWED_IN = ["expression"]
 
+    def where_for_args(  # noqa: D102, override
+        self, where_array: xr.DataArray, **kwargs
+    ) -> xr.DataArray:
+        return where_array.any({"carriers"}.intersection(where_array.dims))
+
     def as_math_string(self, array: str, flow_direction: Literal["in", "out"]) -> str:  # noqa: D102, override
         return rf"\sum\limits_{{\text{{carrier}} \in \text{{carrier_{flow_direction}}}}} ({array})"
 
@@ -436,6 +459,8 @@ class SelectFromLookupArrays(ParsingHelperFunction):
     NAME = "select_from_lookup_arrays"
     #:
     ALLOWED_IN = ["expression"]
+    #:
+    ignore_where = True
 
     def as_math_string(self, array: str, **lookup_arrays: str) -> str:  # noqa: D102, override
         new_strings = {
@@ -880,6 +905,8 @@ class SumNextN(ParsingHelperFunction):
     NAME = "sum_next_n"
     #:
     ALLOWED_IN = ["expression"]
+    #:
+    ignore_where = True
 
     def as_math_string(self, array: str, over: str, N: int) -> str:  # noqa: D102, override
         over_singular = rf"\text{{{self._dim_iterator(over)}}}"
-- 
2.43.0


From 9451121163327c104cc4f18cde063f46ef2702f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:45 +0000
Subject: [PATCH 16/71] fix: refuse constraints in which an undefined value
 would be handed to the solver

---
 src/calliope/backend/expression_parser.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/calliope/backend/expression_parser.py b/src/calliope/backend/expression_parser.py
index 13105b4..2020e11 100644
--- a/src/calliope/backend/expression_parser.py
+++ b/src/calliope/backend/expression_parser.py
@@ -266,9 +266,21 @@ class EvalOperatorOperand(EvalArrayOrMath):
             evaluated_operand = self._apply_where_array(
                 operand.eval("array", self.eval_attrs)
             )
+            defined = val.notnull() & evaluated_operand.notnull()
             val = self._operate(val, evaluated_operand, operator_)
+            if not defined.all() and not self._in_global_expression():
+                # Operations on backend objects do not propagate NaN of their own accord.
+                val = (
+                    val.broadcast_like(defined).where(defined)
+                    if defined.any()
+                    else xr.full_like(defined, np.nan, dtype=object)
+                )
         return val
 
+    def _in_global_expression(self) -> bool:
+        """Global expressions may hold undefined entries; they matter only where they are used."""
+        return self.eval_attrs.equation_name.startswith("global_expressions:")
+
 
 class EvalSignOp(EvalArrayOrMath):
     """Class for processing expressions with + or -."""
@@ -372,6 +384,10 @@ class EvalComparisonOp(EvalArrayOrMath):
                 )
         lhs_where = lhs.broadcast_like(where)
         rhs_where = rhs.broadcast_like(where)
+        if ((lhs_where.isnull() | rhs_where.isnull()) & where).any():
+            raise self.error_msg(
+                "Missing a linear expression for some coordinates selected by 'where'. Adapting 'where' might help."
+            )
 
         match self.op:
             case "==":
-- 
2.43.0


From 65e7aff7695b6303f48ce03a76a682dcef6da463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 17/71] fix: refuse expressions that lack some of the selected
 coordinates

---
 src/calliope/backend/parsing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/parsing.py b/src/calliope/backend/parsing.py
index 3761b68..7cb88f8 100644
--- a/src/calliope/backend/parsing.py
+++ b/src/calliope/backend/parsing.py
@@ -372,7 +372,8 @@ class ParsedBackendEquation:
                 f"{self.name} | The linear expression array is indexed over dimensions not present in `foreach`: {broadcast_dims_where}"
             )
         # Check whether expression has NaN values in elements where the expression should be valid.
-        incomplete_constraints = expression.isnull() & where
+        # Coordinates that the expression does not have at all are missing, too.
+        incomplete_constraints = expression.broadcast_like(where).isnull() & where
         if incomplete_constraints.any():
             raise exceptions.BackendError(
                 f"{self.name} | Missing a linear expression for some coordinates selected by 'where'. Adapting 'where' might help."
-- 
2.43.0


From a2fbfe1b7c8148214ad6a68b4799b1a57810fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 18/71] fix: verbose strings of gurobi objects over non-string
 dimensions

---
 src/calliope/backend/gurobi_backend_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index 80e07d9..e2678e4 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -253,7 +253,7 @@ class GurobiBackendModel(backend_model.BackendModel):
     def verbose_strings(self) -> None:  # noqa: D102, override
         def __renamer(val, *idx, name: str, attr: str):
             if pd.notna(val):
-                new_obj_name = f"{name}[{', '.join(idx)}]"
+                new_obj_name = f"{name}[{', '.join(str(i) for i in idx)}]"
                 setattr(val, attr, new_obj_name)
 
         self._instance.update()
-- 
2.43.0


From 4dc9e216a8cc1359956e8cdfc282036fb266e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 19/71] fix: deleting a piecewise constraint must remove it
 from the gurobi instance

---
 src/calliope/backend/gurobi_backend_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index e2678e4..bd2a895 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -293,7 +293,11 @@ class GurobiBackendModel(backend_model.BackendModel):
             component_type (str): Object type
         """
         if key in self._dataset and self._dataset[key].obj_type == component_type:
-            if component_type in ["variables", "constraints"]:
+            if component_type in [
+                "variables",
+                "constraints",
+                "piecewise_constraints",
+            ]:
                 self._apply_func(
                     self._del_gurobi_obj,
                     self._dataset[key].notnull(),
-- 
2.43.0


From 3717c280a1fe3a1a20df762f59207f72ef72645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 20/71] fix: a component that gurobi refuses must not leave
 some of its objects behind

---
 src/calliope/backend/gurobi_backend_model.py | 37 +++++++++++++++++---
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index bd2a895..d487a89 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -6,7 +6,8 @@ from __future__ import annotations
 
 import importlib
 import logging
-from collections.abc import Iterable
+from collections.abc import Iterable, Iterator
+from contextlib import contextmanager
 from pathlib import Path
 from typing import Any, Literal, SupportsFloat, overload
 
@@ -97,12 +98,23 @@ class GurobiBackendModel(backend_model.BackendModel):
     ) -> xr.DataArray:
         lb = self._get_variable_bound(bounds.min, name, references)
         ub = self._get_variable_bound(bounds.max, name, references)
-        var = self._apply_func(
-            self._instance.addVar, where, 1, lb, ub, vtype=domain_type
-        )
+        with self._all_or_nothing():
+            var = self._apply_func(
+                self._instance.addVar, where, 1, lb, ub, vtype=domain_type
+            )
 
         return var.fillna(value=np.nan)
 
+    def _eval_equations(self, *args, **kwargs) -> xr.DataArray:
+        with self._all_or_nothing():
+            return super()._eval_equations(*args, **kwargs)
+
+    def add_piecewise_constraint(  # noqa: D102, override
+        self, name: str, definition: math_schema.PiecewiseConstraint
+    ) -> None:
+        with self._all_or_nothing():
+            super().add_piecewise_constraint(name, definition)
+
     def _add_global_expression(  # noqa: D102, override
         self, name: str, where: xr.DataArray, expression: xr.DataArray
     ) -> xr.DataArray:
@@ -392,6 +404,23 @@ class GurobiBackendModel(backend_model.BackendModel):
             var.vtype != gurobipy.GRB.CONTINUOUS for var in self._instance.getVars()
         )
 
+    @contextmanager
+    def _all_or_nothing(self) -> Iterator[None]:
+        """Restore the gurobi instance if adding a component to it fails midway."""
+        kinds = ["Vars", "Constrs", "QConstrs", "GenConstrs"]
+        self._instance.update()
+        n_before = [getattr(self._instance, f"Num{kind}") for kind in kinds]
+        objective, sense = self._instance.getObjective(), self._instance.ModelSense
+        try:
+            yield
+        except Exception:
+            self._instance.update()
+            for kind, n in zip(kinds, n_before):
+                self._instance.remove(getattr(self._instance, f"get{kind}")()[n:])
+            self._instance.setObjective(objective, sense=sense)
+            self._instance.update()
+            raise
+
     def _del_gurobi_obj(self, obj: Any) -> None:
         self._instance.remove(obj)
 
-- 
2.43.0


From ffc2fc8e00f30bbbb6ac81752b9b697ebd817a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:05 +0000
Subject: [PATCH 21/71] fix: group sums are undefined for items of the
 dimension that are not a group

---
 src/calliope/backend/helper_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/helper_functions.py b/src/calliope/backend/helper_functions.py
index 57f4f67..d66dfab 100644
--- a/src/calliope/backend/helper_functions.py
+++ b/src/calliope/backend/helper_functions.py
@@ -802,7 +802,8 @@ class GroupSum(ParsingHelperFunction):
         array = xr.concat(
             grouped.values(), dim=pd.Index(grouped.keys(), name=group_dim.name)
         )
-        return array
+        # There is no value for items of the dimension that are not a group.
+        return array.reindex({group_dim.name: group_dim.values}, copy=False)
 
 
 class GroupDatetime(ParsingHelperFunction):
-- 
2.43.0


From ba94ee893bdee8609ae1e1c1cfcd89c1d351dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 22/71] fix: bounds of gurobi variables were reported as
 undefined

---
 src/calliope/backend/gurobi_backend_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index d487a89..43abe9c 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -473,16 +473,16 @@ class GurobiBackendModel(backend_model.BackendModel):
         self._update_gurobi_variable(orig, orig.x, bound="ub")  # type: ignore
 
     @staticmethod
-    def _from_gurobi_variable_bounds(val: gurobipy.Var) -> pd.Series:
+    def _from_gurobi_variable_bounds(val: gurobipy.Var) -> tuple[float, float]:
         """Evaluate Gurobi decision variable object bounds.
 
         Args:
             val (gurobipy.Var): Variable object to be evaluated.
 
         Returns:
-            pd.Series: Array of variable upper and lower bound.
+            tuple[float, float]: Variable lower and upper bound.
         """
-        return pd.Series(data=[val.lb, val.ub], index=["lb", "ub"])
+        return val.lb, val.ub
 
     @staticmethod
     def _from_gurobi_var(val: gurobipy.Var) -> Any:
-- 
2.43.0


From 660706aa16652c806acd1c81ba9292f7e4e642cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 23/71] fix: updates of part of an array must change exactly
 the given coordinates

---
 src/calliope/backend/backend_model.py        | 16 +++++++++++++++-
 src/calliope/backend/gurobi_backend_model.py |  8 ++++----
 src/calliope/backend/pyomo_backend_model.py  | 17 +++++++++++------
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index b908f03..10eb001 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1236,12 +1236,12 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             tuple[xr.DataArray, xr.DataArray, bool]:
                 The original and new values and a flag for whether the original are mutable object that need updating with a backend-specific method.
         """
-        new_values = xr.DataArray(new_values)
         math = self.math.find(name, subset={"parameters", "lookups"})
         obj_type = math._group
         obj_type_singular = obj_type.removesuffix("s")
         dataset_da = getattr(self, f"get_{obj_type_singular}")(name)
         input_da = self.inputs[name]
+        new_values = self._align_to_inputs(new_values)
         missing_dims_in_new_vals = set(dataset_da.dims).difference(new_values.dims)
         missing_dims_in_orig_vals = set(new_values.dims).difference(dataset_da.dims)
 
@@ -1284,6 +1284,20 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             update_mutable = True
         return dataset_da, new_values, update_mutable
 
+    def _align_to_inputs(self, values: xr.DataArray | SupportsFloat) -> xr.DataArray:
+        """Order the coordinates of user-given values as they are ordered in the optimisation problem.
+
+        Args:
+            values (xr.DataArray | SupportsFloat): Values that apply to (part of) a component.
+
+        Returns:
+            xr.DataArray: `values` with NaN wherever they are not given along their dimensions.
+        """
+        values = xr.DataArray(values).reset_coords(drop=True)
+        return values.reindex(
+            {dim: self.inputs[dim] for dim in values.dims if dim in self.inputs.coords}
+        )
+
     @abstractmethod
     def update_variable_bounds(
         self,
diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index 43abe9c..089bb66 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -351,7 +351,7 @@ class GurobiBackendModel(backend_model.BackendModel):
                     f"Use `update_input('{existing_bound_param}')` to update the {bound_name} bound of {name}."
                 )
 
-            bound_da = xr.DataArray(new_bounds)
+            bound_da = self._align_to_inputs(new_bounds)
             missing_dims_in_new_vals = set(variable_da.dims).difference(bound_da.dims)
             if missing_dims_in_new_vals:
                 self.log(
@@ -363,10 +363,10 @@ class GurobiBackendModel(backend_model.BackendModel):
 
             self._apply_func(
                 self._update_gurobi_variable,
-                variable_da.notnull() & xr.DataArray(new_bounds).notnull(),
+                variable_da.notnull() & bound_da.notnull(),
                 1,
                 variable_da,
-                xr.DataArray(new_bounds),
+                bound_da,
                 bound=translator[bound_name],
             )
         self._instance.update()
@@ -381,7 +381,7 @@ class GurobiBackendModel(backend_model.BackendModel):
 
         variable_da = self.get_variable(name)
         if where is not None:
-            variable_da = variable_da.where(where.fillna(0))
+            variable_da = variable_da.where(self._align_to_inputs(where).fillna(0))
 
         self._apply_func(
             self._fix_gurobi_variable, variable_da.notnull(), 1, variable_da
diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 375a6a0..0f155b0 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -431,7 +431,8 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     ) -> None:
         orig, new, update = self._update_input(name, new_values, mutable=True)
         if update:
-            self._apply_func(self._update_pyomo_param, new.notnull(), 1, orig, new)
+            where = orig.notnull() & new.notnull()
+            self._apply_func(self._update_pyomo_param, where, 1, orig, new)
 
     def update_variable_bounds(  # noqa: D102, override
         self,
@@ -459,7 +460,7 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
                     f"Use `update_input('{existing_bound_param}')` to update the {bound_name} bound of {name}."
                 )
 
-            bound_da = xr.DataArray(new_bounds)
+            bound_da = self._align_to_inputs(new_bounds)
             missing_dims_in_new_vals = set(variable_da.dims).difference(bound_da.dims)
             if missing_dims_in_new_vals:
                 self.log(
@@ -470,10 +471,10 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
                 )
             self._apply_func(
                 self._update_pyomo_variable,
-                variable_da.notnull() & xr.DataArray(new_bounds).notnull(),
+                variable_da.notnull() & bound_da.notnull(),
                 1,
                 variable_da,
-                xr.DataArray(new_bounds),
+                bound_da,
                 bound=translator[bound_name],
             )
 
@@ -483,7 +484,9 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         variable_da = self.get_variable(name)
         where_da = variable_da.notnull()
         if where is not None:
-            where_da = where_da & where.fillna(False)
+            where_da = where_da & self._align_to_inputs(where).fillna(False).astype(
+                bool
+            )
         self._apply_func(self._fix_pyomo_variable, where_da, 1, variable_da)
 
     def unfix_variable(  # noqa: D102, override
@@ -492,7 +495,9 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         variable_da = self.get_variable(name)
         where_da = variable_da.notnull()
         if where is not None:
-            where_da = where_da & where.fillna(False)
+            where_da = where_da & self._align_to_inputs(where).fillna(False).astype(
+                bool
+            )
         self._apply_func(self._unfix_pyomo_variable, where_da, 1, variable_da)
 
     @property
-- 
2.43.0


From b2920b16c2a678ab276a1d309a79ffc0b1882bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 24/71] fix: updated parameters decide again where components
 apply

---
 src/calliope/backend/backend_model.py | 33 +++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index 10eb001..54b0566 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 
 import inspect
 import logging
+import re
 import time
 import typing
 from abc import ABC, ABCMeta, abstractmethod
@@ -1262,6 +1263,7 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             or (dataset_da.isnull() & new_values.notnull()).any()
             or obj_type == "lookups"
             or not mutable
+            or self._decides_where(name, dataset_da.attrs["references"])
         ):
             self.delete_component(name, obj_type)
             getattr(self, f"add_{obj_type_singular}")(name, new_input_da, math)
@@ -1284,6 +1286,37 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             update_mutable = True
         return dataset_da, new_values, update_mutable
 
+    def _decides_where(self, name: str, references: set[str]) -> bool:
+        """Check if the values of an input decide on which coordinates components are built.
+
+        Args:
+            name (str): Name of the input array.
+            references (set[str]): Names of components that refer to the input array.
+
+        Returns:
+            bool: True if any `where` string of the components compares the input array values with something.
+        """
+
+        def _where_strings(definition: Any) -> Iterator[str]:
+            if isinstance(definition, list):
+                definition = dict(enumerate(definition))
+            if isinstance(definition, dict):
+                for key, val in definition.items():
+                    if key == "where" and isinstance(val, str):
+                        yield val
+                    else:
+                        yield from _where_strings(val)
+
+        for reference in references & set(self._dataset.data_vars):
+            definition = self.math[self._dataset[reference].obj_type][reference]
+            for where in _where_strings(definition.model_dump()):
+                for condition in re.split(r"\b(?:and|or|not)\b", where, flags=re.I):
+                    if re.search("[<>]|==", condition) and re.search(
+                        rf"\b{name}\b", condition
+                    ):
+                        return True
+        return False
+
     def _align_to_inputs(self, values: xr.DataArray | SupportsFloat) -> xr.DataArray:
         """Order the coordinates of user-given values as they are ordered in the optimisation problem.
 
-- 
2.43.0


From 98902585518fad328fe83eebab59f761c8fb9759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 25/71] fix: re-building a variable must keep its updated
 bounds and fixed values

---
 src/calliope/backend/backend_model.py        | 38 +++++++++++++++++++-
 src/calliope/backend/gurobi_backend_model.py | 35 ++++++++++++++++++
 src/calliope/backend/pyomo_backend_model.py  | 27 ++++++++++++++
 3 files changed, 99 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index 54b0566..5bdb936 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1523,9 +1523,45 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             # which should correspond to the order they were added to the optimisation problem.
             refs = [k for k in getattr(self, component).data_vars if k in references]
             for ref in refs:
-                self.delete_component(ref, component)
                 def_ = self.math[component][ref]
+                changes = {}
+                if component == "variables":
+                    changes = self._get_variable_changes(ref)
+                self.delete_component(ref, component)
                 getattr(self, "add_" + component.removesuffix("s"))(ref, def_)
+                if changes:
+                    self._set_variable_changes(ref, changes)
+
+    def _get_variable_changes(self, name: str) -> dict[str, xr.DataArray]:
+        """Get what may have been changed in a variable since it was built.
+
+        Args:
+            name (str): Name of the variable.
+
+        Returns:
+            dict[str, xr.DataArray]:
+                Values of the lower ("lb") and upper ("ub") bounds that are not defined by an input parameter.
+        """
+        definition = self.math.variables[name].bounds
+        bounds = self.get_variable_bounds(name)
+        defined = self.get_variable(name).notnull()
+        return {
+            lb_ub: bounds[lb_ub].astype(float).fillna(unbounded).where(defined)
+            for lb_ub, min_max, unbounded in [
+                ("lb", "min", -np.inf),
+                ("ub", "max", np.inf),
+            ]
+            if not isinstance(definition[min_max], str)
+        }
+
+    @abstractmethod
+    def _set_variable_changes(self, name: str, changes: dict[str, xr.DataArray]):
+        """Apply changes to a variable again after re-building it.
+
+        Args:
+            name (str): Name of the variable.
+            changes (dict[str, xr.DataArray]): Result of `_get_variable_changes`.
+        """
 
     def _get_component(self, name: str, component_group: str) -> xr.DataArray:
         component = getattr(self, component_group).get(name, None)
diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index 089bb66..194c7cd 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -8,6 +8,7 @@ import importlib
 import logging
 from collections.abc import Iterable, Iterator
 from contextlib import contextmanager
+from functools import partial
 from pathlib import Path
 from typing import Any, Literal, SupportsFloat, overload
 
@@ -70,6 +71,7 @@ class GurobiBackendModel(backend_model.BackendModel):
             )
         super().__init__(inputs, math, build_config, gurobipy.Model())
         self._instance: gurobipy.Model
+        self._fixed_variables: dict[str, xr.DataArray] = {}
         self.shadow_prices = GurobiShadowPrices(self)
 
     def add_parameter(  # noqa: D102, override
@@ -316,6 +318,7 @@ class GurobiBackendModel(backend_model.BackendModel):
                     1,
                     self._dataset[key],
                 )
+                self._fixed_variables.pop(key, None)
             del self._dataset[key]
         self._instance.update()
 
@@ -386,6 +389,9 @@ class GurobiBackendModel(backend_model.BackendModel):
         self._apply_func(
             self._fix_gurobi_variable, variable_da.notnull(), 1, variable_da
         )
+        self._fixed_variables[name] = variable_da.notnull() | (
+            self._fixed_variables.get(name, xr.DataArray(False))
+        )
 
         self._instance.update()
 
@@ -397,6 +403,35 @@ class GurobiBackendModel(backend_model.BackendModel):
             "you will need to rebuild your backend or update variable bounds to match the original bounds."
         )
 
+    def _get_variable_changes(  # noqa: D102, override
+        self, name: str
+    ) -> dict[str, xr.DataArray]:
+        changes = super()._get_variable_changes(name)
+        self._instance.update()
+        fixed = self._fixed_variables.get(name, xr.DataArray(False))
+        # parameters do not define the bounds of fixed variables
+        fixed_bounds = self.get_variable_bounds(name).where(fixed)
+        return {
+            "fixed": fixed.where(fixed),
+            "lb": changes.get("lb", fixed_bounds["lb"]),
+            "ub": changes.get("ub", fixed_bounds["ub"]),
+        }
+
+    def _set_variable_changes(  # noqa: D102, override
+        self, name: str, changes: dict[str, xr.DataArray]
+    ):
+        variable_da = self.get_variable(name)
+        self._fixed_variables[name] = changes["fixed"].notnull() & variable_da.notnull()
+        for bound in ["lb", "ub"]:
+            self._apply_func(
+                partial(self._update_gurobi_variable, bound=bound),
+                variable_da.notnull() & changes[bound].notnull(),
+                1,
+                variable_da,
+                changes[bound],
+            )
+        self._instance.update()
+
     @property
     def has_integer_or_binary_variables(self) -> bool:  # noqa: D102, override
         self._instance.update()
diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 0f155b0..fdbaafa 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -500,6 +500,33 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
             )
         self._apply_func(self._unfix_pyomo_variable, where_da, 1, variable_da)
 
+    def _get_variable_changes(  # noqa: D102, override
+        self, name: str
+    ) -> dict[str, xr.DataArray]:
+        variable_da = self.get_variable(name)
+        fixed = self._apply_func(
+            lambda orig: orig.value if orig.fixed else np.nan,
+            variable_da.notnull(),
+            1,
+            variable_da,
+        )
+        return {**super()._get_variable_changes(name), "fixed": fixed}
+
+    def _set_variable_changes(  # noqa: D102, override
+        self, name: str, changes: dict[str, xr.DataArray]
+    ):
+        variable_da = self.get_variable(name)
+        for change, values in changes.items():
+            self._apply_func(
+                (lambda orig, new: orig.fix(new))
+                if change == "fixed"
+                else functools.partial(self._update_pyomo_variable, bound=change),
+                variable_da.notnull() & values.notnull(),
+                1,
+                variable_da,
+                values,
+            )
+
     @property
     def has_integer_or_binary_variables(self) -> bool:  # noqa: D102, override
         model_report = build_model_size_report(self._instance)
-- 
2.43.0


From b4c8be14d25a53456d9f50e6ee641c8445e5cf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 26/71] fix: updating lookups must work with the pyomo backend

---
 src/calliope/backend/pyomo_backend_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index fdbaafa..f4edcd1 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -419,7 +419,8 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     def delete_component(  # noqa: D102, override
         self, key: str, component_type: ALL_COMPONENTS_T
     ) -> None:
-        component_dict = getattr(self._instance, component_type)
+        # not all component types have objects in the pyomo instance (e.g. lookups)
+        component_dict = getattr(self._instance, component_type, {})
         if key in component_dict:
             del component_dict[key]
 
-- 
2.43.0


From 177d46ac996701382ff866b003c050b10b3e6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 27/71] fix: inputs can be updated after deleting a component
 that refers to them

---
 src/calliope/backend/backend_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index 5bdb936..1897561 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1506,9 +1506,11 @@ class BackendModel(BackendModelGenerator, Generic[T]):
         Returns:
             set: `initial_references` + any names of optimisation problem components referenced from those initial references.
         """
+        # components may have been deleted since they were referenced
+        initial_references = initial_references & set(self._dataset.data_vars)
         references = initial_references.copy()
         for reference in initial_references:
-            new_refs = self._dataset[reference].attrs.get("references", {})
+            new_refs = self._dataset[reference].attrs.get("references", set())
             references.update(self._find_all_references(new_refs))
         return references
 
-- 
2.43.0


From 6f35242ed67b9af66b49a1f8cee5ce196ee84bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 28/71] fix: a refused component must not leave its name
 occupied in the pyomo instance

---
 src/calliope/backend/pyomo_backend_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index f4edcd1..e8f0976 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -106,8 +106,13 @@ def _create_backend_obj_adding_component(
             # Run the original function
             result = func(self, name, *args, **kwargs)
         finally:
-            # Delete if obj_list is empty or if the dataset array is all null
-            if name not in self._dataset or self._dataset[name].isnull().all():
+            # Delete if obj_list is empty, if the dataset array is all null,
+            # or if the name is (and remains) that of another type of component
+            if (
+                name not in self._dataset
+                or self._dataset[name].isnull().all()
+                or self._dataset[name].obj_type != component_type
+            ):
                 _del_obj_list(self._instance, name)
 
         return result
-- 
2.43.0


From 2f95aebfb1fd99bea9f5866a1bf4b4bd2f7106b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 29/71] fix: the definition of a deleted component must not
 replace that of its successor

---
 src/calliope/backend/backend_model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index 1897561..ef40c71 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -739,8 +739,15 @@ class BackendModelGenerator(ABC, metaclass=SelectiveWrappingMeta):
         if references is not None:
             self._update_references(name, references)
 
-        if name not in self.math[obj_type].root:
-            self.math = self.math.update({f"{obj_type}.{name}": definition})
+        known_definition = self.math[obj_type].root.get(name, None)
+        if known_definition is None or known_definition.model_dump() != definition:
+            # also replaces what is left of a component with this name that was deleted
+            math = self.math.model_dump()
+            for component_type in typing.get_args(ALL_COMPONENTS_T):
+                if math[component_type].get(name, {}).get("active", False):
+                    del math[component_type][name]
+            math[obj_type][name] = definition
+            self.math = self.math.model_validate(math)
 
     def _update_references(self, name: str, references: set):
         """Update reference lists in dataset objects.
-- 
2.43.0


From 4bfdcfdec2886660692d447675ca34bdcbd5e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 30/71] fix: setting an objective must not depend on the state
 of the previous one

---
 src/calliope/backend/gurobi_backend_model.py |  5 +++++
 src/calliope/backend/pyomo_backend_model.py  | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index 194c7cd..d97eada 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -145,10 +145,13 @@ class GurobiBackendModel(backend_model.BackendModel):
 
     def set_objective(self, name: str) -> None:  # noqa: D102, override
         to_set = self.objectives[name]
+        if to_set.isnull().item():
+            raise BackendError(f"Objective `{name}` does not apply to this model.")
         sense = self.OBJECTIVE_SENSE_DICT[self.math.objectives[name].sense]
         self._instance.setObjective(to_set.item(), sense=sense)
         self._instance.update()
         self.objective = name
+        self.config = self.config.update({"objective": name})
         self.log("objectives", name, "Objective activated.", level="info")
 
     def get_parameter(  # noqa: D102, override
@@ -319,6 +322,8 @@ class GurobiBackendModel(backend_model.BackendModel):
                     self._dataset[key],
                 )
                 self._fixed_variables.pop(key, None)
+            elif component_type == "objectives" and key == self.objective:
+                self._instance.setObjective(0)
             del self._dataset[key]
         self._instance.update()
 
diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index e8f0976..2b7ac85 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -262,8 +262,14 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
 
     def set_objective(self, name: str) -> None:  # noqa: D102, override
         to_set = self.objectives[name].item()
-        self.objectives[self.objective].item().deactivate()
-        self.log("objectives", self.objective, "Objective deactivated.", level="info")
+        if not isinstance(to_set, pmo.objective):
+            raise BackendError(f"Objective `{name}` does not apply to this model.")
+        current = self.objectives.get(self.objective, xr.DataArray(np.nan)).item()
+        if isinstance(current, pmo.objective):
+            current.deactivate()
+            self.log(
+                "objectives", self.objective, "Objective deactivated.", level="info"
+            )
 
         to_set.activate()
         self.objective = name
-- 
2.43.0


From 7ffb4f1b9c0cc870486c8a9155641080524a9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 31/71] fix: partial updates of boolean lookups must keep them
 boolean

---
 src/calliope/backend/backend_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index ef40c71..1671d3c 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1261,6 +1261,9 @@ class BackendModel(BackendModelGenerator, Generic[T]):
                 "info",
             )
         new_input_da = new_values.broadcast_like(input_da).fillna(input_da)
+        if input_da.dtype.kind == "b":
+            # undefined values in (partial) updates do not make it another type of array
+            new_input_da = new_input_da.astype(bool)
         new_input_da.attrs = input_da.attrs
         self.inputs[name] = new_input_da
 
-- 
2.43.0


From e45f7b045f40774bac4e476fb046bc13b60e332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 32/71] fix: a component must be refused before it is built if
 its name is taken

---
 src/calliope/backend/backend_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index 1671d3c..f5b13f5 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -831,6 +831,12 @@ class BackendModelGenerator(ABC, metaclass=SelectiveWrappingMeta):
             BackendError: if `key` already exists in the backend model
                 (either with the same or different type as `obj_type`).
         """
+        for group in ("dimensions", "postprocessed", "checks"):
+            if group != obj_type and key in self.math[group]._active:
+                raise BackendError(
+                    f"Trying to add `{key}` to backend model {obj_type}, "
+                    f"but this name is taken by one of the math {group}."
+                )
         dataset = dataset or self._dataset
         if key in dataset:
             try:
-- 
2.43.0


From 6c6c0767fb74f58ceb8b2e01a6901d047d1d515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 33/71] fix: updating parameters between finite and infinite
 values decides where components apply

---
 src/calliope/backend/backend_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index f5b13f5..4288559 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1273,12 +1273,17 @@ class BackendModel(BackendModelGenerator, Generic[T]):
         new_input_da.attrs = input_da.attrs
         self.inputs[name] = new_input_da
 
+        def _exists(da: xr.DataArray) -> xr.DataArray:
+            # as evaluated in math `where` strings
+            return da.notnull() & (da != np.inf) & (da != -np.inf)
+
         if (
             (not dataset_da.shape and new_values.shape)
             or missing_dims_in_orig_vals
             or (dataset_da.isnull() & new_values.notnull()).any()
             or obj_type == "lookups"
             or not mutable
+            or (_exists(input_da) != _exists(new_input_da)).any()
             or self._decides_where(name, dataset_da.attrs["references"])
         ):
             self.delete_component(name, obj_type)
-- 
2.43.0


From d7de95a0b365ed4825bbe35e02e7f7437ff68f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 34/71] fix: a refused update of variable bounds must not
 change one of the two bounds

---
 src/calliope/backend/backend_model.py        | 20 ++++++++++++++++++++
 src/calliope/backend/gurobi_backend_model.py |  8 +-------
 src/calliope/backend/pyomo_backend_model.py  |  8 +-------
 3 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index 4288559..eb9757f 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1352,6 +1352,26 @@ class BackendModel(BackendModelGenerator, Generic[T]):
             {dim: self.inputs[dim] for dim in values.dims if dim in self.inputs.coords}
         )
 
+    def _raise_error_on_parameter_bounds(
+        self, name: str, **bounds: xr.DataArray | SupportsFloat | None
+    ):
+        """Check that none of the variable bounds to update is defined by a parameter.
+
+        Args:
+            name (str): Variable to update.
+            **bounds (xr.DataArray | SupportsFloat | None): New values of the `min` and `max` bounds.
+
+        Raises:
+            BackendError: Bounds defined by parameters cannot be updated.
+        """
+        for bound_name, new_bounds in bounds.items():
+            existing_bound_param = self.math.variables[name].bounds[bound_name]
+            if new_bounds is not None and existing_bound_param in self.parameters:
+                raise BackendError(
+                    "Cannot update variable bounds that have been set by parameters. "
+                    f"Use `update_input('{existing_bound_param}')` to update the {bound_name} bound of {name}."
+                )
+
     @abstractmethod
     def update_variable_bounds(
         self,
diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index d97eada..609e7fb 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -342,6 +342,7 @@ class GurobiBackendModel(backend_model.BackendModel):
     ) -> None:
         translator = {"min": "lb", "max": "ub"}
         variable_da = self.get_variable(name)
+        self._raise_error_on_parameter_bounds(name, min=min, max=max)
 
         for bound_name, new_bounds in {"min": min, "max": max}.items():
             if new_bounds is None:
@@ -352,13 +353,6 @@ class GurobiBackendModel(backend_model.BackendModel):
                 )
                 continue
 
-            existing_bound_param = self.math.variables[name].bounds[bound_name]
-            if existing_bound_param in self.parameters:
-                raise BackendError(
-                    "Cannot update variable bounds that have been set by parameters. "
-                    f"Use `update_input('{existing_bound_param}')` to update the {bound_name} bound of {name}."
-                )
-
             bound_da = self._align_to_inputs(new_bounds)
             missing_dims_in_new_vals = set(variable_da.dims).difference(bound_da.dims)
             if missing_dims_in_new_vals:
diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 2b7ac85..6e8f5a6 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -455,6 +455,7 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     ) -> None:
         translator = {"min": "lb", "max": "ub"}
         variable_da = self.get_variable(name)
+        self._raise_error_on_parameter_bounds(name, min=min, max=max)
 
         for bound_name, new_bounds in {"min": min, "max": max}.items():
             if new_bounds is None:
@@ -465,13 +466,6 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
                 )
                 continue
 
-            existing_bound_param = self.math.variables[name].bounds[bound_name]
-            if existing_bound_param in self.parameters:
-                raise BackendError(
-                    "Cannot update variable bounds that have been set by parameters. "
-                    f"Use `update_input('{existing_bound_param}')` to update the {bound_name} bound of {name}."
-                )
-
             bound_da = self._align_to_inputs(new_bounds)
             missing_dims_in_new_vals = set(variable_da.dims).difference(bound_da.dims)
             if missing_dims_in_new_vals:
-- 
2.43.0


From 309003aeec6fd3853920882bd58d9f4e273786f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:17 +0000
Subject: [PATCH 35/71] fix: components are re-built in the order in which they
 were added

---
 src/calliope/backend/backend_model.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/calliope/backend/backend_model.py b/src/calliope/backend/backend_model.py
index eb9757f..07e79fc 100644
--- a/src/calliope/backend/backend_model.py
+++ b/src/calliope/backend/backend_model.py
@@ -1561,19 +1561,18 @@ class BackendModel(BackendModelGenerator, Generic[T]):
         Args:
             references (set[str]): names of optimisation problem components.
         """
-        for component in typing.get_args(ORDERED_COMPONENTS_T):
-            # Rebuild references in the order they are found in the backend dataset
-            # which should correspond to the order they were added to the optimisation problem.
-            refs = [k for k in getattr(self, component).data_vars if k in references]
-            for ref in refs:
-                def_ = self.math[component][ref]
-                changes = {}
-                if component == "variables":
-                    changes = self._get_variable_changes(ref)
-                self.delete_component(ref, component)
-                getattr(self, "add_" + component.removesuffix("s"))(ref, def_)
-                if changes:
-                    self._set_variable_changes(ref, changes)
+        # Rebuild references in the order they are found in the backend dataset,
+        # which corresponds to the order they were added to the optimisation problem.
+        for ref in [str(k) for k in self._dataset.data_vars if k in references]:
+            component = self._dataset[ref].obj_type
+            def_ = self.math[component][ref]
+            changes = {}
+            if component == "variables":
+                changes = self._get_variable_changes(ref)
+            self.delete_component(ref, component)
+            getattr(self, "add_" + component.removesuffix("s"))(ref, def_)
+            if changes:
+                self._set_variable_changes(ref, changes)
 
     def _get_variable_changes(self, name: str) -> dict[str, xr.DataArray]:
         """Get what may have been changed in a variable since it was built.
-- 
2.43.0


From dcf292f1f2b940144a5fe19fe060c99239afdf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:48 +0000
Subject: [PATCH 36/71] fix: variables that the solver never gets must not make
 results loading fail (pyomo)

---
 src/calliope/backend/pyomo_backend_model.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 6e8f5a6..a7e4aa9 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -703,14 +703,20 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
             xr.DataArray: Array of numeric or math string values.
         """
         if eval_body:
-            try:
-                expr = self._apply_func(
-                    lambda expr: expr() if isinstance(expr, PyomoObject) else expr,
-                    expr_da.notnull(),
-                    1,
-                    expr_da,
-                )
-            except ValueError:
+            expr = self._apply_func(
+                lambda expr: (
+                    expr(exception=False) if isinstance(expr, PyomoObject) else expr
+                ),
+                expr_da.notnull(),
+                1,
+                expr_da,
+            )
+            # Variables that are not part of the problem sent to the solver have no value, even if it has been solved.
+            if (expr.isnull() & expr_da.notnull()).any() and not any(
+                var.value is not None
+                for variables in self._instance.variables.values()
+                for var in variables
+            ):
                 expr = expr_da.astype(str)
         else:
             expr = expr_da.astype(str)
-- 
2.43.0


From 0ddae0793c5d016f26f141fa098356cf7864b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 37/71] fix: refusing to fix a variable must not leave some of
 its members fixed (pyomo)

---
 src/calliope/backend/pyomo_backend_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index a7e4aa9..5d1a510 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -493,6 +493,11 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
             where_da = where_da & self._align_to_inputs(where).fillna(False).astype(
                 bool
             )
+        values = self._apply_func(self._from_pyomo_param, where_da, 1, variable_da)
+        if (values.isnull() & where_da).any():
+            raise BackendError(
+                "Cannot fix variable values without already having solved the model successfully."
+            )
         self._apply_func(self._fix_pyomo_variable, where_da, 1, variable_da)
 
     def unfix_variable(  # noqa: D102, override
-- 
2.43.0


From ad90d603381b3812415832017d81cf08c6cb57dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:24 +0000
Subject: [PATCH 38/71] fix: loading data tables must not rename the axes of
 the given dataframes

---
 src/calliope/preprocess/data_tables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 1f9b161..129e421 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -321,9 +321,9 @@ class DataTable:
             self._raise_error(f"Expected {len(names)} {axis} levels in loaded data.")
         mapper = self.input.rename_dims
         if mapper:
-            df.rename_axis(inplace=True, **{axis: mapper})
+            df = df.rename_axis(**{axis: mapper})
         self._compare_axis_names(getattr(df, axis).names, names, axis)
-        df.rename_axis(inplace=True, **{axis: names})
+        df = df.rename_axis(**{axis: names})
 
         return df
 
-- 
2.43.0


From 638779a1a0d8ffd226219bf80afdcd74f282d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:24 +0000
Subject: [PATCH 39/71] fix: the carriers of a technology can be set at a node

---
 src/calliope/preprocess/model_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 813ec5d..1c8781f 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -232,7 +232,7 @@ class ModelDataBuilder(ModelDTypeUpdater):
             for ref_var in node_ref_vars:
                 tech_ds[ref_var] = tech_ds[ref_var].expand_dims("nodes")
             for ref_var in ["carrier_in", "carrier_out"]:
-                if ref_var in tech_ds.data_vars:
+                if ref_var in tech_ds.data_vars and ref_var not in node_ref_vars:
                     tech_ds[ref_var] = tech_ds[ref_var].expand_dims("nodes")
             if not tech_ds.nodes.shape:
                 tech_ds["nodes"] = tech_ds["nodes"].expand_dims("nodes")
-- 
2.43.0


From cb4583529197bee49e4d3239c8cedc9c144e98f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:34 +0000
Subject: [PATCH 40/71] fix: technologies can be deactivated if data tables
 hold data for them at nodes

---
 src/calliope/preprocess/data_tables.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 129e421..1cd573a 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -125,7 +125,9 @@ class DataTable:
             except KeyError:
                 continue
             for tech in techs_this_node:
-                if (
+                if tech not in techs_incl_inheritance:
+                    continue  # deactivated
+                elif (
                     techs_incl_inheritance[tech].get("base_tech", None)
                     == "transmission"
                 ):
-- 
2.43.0


From b3d47293fe70b1d47deaeb9ba87a4cfcc08e31b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:28 +0000
Subject: [PATCH 41/71] fix: boolean lookups that are loaded as strings must
 keep their values

---
 src/calliope/preprocess/model_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 1c8781f..de50d89 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -109,7 +109,13 @@ class ModelDTypeUpdater(ABC):
                         .assign_attrs(var_data.attrs)
                     )
                 case "bool":
-                    updated_var = var_data.fillna(False).astype(dtype)
+                    # booleans loaded from files alongside other data are strings
+                    updated_var = xr.where(
+                        var_data.isin(["False", "false", "FALSE"]),
+                        False,
+                        var_data.fillna(False),
+                        keep_attrs=True,
+                    ).astype(dtype)
                 case _:
                     updated_var = var_data.astype(dtype)
 
-- 
2.43.0


From 25f8a1ea155e1c3d907a4174a11cde9fba8cc9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:28 +0000
Subject: [PATCH 42/71] fix: technologies with settings at nodes can be
 deactivated

---
 src/calliope/preprocess/model_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index de50d89..0c91a8c 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -236,7 +236,9 @@ class ModelDataBuilder(ModelDTypeUpdater):
 
             tech_ds.coords["nodes"] = node_name
             for ref_var in node_ref_vars:
-                tech_ds[ref_var] = tech_ds[ref_var].expand_dims("nodes")
+                # references that only deactivated techs make are not in the dataset
+                if ref_var in tech_ds.data_vars:
+                    tech_ds[ref_var] = tech_ds[ref_var].expand_dims("nodes")
             for ref_var in ["carrier_in", "carrier_out"]:
                 if ref_var in tech_ds.data_vars and ref_var not in node_ref_vars:
                     tech_ds[ref_var] = tech_ds[ref_var].expand_dims("nodes")
-- 
2.43.0


From d675f2bd5180301b20d030ca16c19b7123c2a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:57 +0000
Subject: [PATCH 43/71] fix: indexed data can be set to null, as documented for
 templates

---
 src/calliope/preprocess/model_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 0c91a8c..9bcb8a7 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -403,7 +403,8 @@ class ModelDataBuilder(ModelDTypeUpdater):
             data = raw_input_data["data"]
             index_items = [listify(idx) for idx in listify(raw_input_data["index"])]
             broadcast_input_data = self.config.broadcast_input_data
-            if not broadcast_input_data and len(listify(data)) != len(index_items):
+            n_data = 1 if data is None else len(listify(data))
+            if not broadcast_input_data and n_data != len(index_items):
                 raise exceptions.ModelError(
                     f"{name} | Length mismatch between data ({data}) and index ({index_items}) in input definition. "
                     "Check lengths of arrays or set `config.broadcast_input_data` to True "
-- 
2.43.0


From 88e57083870a95187019e1661c52bf86a8b8897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:57 +0000
Subject: [PATCH 44/71] fix: links must have both ends if a node is only
 defined in a data table

---
 src/calliope/preprocess/model_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 9bcb8a7..ec9a01d 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -205,6 +205,10 @@ class ModelDataBuilder(ModelDTypeUpdater):
         """
         active_node_dict = self._inherit_defs("nodes")
         links_at_nodes = self._links_to_node_format(active_node_dict)
+        # Nodes that are only known from data tables may have links, too
+        for node_name in links_at_nodes:
+            if node_name not in active_node_dict:
+                active_node_dict[node_name] = AttrDict({"techs": None})
 
         node_tech_data = []
         for node_name, node_data in active_node_dict.items():
-- 
2.43.0


From cd3fd73339ba074295e51f1db2135d5e875d3cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:19 +0000
Subject: [PATCH 45/71] fix: time series must be in order whatever the format
 of their dates

---
 src/calliope/preprocess/model_data.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index ec9a01d..374eb6a 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -582,6 +582,13 @@ class ModelDataBuilder(ModelDTypeUpdater):
         to_add_update_dim_dtype = to_add.assign_coords(
             self._update_dtypes(to_add.coords, id_)
         )
+        # Dates may not have been in order as text, depending on their format
+        datetime_dims = [
+            dim
+            for dim in to_add_update_dim_dtype.dims
+            if to_add_update_dim_dtype[dim].dtype.kind == DATETIME_DTYPE
+        ]
+        to_add_update_dim_dtype = to_add_update_dim_dtype.sortby(datetime_dims)
         self.dataset = xr.merge(
             [to_add_update_dim_dtype, self.dataset],
             combine_attrs="no_conflicts",
-- 
2.43.0


From 4037b35bbe6a84b110220335997ca1854ecfd67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:13 +0000
Subject: [PATCH 46/71] fix: clusters must be linked to their last timestep
 whatever hour their days begin

---
 src/calliope/preprocess/time.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/calliope/preprocess/time.py b/src/calliope/preprocess/time.py
index ddd4d10..52bff39 100644
--- a/src/calliope/preprocess/time.py
+++ b/src/calliope/preprocess/time.py
@@ -267,11 +267,13 @@ def _lookup_clusters(dataset: xr.Dataset, grouper: pd.Series) -> xr.Dataset:
     dataset["cluster_first_timestep"] = dataset.timesteps.isin(
         dataset.timesteps.groupby("timesteps.date").first()
     )
+    timesteps = dataset.timesteps.to_series()
+    dates = timesteps.dt.date
     dataset["lookup_cluster_last_timestep"] = (
-        dataset.timesteps.groupby("timesteps.date")
-        .last()
-        .rename({"date": "timesteps"})
-        .reindex_like(dataset.timesteps)
+        timesteps.groupby(dates)
+        .transform("last")
+        .where(~dates.duplicated())
+        .to_xarray()
     )
 
     dataset["lookup_datestep_cluster"] = xr.DataArray(
-- 
2.43.0


From 604b3ac57ee73644ff5f7a3bbe4dd8be1442a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:05 +0000
Subject: [PATCH 47/71] fix: missing strings must still be missing after a
 model is saved and read

---
 src/calliope/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index b0f1604..1e2ec3a 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -43,6 +43,10 @@ def read_netcdf(
         _deserialise(model_data.attrs)
         for var in model_data.data_vars.values():
             _deserialise(var.attrs)
+        for name, var in model_data.data_vars.items():
+            # NetCDF has no missing value for strings: they are stored as empty strings.
+            if var.dtype.kind in ["U", "O"]:
+                model_data[name] = var.where(var != "")
         datasets[group] = model_data
     return datasets
 
-- 
2.43.0


From 6d9dda39a171faff3671f441d853a87655696698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 48/71] fix: boolean lookups that are loaded as strings must
 keep their values (layout of the others unchanged)

---
 src/calliope/preprocess/model_data.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 374eb6a..16724a3 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -110,12 +110,11 @@ class ModelDTypeUpdater(ABC):
                     )
                 case "bool":
                     # booleans loaded from files alongside other data are strings
-                    updated_var = xr.where(
-                        var_data.isin(["False", "false", "FALSE"]),
-                        False,
-                        var_data.fillna(False),
-                        keep_attrs=True,
-                    ).astype(dtype)
+                    updated_var = var_data.fillna(False)
+                    is_false = updated_var.isin(["False", "false", "FALSE"])
+                    if is_false.any():
+                        updated_var = updated_var.where(~is_false, False)
+                    updated_var = updated_var.astype(dtype)
                 case _:
                     updated_var = var_data.astype(dtype)
 
-- 
2.43.0


From 7f09dbcb0e6697b554c6fafe0a1c209b8129ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:18 +0000
Subject: [PATCH 49/71] fix: attributes of coordinates must be restored when a
 model is read

---
 src/calliope/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 1e2ec3a..eca1a56 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -41,7 +41,7 @@ def read_netcdf(
             datasets[group] = xr.Dataset()
             continue
         _deserialise(model_data.attrs)
-        for var in model_data.data_vars.values():
+        for var in model_data.variables.values():
             _deserialise(var.attrs)
         for name, var in model_data.data_vars.items():
             # NetCDF has no missing value for strings: they are stored as empty strings.
-- 
2.43.0


From ab224eecc6329854e5f07efb5563e26eee1ff4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:04 +0000
Subject: [PATCH 50/71] fix: a refused save must not alter the attributes of
 the model in memory

---
 src/calliope/io.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index eca1a56..dda070e 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -5,7 +5,6 @@
 import importlib.resources
 import logging
 import os
-from copy import deepcopy
 from io import StringIO
 from pathlib import Path
 from typing import Literal
@@ -145,9 +144,8 @@ def save_netcdf(
     **kwargs,
 ):
     """Save the model to a netCDF file."""
-    original_model_data_attrs = deepcopy(model_data.attrs)
-    for key, value in kwargs.items():
-        model_data.attrs[key] = value
+    # Attributes are serialised in a copy: the model itself must not change
+    model_data = model_data.copy().assign_attrs(kwargs)
 
     _serialise(model_data.attrs)
     for var in model_data.data_vars.values():
@@ -166,22 +164,15 @@ def save_netcdf(
         for k, v in model_data.data_vars.items()
     }
 
-    try:
-        model_data.to_netcdf(
-            path,
-            mode=mode,
-            format="netCDF4",
-            engine="netcdf4",
-            encoding=encoding,
-            group=group_name,
-        )
-        model_data.close()
-    finally:  # Revert model_data.attrs back
-        model_data.attrs = original_model_data_attrs
-        for var in model_data.data_vars.values():
-            _deserialise(var.attrs)
-        for var in model_data.coords.values():
-            _deserialise(var.attrs)
+    model_data.to_netcdf(
+        path,
+        mode=mode,
+        format="netCDF4",
+        engine="netcdf4",
+        encoding=encoding,
+        group=group_name,
+    )
+    model_data.close()
 
 
 def save_csv(
-- 
2.43.0


From 49175fe68565929ff3afd5d0a543fd24f87f067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 51/71] fix: generated scripts must be valid in any POSIX
 shell, not only where sh is bash

---
 src/calliope/util/generate_runs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/util/generate_runs.py b/src/calliope/util/generate_runs.py
index 0169e00..b4231ca 100644
--- a/src/calliope/util/generate_runs.py
+++ b/src/calliope/util/generate_runs.py
@@ -73,7 +73,7 @@ def generate_bash_script(
     lines_start = [
         "#!/bin/sh",
         "",
-        "function process_case () {",
+        "process_case () {",
         '    case "$1" in',
         "",
     ]
@@ -81,7 +81,7 @@ def generate_bash_script(
         "    esac",
         "}",
         "",
-        "if [[ $# -eq 0 ]] ; then",
+        "if [ $# -eq 0 ] ; then",
         "    echo No parameter given, running all runs sequentially...",
         f"    for i in $(seq 1 {len(commands)}); do process_case $i; done",
         "else",
-- 
2.43.0


From 9ab8262f5fef62bdd0734c746ff3620a23dc0c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 52/71] fix: SLURM scripts must request the given time also if
 it is a day or longer

---
 src/calliope/util/generate_runs.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/calliope/util/generate_runs.py b/src/calliope/util/generate_runs.py
index b4231ca..ba17bd7 100644
--- a/src/calliope/util/generate_runs.py
+++ b/src/calliope/util/generate_runs.py
@@ -9,8 +9,6 @@ or sequentially on any machine.
 
 import os
 
-import pandas as pd
-
 from calliope.io import read_rich_yaml
 
 
@@ -162,9 +160,8 @@ def generate_sbatch_script(
 
     if ":" not in cluster_time:
         # Assuming time given as minutes, so needs changing to %H:%M:%S
-        cluster_time = pd.to_datetime(float(cluster_time), unit="m").strftime(
-            "%H:%M:%S"
-        )
+        minutes, seconds = divmod(round(float(cluster_time) * 60), 60)
+        cluster_time = f"{minutes // 60:02d}:{minutes % 60:02d}:{seconds:02d}"
 
     lines = [
         "#!/bin/bash",
-- 
2.43.0


From 837d80c0809c75090ba87ffc7c03dac2e5900b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 53/71] fix: runs are generated from overrides if the list of
 scenarios is empty

---
 src/calliope/util/generate_runs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/util/generate_runs.py b/src/calliope/util/generate_runs.py
index ba17bd7..396b776 100644
--- a/src/calliope/util/generate_runs.py
+++ b/src/calliope/util/generate_runs.py
@@ -32,7 +32,7 @@ def generate_runs(model_file, scenarios=None, additional_args=None, override_dic
             override = read_rich_yaml(override_dict)
             config.union(override, allow_override=True, allow_replacement=True)
 
-        if "scenarios" in config:
+        if config.get("scenarios", None):
             runs = config.scenarios.keys()
         else:
             runs = config.overrides.keys()
-- 
2.43.0


From 6ac016a83b2ed88945d1e05cffdd938224c402b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 54/71] fix: generated scripts must find model files whose path
 contains spaces

---
 src/calliope/util/generate_runs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/calliope/util/generate_runs.py b/src/calliope/util/generate_runs.py
index 396b776..da18aa4 100644
--- a/src/calliope/util/generate_runs.py
+++ b/src/calliope/util/generate_runs.py
@@ -44,6 +44,9 @@ def generate_runs(model_file, scenarios=None, additional_args=None, override_dic
     # len(str(x)) gives us the number of digits in x, for padding
     i_string = "{:0>" + str(len(str(len(runs)))) + "d}"
 
+    if any(i.isspace() for i in str(model_file)):
+        model_file = f'"{model_file}"'
+
     for i, run in enumerate(runs):
         cmd = (
             f"calliope run {model_file} --scenario {run} "
-- 
2.43.0


From 8c4321970e449c1aa14965f6c2ba009a2b74c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 55/71] fix: empty lists in attributes must still be lists
 after a model is saved and read

---
 src/calliope/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index dda070e..c7bd355 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -71,10 +71,10 @@ def _serialise(attrs: dict) -> None:
             Attribute dictionary from an xarray Dataset/DataArray.
             Changes will be made in-place, so be sure to supply a copy of your dictionary if you want access to its original state.
     """
-    # Keep track of single element lists, to listify them again when loading from file.
+    # Keep track of single element (and empty) lists, to listify them again when loading from file.
 
     attrs["serialised_single_element_list"] = [
-        k for k, v in attrs.items() if isinstance(v, list) and len(v) == 1
+        k for k, v in attrs.items() if isinstance(v, list) and len(v) <= 1
     ]
 
     # Convert dict attrs to yaml strings
@@ -131,7 +131,7 @@ def _deserialise(attrs: dict) -> None:
     for attr in _pop_serialised_list(attrs, "serialised_nones"):
         attrs[attr] = None
     for attr in _pop_serialised_list(attrs, "serialised_single_element_list"):
-        attrs[attr] = listify(attrs[attr])
+        attrs[attr] = list(listify(attrs[attr]))
     for attr in _pop_serialised_list(attrs, "serialised_sets"):
         attrs[attr] = set(attrs[attr])
 
-- 
2.43.0


From 56799613f889bdaf2dcce6521b68045f1816e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:26 +0000
Subject: [PATCH 56/71] fix: operate mode must also work if one window covers
 all timesteps

---
 src/calliope/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index b7aedaf..3515fa7 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -574,7 +574,7 @@ class Model(ModelStructure):
             iteration_results = self.backend._solve(solver_config, warmstart=False)
             iteration_results.coords["timesteps"] = new_ts
 
-        results_list.append(iteration_results.sel(timesteps=slice(windowstep, None)))
+        results_list.append(iteration_results)
         results = xr.concat(results_list, dim="timesteps", combine_attrs="drop")
         results.attrs["termination_condition"] = ",".join(
             set(
-- 
2.43.0


From 5539b6a50e1312eb802cf4a1a683d9bd9d1753b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:26 +0000
Subject: [PATCH 57/71] fix: a model in operate mode can be built again with
 other windows

---
 src/calliope/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 3515fa7..bbcf371 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -484,6 +484,10 @@ class Model(ModelStructure):
             raise exceptions.ModelError(
                 "Unable to run this model in operate (i.e. dispatch) mode because time clustering is in use"
             )
+        # There may be other windows from a previous build
+        for coord_name in ["horizonsteps", "windowsteps"]:
+            if coord_name in self.inputs.coords:
+                del self.inputs[coord_name]
         self.inputs.coords["windowsteps"] = pd.date_range(
             self.inputs.timesteps[0].item(),
             self.inputs.timesteps[-1].item(),
-- 
2.43.0


From ab035ebbca79cd587a7b97315fd689fdb82b174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:26 +0000
Subject: [PATCH 58/71] fix: refuse operate mode horizons which are shorter
 than the window

---
 src/calliope/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index bbcf371..42886f5 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -496,6 +496,11 @@ class Model(ModelStructure):
         horizonsteps = self.inputs.coords["windowsteps"] + pd.Timedelta(
             operate_config.horizon
         )
+        if (horizonsteps[:-1].values < self.inputs.windowsteps[1:].values).any():
+            raise exceptions.ModelError(
+                "The operate mode horizon must not be shorter than the window: "
+                f"{operate_config.horizon} < {operate_config.window}"
+            )
         # We require an offset because pandas / xarray slicing is _inclusive_ of both endpoints
         # where we only want it to be inclusive of the left endpoint.
         # Except in the last time horizon, where we want it to include the right endpoint.
-- 
2.43.0


From f019b7108ff899fb778c843c0cab5720b0e57399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:26 +0000
Subject: [PATCH 59/71] fix: keep track of shadow prices when operate mode
 re-builds the model

---
 src/calliope/model.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index 42886f5..e854d3d 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -531,7 +531,7 @@ class Model(ModelStructure):
         if self._start_window_idx != 0:
             LOGGER.info("Optimisation model | Resetting model to first time window.")
             self._start_window_idx = 0
-            self.build(force=True)
+            self._rebuild_operate(solver_config)
 
         LOGGER.info("Optimisation model | Running first time window.")
 
@@ -562,7 +562,7 @@ class Model(ModelStructure):
                     "Optimisation model | Reaching the end of the timeseries. "
                     "Re-building model with shorter time horizon."
                 )
-                self.build(force=True)
+                self._rebuild_operate(solver_config)
             else:
                 new_inputs.coords["timesteps"] = self.backend.inputs.coords["timesteps"]
                 for param_name, param_data in new_inputs.data_vars.items():
@@ -594,6 +594,16 @@ class Model(ModelStructure):
         )
         return results
 
+    def _rebuild_operate(self, solver_config: config_schema.Solve) -> None:
+        """Build the optimisation problem for the current operate mode time window.
+
+        Args:
+            solver_config (config_schema.Solve): Calliope Solver configuration object.
+        """
+        self.build(force=True)
+        # The new optimisation problem doesn't know which shadow prices to track
+        self.backend.shadow_prices.track_constraints(solver_config.shadow_prices)
+
     def _recalculate_storage_initial(self, results: xr.Dataset) -> xr.DataArray:
         """Calculate the initial level of storage devices for a new operate mode time slice.
 
-- 
2.43.0


From dc89ceec2f6c429002c6a9aa53093240721ed6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:57 +0000
Subject: [PATCH 60/71] fix: building again in operate mode starts from the
 first window

---
 src/calliope/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index e854d3d..a68003a 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -285,6 +285,12 @@ class Model(ModelStructure):
                 "This model object already has a built optimisation problem. Use model.build(force=True) "
                 "to force the existing optimisation problem to be overwritten with a new one."
             )
+        self.config = self.config.update({"build": kwargs})
+        self._start_window_idx = 0
+        self._build()
+
+    def _build(self) -> None:
+        """Build the optimisation problem (in operate mode: of the current time window)."""
         log_time(
             LOGGER,
             self.runtime.timings,
@@ -292,7 +298,6 @@ class Model(ModelStructure):
             comment="Model: backend build starting",
         )
 
-        self.config = self.config.update({"build": kwargs})
         # Whatever was built before is gone, even if building fails half-way.
         self._is_built = False
 
@@ -600,7 +605,7 @@ class Model(ModelStructure):
         Args:
             solver_config (config_schema.Solve): Calliope Solver configuration object.
         """
-        self.build(force=True)
+        self._build()
         # The new optimisation problem doesn't know which shadow prices to track
         self.backend.shadow_prices.track_constraints(solver_config.shadow_prices)
 
-- 
2.43.0


From c237e9896e0e2de65890c4626f481bedf0b63e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 61/71] fix: a problem is reported as not solved also if the
 solver doesn't say why

---
 src/calliope/backend/pyomo_backend_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 5d1a510..efda02c 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -386,7 +386,11 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
 
         termination = results.solver[0].termination_condition
 
-        if pe.TerminationCondition.to_solver_status(termination) == pe.SolverStatus.ok:
+        # Some solvers don't say why there is no solution (condition: "other")
+        if (
+            pe.TerminationCondition.to_solver_status(termination) == pe.SolverStatus.ok
+            and len(results.solution) > 0
+        ):
             self._instance.load_solution(results.solution[0])
             results = self.load_results(solve_config.postprocessing_active)
         else:
-- 
2.43.0


From 9a08e4e9b15402a9c6f89ea651ffaf0f8272821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 62/71] fix: evolving average scores of continued SPORES runs
 consider all earlier SPORES

---
 src/calliope/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index a68003a..ca70350 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -644,6 +644,7 @@ class Model(ModelStructure):
         spores_config: config_schema.SolveSpores = solver_config.spores
 
         latest_spore: int = 0
+        earlier_results: list[xr.Dataset] = []
         if not spores_config.use_latest_results:
             LOGGER.info("Optimisation model | Running baseline model.")
             self.backend.set_objective(self.config.build.objective)
@@ -655,6 +656,11 @@ class Model(ModelStructure):
                 f"Optimisation model | Restarting SPORES from SPORE {latest_spore} results."
             )
             baseline_results = self.results.sel(spores=latest_spore).drop_vars("spores")
+            earlier_results = [
+                self.results.sel(spores=spore).drop_vars("spores")
+                for spore in self.results.spores.values
+                if spore < latest_spore
+            ]
             self.backend.update_input(
                 "spores_score", baseline_results.spores_score_cumulative
             )
@@ -697,7 +703,7 @@ class Model(ModelStructure):
 
         for spore in spore_range:
             LOGGER.info(f"Optimisation model | Running SPORE {spore}.")
-            self._spores_update_model(results_list, spores_config)
+            self._spores_update_model([*earlier_results, *results_list], spores_config)
 
             iteration_results = self.backend._solve(solver_config, warmstart=False)
             self._spores_save_model(iteration_results, spores_config, spore)
-- 
2.43.0


From 52f66cd74cf9d4527f15fbc3c0d7bcf7e5407ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 63/71] fix: technologies whose SPORES tracking parameter is
 false are not tracked

---
 src/calliope/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index ca70350..d3c201d 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -894,9 +894,9 @@ class Model(ModelStructure):
 
         # Filter for technologies of interest
         spores_techs = (
-            self.inputs.get(
-                spores_config.tracking_parameter, xr.DataArray(True)
-            ).notnull()
+            self.inputs.get(spores_config.tracking_parameter, xr.DataArray(True))
+            .fillna(False)
+            .astype(bool)
             & self.inputs.definition_matrix
         )
         old_score = self.backend.get_parameter(
-- 
2.43.0


From 681bfcf26c91052ea24f1ef64a84cb4411e9d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:29 +0000
Subject: [PATCH 64/71] fix: SPORES baselines are not subject to the maximum
 cost of an earlier run

---
 src/calliope/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/calliope/model.py b/src/calliope/model.py
index d3c201d..34f553a 100644
--- a/src/calliope/model.py
+++ b/src/calliope/model.py
@@ -642,11 +642,17 @@ class Model(ModelStructure):
         )
 
         spores_config: config_schema.SolveSpores = solver_config.spores
+        base_cost_default = self.math.build.parameters["spores_baseline_cost"].default
 
         latest_spore: int = 0
         earlier_results: list[xr.Dataset] = []
         if not spores_config.use_latest_results:
             LOGGER.info("Optimisation model | Running baseline model.")
+            # The baseline is not subject to the maximum cost of an earlier run
+            self.backend.update_input(
+                "spores_baseline_cost",
+                self.inputs.get("spores_baseline_cost", base_cost_default),
+            )
             self.backend.set_objective(self.config.build.objective)
             baseline_results = self.backend._solve(solver_config, warmstart=False)
             self._spores_save_model(baseline_results, spores_config, 0)
@@ -685,7 +691,6 @@ class Model(ModelStructure):
                 "Ensure your baseline model can solve successfully by running it in `base` mode."
             )
 
-        base_cost_default = self.math.build.parameters["spores_baseline_cost"].default
         constraining_cost = baseline_results.get(
             "spores_baseline_cost_tracked", self.inputs.get("spores_baseline_cost")
         )
-- 
2.43.0


From 79c109f36ff8a759a5565900b4a3b059cd8a68a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:15 +0000
Subject: [PATCH 65/71] fix: total generation and levelised costs consider
 timestep weights also for outflows

---
 src/calliope/math/base.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index 9bf2d71..6c6c9f6 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1278,7 +1278,7 @@ postprocessed:
     default: 0
     where: flow_out AND NOT base_tech==demand
     equations:
-      - expression: sum(flow_out + flow_export * timestep_weights, over=[nodes, timesteps])
+      - expression: sum((flow_out + flow_export) * timestep_weights, over=[nodes, timesteps])
 
   systemwide_levelised_cost:
     title: Systemwide levelised cost of energy (LCOE)
-- 
2.43.0


From da34a1212d5df0337c83de588beacf829dd371ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:46 +0000
Subject: [PATCH 66/71] fix: re-building a variable without elements that was
 fixed

---
 src/calliope/backend/gurobi_backend_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index 609e7fb..5cee3af 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -409,7 +409,7 @@ class GurobiBackendModel(backend_model.BackendModel):
         self._instance.update()
         fixed = self._fixed_variables.get(name, xr.DataArray(False))
         # parameters do not define the bounds of fixed variables
-        fixed_bounds = self.get_variable_bounds(name).where(fixed)
+        fixed_bounds = self.get_variable_bounds(name).astype(float).where(fixed)
         return {
             "fixed": fixed.where(fixed),
             "lb": changes.get("lb", fixed_bounds["lb"]),
-- 
2.43.0


From 86bceccd79f08b8d8daf5e726f249599ea265b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:46 +0000
Subject: [PATCH 67/71] fix: curtailment with a source that scales to nothing
 or does not vary over time

---
 src/calliope/math/base.yaml | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index 6c6c9f6..57ed646 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1325,7 +1325,9 @@ postprocessed:
       This is useful for renewable energy technologies, for which unused resource in any hour is effectively lost revenue.
     unit: unitless
     foreach: [nodes, techs, timesteps]
-    where: base_tech==supply AND source_use_max>0 AND NOT source_use_max==inf AND source_cap>0
+    where: >-
+      base_tech==supply AND source_use_max>0 AND NOT source_use_max==inf AND source_cap>0 AND
+      (source_unit==absolute OR (source_unit==per_cap AND sum(flow_cap, over=carriers)>0) OR (source_unit==per_area AND area_use>0))
     default: 0
     equations:
       - expression: 1 - (source_use / (source_use_max * $source_scaler))
@@ -1340,10 +1342,16 @@ postprocessed:
       This is useful for renewable energy technologies, for which unused resource in any hour is effectively lost revenue.
     unit: unitless
     foreach: [nodes, techs]
-    where: base_tech==supply AND source_use_max AND source_cap>0
+    where: >-
+      base_tech==supply AND source_use_max AND sum(source_use_max, over=timesteps)>0 AND source_cap>0 AND
+      (source_unit==absolute OR (source_unit==per_cap AND sum(flow_cap, over=carriers)>0) OR (source_unit==per_area AND area_use>0))
     default: 0
     equations:
-      - expression: 1 - (sum(source_use, over=timesteps) / sum(source_use_max * $source_scaler, over=timesteps))
+      - expression: >-
+          1 - (
+            sum(source_use * timestep_weights, over=timesteps) /
+            sum(source_use_max * $source_scaler * timestep_weights, over=timesteps)
+          )
     sub_expressions:
       source_scaler: *source_scaler
 
-- 
2.43.0


From eafeb68d91958379c41da7ded56fb8d03764a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:39 +0000
Subject: [PATCH 68/71] fix: limit flows of integer dispatch technologies
 without a unit size to their available capacity

---
 src/calliope/math/milp.yaml | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/calliope/math/milp.yaml b/src/calliope/math/milp.yaml
index 18a8f38..17a12ed 100644
--- a/src/calliope/math/milp.yaml
+++ b/src/calliope/math/milp.yaml
@@ -226,18 +226,24 @@ constraints:
       Set the upper bound of a technology's ability to produce carriers,
       for any technology using integer units to define its capacity.
     foreach: [nodes, techs, carriers, timesteps]
-    where: "flow_out AND operating_units AND flow_cap_per_unit"
+    where: "flow_out AND operating_units"
     equations:
-      - expression: flow_out <= operating_units * timestep_resolution * flow_cap_per_unit * flow_out_parasitic_eff
+      - where: flow_cap_per_unit
+        expression: flow_out <= operating_units * timestep_resolution * flow_cap_per_unit * flow_out_parasitic_eff
+      - where: available_flow_cap
+        expression: flow_out <= available_flow_cap * timestep_resolution * flow_out_parasitic_eff
 
   flow_in_max_milp:
     description: >-
       Set the upper bound of a technology's ability to consume carriers,
       for any technology using integer units to define its capacity.
     foreach: [nodes, techs, carriers, timesteps]
-    where: "flow_in AND operating_units AND flow_cap_per_unit"
+    where: "flow_in AND operating_units"
     equations:
-      - expression: flow_in <= operating_units * timestep_resolution * flow_cap_per_unit
+      - where: flow_cap_per_unit
+        expression: flow_in <= operating_units * timestep_resolution * flow_cap_per_unit
+      - where: available_flow_cap
+        expression: flow_in <= available_flow_cap * timestep_resolution
 
   flow_out_min_milp:
     description: >-
-- 
2.43.0


From 700c8021077a978a692380dc0e9016e02a9af0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:39 +0000
Subject: [PATCH 69/71] fix: apply the systemwide minimum of purchased units
 without a systemwide maximum

---
 src/calliope/math/milp.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/milp.yaml b/src/calliope/math/milp.yaml
index 17a12ed..1d8232d 100644
--- a/src/calliope/math/milp.yaml
+++ b/src/calliope/math/milp.yaml
@@ -310,7 +310,7 @@ constraints:
       across all nodes where the technology can exist,
       for any technology using integer units to define its capacity.
     foreach: [techs]
-    where: "purchased_units AND purchased_units_max_systemwide"
+    where: "purchased_units AND purchased_units_min_systemwide"
     equations:
       - expression: sum(purchased_units, over=nodes) >= purchased_units_min_systemwide
 
-- 
2.43.0


From e5519eff81c04327515ed318d909b14fc8500d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:39 +0000
Subject: [PATCH 70/71] fix: count purchase costs per distance without a
 purchase cost

---
 src/calliope/math/milp.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/milp.yaml b/src/calliope/math/milp.yaml
index 1d8232d..8f552ed 100644
--- a/src/calliope/math/milp.yaml
+++ b/src/calliope/math/milp.yaml
@@ -448,7 +448,7 @@ global_expressions:
     default: 0
     unit: cost
     foreach: [nodes, techs, costs]
-    where: cost_purchase AND purchased_units
+    where: (cost_purchase OR cost_purchase_per_distance) AND purchased_units
     order: -1
     equations:
       - where: base_tech==transmission
-- 
2.43.0


From d0da601c63f58ccb9f3d8af138fae78ecd33797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:27 +0000
Subject: [PATCH 71/71] fix: ask clustered models for inter-cluster storage
 only if they have cyclic storage

---
 src/calliope/math/base.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index 57ed646..66a0a7e 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1423,7 +1423,7 @@ checks:
     errors: warn
 
   cyclic_storage_needs_inter_cluster:
-    where: cyclic_storage AND lookup_cluster_last_timestep
+    where: cyclic_storage==True AND (base_tech==storage OR include_storage==True) AND lookup_cluster_last_timestep
     message: >-
       Include the `storage_inter_cluster_storage` pre-defined math to allow cyclic storage alongside timeseries clustering.
     errors: raise
-- 
2.43.0

