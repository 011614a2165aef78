From 857539c5307b56102c6c098d087122a909e05e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 01/33] fix: accept TimeSeriesData for relative flow limits in
 the plausibility check

---
 flixOpt/elements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index e2402d6..1e1f932 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -8,7 +8,7 @@ from typing import Dict, List, Optional, Tuple, Union
 import numpy as np
 
 from .config import CONFIG
-from .core import Numeric, Numeric_TS, Skalar
+from .core import Numeric, Numeric_TS, Skalar, TimeSeriesData
 from .effects import EffectValues, effect_values_to_time_series
 from .features import InvestmentModel, OnOffModel, PreventSimultaneousUsageModel
 from .interface import InvestParameters, OnOffParameters
@@ -258,7 +258,11 @@ class Flow(Element):
 
     def _plausibility_checks(self) -> None:
         # TODO: Incorporate into Variable? (Lower_bound can not be greater than upper bound
-        if np.any(self.relative_minimum > self.relative_maximum):
+        relative_minimum, relative_maximum = (
+            bound.data if isinstance(bound, TimeSeriesData) else bound
+            for bound in (self.relative_minimum, self.relative_maximum)
+        )
+        if np.any(relative_minimum > relative_maximum):
             raise Exception(self.label_full + ': Take care, that relative_minimum <= relative_maximum!')
 
         if (
-- 
2.43.0


From ebca57993bcbdda7c35504f21aa771051e2075b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 02/33] fix: accept arrays as effects per switch-on and per
 running hour

---
 flixOpt/interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 17ac02b..1876f86 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -139,8 +139,12 @@ class OnOffParameters(Interface):
         force_switch_on : bool
             force creation of switch on variable, even if there is no switch_on_total_max
         """
-        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = effects_per_switch_on or {}
-        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = effects_per_running_hour or {}
+        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_switch_on if effects_per_switch_on is not None else {}
+        )
+        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_running_hour if effects_per_running_hour is not None else {}
+        )
         self.on_hours_total_min: Skalar = on_hours_total_min
         self.on_hours_total_max: Skalar = on_hours_total_max
         self.consecutive_on_hours_min: Numeric_TS = consecutive_on_hours_min
-- 
2.43.0


From 56567f6a5f314f78db32dd6cbd8242682ed65707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 03/33] fix: consecutive duration of previous values counts the
 steps after the last zero

---
 flixOpt/features.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index f05d7d2..c3d499c 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -603,7 +603,10 @@ class OnOffModel(ElementModel):
 
         # Find the indexes where value=`0` in a 1D-array
         zero_indices = np.where(np.isclose(binary_values, 0, atol=CONFIG.modeling.EPSILON))[0]
-        length_of_last_duration = zero_indices[-1] + 1 if zero_indices.size > 0 else len(binary_values)
+        # number of values after the last zero
+        length_of_last_duration = len(binary_values) - 1 - zero_indices[-1] if zero_indices.size > 0 else len(binary_values)
+        if length_of_last_duration == 0:
+            return 0
 
         if not np.isscalar(binary_values) and np.isscalar(dt_in_hours):
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours)
@@ -612,7 +615,7 @@ class OnOffModel(ElementModel):
             if length_of_last_duration > len(dt_in_hours):  # check that lengths are compatible
                 raise TypeError(
                     f'When trying to calculate the consecutive duration, the length of the last duration '
-                    f'({len(length_of_last_duration)}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
+                    f'({length_of_last_duration}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
                     f'as {binary_values=}'
                 )
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours[-length_of_last_duration:])
-- 
2.43.0


From 3f022373bf85c6fb367fb8a675c8a08404425655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 04/33] fix: previous on state of a component with several
 scalar previous flow rates

---
 flixOpt/features.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index c3d499c..30e0cac 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -558,16 +558,15 @@ class OnOffModel(ElementModel):
             A binary array (0 and 1) indicating the previous on/off states of the variables.
             Returns `array([0])` if no previous values are available.
         """
-        previous_values = [var.previous_values for var in self._defining_variables if var.previous_values is not None]
+        previous_values = [
+            np.atleast_1d(var.previous_values) for var in self._defining_variables if var.previous_values is not None
+        ]
 
         if not previous_values:
             return np.array([0])
         else:  # Convert to 2D-array and compute binary on/off states
             previous_values = np.array(previous_values)
-            if previous_values.ndim > 1:
-                return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
-            else:
-                return (~np.isclose(previous_values, 0, atol=epsilon)).astype(int)
+            return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
 
     @classmethod
     def get_consecutive_duration(
-- 
2.43.0


From 841136567c2a49ad88a09e2efd9c689e9a3a1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 05/33] fix: storage end conditions refer to the end of the
 horizon and do not need a start value

---
 flixOpt/components.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index c716551..af61abe 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -480,9 +480,8 @@ class StorageModel(ComponentModel):
             self.sub_models.append(self._investment)
             self._investment.do_modeling(system_model)
 
-        # Initial charge state
-        if self.element.initial_charge_state is not None:
-            self._model_initial_and_final_charge_state(system_model)
+        # Initial and final charge state
+        self._model_initial_and_final_charge_state(system_model)
 
     def _model_initial_and_final_charge_state(self, system_model):
         indices_charge_state = range(system_model.indices.start, system_model.indices.stop + 1)  # additional
@@ -496,7 +495,7 @@ class StorageModel(ComponentModel):
             elif self.element.initial_charge_state == 'lastValueOfSim':
                 # eq: Q_Ladezustand(1) - Q_Ladezustand(end) = 0;
                 eq_initial.add_summand(self.charge_state, 1, system_model.indices[0])
-                eq_initial.add_summand(self.charge_state, -1, system_model.indices[-1])
+                eq_initial.add_summand(self.charge_state, -1, indices_charge_state[-1])
             else:
                 raise Exception(f'initial_charge_state has undefined value: {self.element.initial_charge_state}')
                 # TODO: Validation in Storage Class, not in Model
-- 
2.43.0


From d2b8d70f77d8b2c41cf9bc88308c377c883ac0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 06/33] fix: relative charge state limits of a storage may be
 given per time step

---
 flixOpt/components.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index af61abe..16a0cf9 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -530,10 +530,13 @@ class StorageModel(ComponentModel):
 
     @property
     def relative_charge_state_bounds(self) -> Tuple[Numeric, Numeric]:
-        return (
+        bounds = (
             self.element.relative_minimum_charge_state.active_data,
             self.element.relative_maximum_charge_state.active_data,
         )
+        # the charge state has one value more than there are time steps; without a limit for it, the last limit also holds
+        nr_of_time_steps = self.element.charging.model.flow_rate.length
+        return tuple(np.append(bound, bound[-1]) if np.shape(bound) == (nr_of_time_steps,) else bound for bound in bounds)
 
 
 class SourceAndSink(Component):
-- 
2.43.0


From eb9106e3f9f06f6d694cf76f7517c8c01b31dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 07/33] fix: minimum and fixed sizes of optional investments no
 longer force the investment

---
 flixOpt/components.py | 6 ++++--
 flixOpt/elements.py   | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 16a0cf9..4558ba0 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -523,9 +523,11 @@ class StorageModel(ComponentModel):
                 relative_upper_bound * self.element.capacity_in_flow_hours,
             )
         else:
+            invest_parameters = self.element.capacity_in_flow_hours
             return (
-                relative_lower_bound * self.element.capacity_in_flow_hours.minimum_size,
-                relative_upper_bound * self.element.capacity_in_flow_hours.maximum_size,
+                # an optional investment may be omitted, so the minimum size must not force a charge
+                0 if invest_parameters.optional else relative_lower_bound * invest_parameters.minimum_size,
+                relative_upper_bound * invest_parameters.maximum_size,
             )
 
     @property
diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 1e1f932..d6605c9 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -306,12 +306,14 @@ class FlowModel(ElementModel):
         self._investment: Optional[InvestmentModel] = None
 
     def do_modeling(self, system_model: SystemModel):
+        # an optional investment may be omitted, so its minimum size must not force a flow rate
+        can_be_zero = self.element.on_off_parameters is not None or (self.with_investment and self.element.size.optional)
         # eq relative_minimum(t) * size <= flow_rate(t) <= relative_maximum(t) * size
         self.flow_rate = create_variable(
             'flow_rate',
             self,
             system_model.nr_of_time_steps,
-            lower_bound=self.absolute_flow_rate_bounds[0] if self.element.on_off_parameters is None else 0,
+            lower_bound=0 if can_be_zero else self.absolute_flow_rate_bounds[0],
             upper_bound=self.absolute_flow_rate_bounds[1] if self.element.on_off_parameters is None else None,
             previous_values=self.element.previous_flow_rate,
         )
-- 
2.43.0


From dec02f495023332fe15ab42e27bc1e2e63ad9f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 08/33] fix: sizes of zero are taken as given instead of being
 replaced by the default

---
 flixOpt/elements.py  | 2 +-
 flixOpt/features.py  | 4 ++--
 flixOpt/interface.py | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index d6605c9..14f4322 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -217,7 +217,7 @@ class Flow(Element):
             previous flow rate of the component.
         """
         super().__init__(label, meta_data=meta_data)
-        self.size = size or CONFIG.modeling.BIG  # Default size
+        self.size = CONFIG.modeling.BIG if size is None else size  # Default size
         self.relative_minimum = relative_minimum
         self.relative_maximum = relative_maximum
         self.fixed_relative_profile = fixed_relative_profile
diff --git a/flixOpt/features.py b/flixOpt/features.py
index 30e0cac..5785a9d 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -60,7 +60,7 @@ class InvestmentModel(ElementModel):
 
     def do_modeling(self, system_model: SystemModel):
         invest_parameters = self._invest_parameters
-        if invest_parameters.fixed_size and not invest_parameters.optional:
+        if invest_parameters.fixed_size is not None and not invest_parameters.optional:
             self.size = create_variable('size', self, 1, fixed_value=invest_parameters.fixed_size)
         else:
             lower_bound = 0 if invest_parameters.optional else invest_parameters.minimum_size
@@ -117,7 +117,7 @@ class InvestmentModel(ElementModel):
             self._segments.do_modeling(system_model)
 
     def _create_bounds_for_optional_investment(self, system_model: SystemModel):
-        if self._invest_parameters.fixed_size:
+        if self._invest_parameters.fixed_size is not None:
             # eq: investment_size = isInvested * fixed_size
             eq_is_invested = create_equation('is_invested', self, 'eq')
             eq_is_invested.add_summand(self.size, -1)
diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 1876f86..ef8695a 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -76,7 +76,7 @@ class InvestParameters(Interface):
         self.specific_effects: EffectValuesInvest = specific_effects or {}
         self.effects_in_segments = effects_in_segments
         self._minimum_size = minimum_size
-        self._maximum_size = maximum_size or CONFIG.modeling.BIG  # default maximum
+        self._maximum_size = CONFIG.modeling.BIG if maximum_size is None else maximum_size  # default maximum
 
     def transform_data(self):
         from .effects import as_effect_dict
@@ -87,11 +87,11 @@ class InvestParameters(Interface):
 
     @property
     def minimum_size(self):
-        return self.fixed_size or self._minimum_size
+        return self._minimum_size if self.fixed_size is None else self.fixed_size
 
     @property
     def maximum_size(self):
-        return self.fixed_size or self._maximum_size
+        return self._maximum_size if self.fixed_size is None else self.fixed_size
 
 
 class OnOffParameters(Interface):
-- 
2.43.0


From 231c7e11536b27cc83901f93345d2e60d06a07d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 09/33] fix: transmission with absolute losses of zero

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 4558ba0..8ddc602 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -364,7 +364,7 @@ class TransmissionModel(ComponentModel):
         efficiency = 1 if self.element.relative_losses is None else (1 - self.element.relative_losses.active_data)
         eq_transmission.add_summand(in_flow.model.flow_rate, efficiency)
         eq_transmission.add_summand(out_flow.model.flow_rate, -1)
-        if self.element.absolute_losses is not None:
+        if self.element.absolute_losses is not None and in_flow.model._on is not None:
             eq_transmission.add_summand(in_flow.model._on.on, -1 * self.element.absolute_losses.active_data)
         return eq_transmission
 
-- 
2.43.0


From 945233f8fbe46ddf7dd195660cef36939a65bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 10/33] fix: predefined converters accept TimeSeriesData for
 all of their parameters

---
 flixOpt/linear_converters.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/flixOpt/linear_converters.py b/flixOpt/linear_converters.py
index 65e6e88..acf9b10 100644
--- a/flixOpt/linear_converters.py
+++ b/flixOpt/linear_converters.py
@@ -3,12 +3,12 @@ This Module contains high-level classes to easily model a FlowSystem.
 """
 
 import logging
-from typing import Dict, Optional
+from typing import Callable, Dict, Optional
 
 import numpy as np
 
 from .components import LinearConverter
-from .core import Numeric_TS, TimeSeriesData
+from .core import Numeric, Numeric_TS, TimeSeriesData
 from .elements import Flow
 from .interface import OnOffParameters
 
@@ -167,7 +167,7 @@ class CoolingTower(LinearConverter):
             label,
             inputs=[P_el, Q_th],
             outputs=[],
-            conversion_factors=[{P_el: 1, Q_th: -specific_electricity_demand}],
+            conversion_factors=[{P_el: 1, Q_th: _apply(lambda demand: -demand, specific_electricity_demand)}],
             on_off_parameters=on_off_parameters,
             meta_data=meta_data,
         )
@@ -232,7 +232,8 @@ class CHP(LinearConverter):
 
         check_bounds(eta_th, 'eta_th', self.label_full, 0, 1)
         check_bounds(eta_el, 'eta_el', self.label_full, 0, 1)
-        check_bounds(eta_el + eta_th, 'eta_th+eta_el', self.label_full, 0, 1)
+        eta_total = sum(eta.data if isinstance(eta, TimeSeriesData) else eta for eta in (eta_el, eta_th))
+        check_bounds(eta_total, 'eta_th+eta_el', self.label_full, 0, 1)
 
 
 class HeatPumpWithSource(LinearConverter):
@@ -265,7 +266,7 @@ class HeatPumpWithSource(LinearConverter):
 
         # super:
         electricity = {P_el: COP, Q_th: 1}
-        heat_source = {Q_ab: COP / (COP - 1), Q_th: 1}
+        heat_source = {Q_ab: _apply(lambda cop: cop / (cop - 1), COP), Q_th: 1}
 
         super().__init__(
             label,
@@ -284,6 +285,13 @@ class HeatPumpWithSource(LinearConverter):
         check_bounds(COP, 'eta_th', self.label_full, 1, 20)
 
 
+def _apply(function: Callable[[Numeric], Numeric], value: Numeric_TS) -> Numeric_TS:
+    """Applies a function to a value, also if it is wrapped in TimeSeriesData"""
+    if isinstance(value, TimeSeriesData):
+        return TimeSeriesData(function(value.data), value.agg_group, value.agg_weight)
+    return function(value)
+
+
 def check_bounds(
     value: Numeric_TS, parameter_label: str, element_label: str, lower_bound: Numeric_TS, upper_bound: Numeric_TS
 ):
-- 
2.43.0


From ea97d4906dc21ce5397804f585243a5d5d2d19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:32 +0000
Subject: [PATCH 11/33] fix: sums over selected indices of a variable use those
 indices

---
 flixOpt/math_modeling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 4fe7d70..03f59ee 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1129,7 +1129,9 @@ class PyomoModel(ModelingLanguage):
     def _summand_math_expression(self, summand: Summand, at_index: int = 0) -> 'pyo.Expression':
         pyomo_variable = self.mapping[summand.variable]
         if isinstance(summand, SumOfSummand):
-            return sum(pyomo_variable[summand.indices[j]] * summand.factor_vec[j] for j in summand.indices)
+            if len(summand.indices) == 1:
+                return sum(pyomo_variable[summand.indices[0]] * factor for factor in summand.factor_vec)
+            return sum(pyomo_variable[i] * factor for i, factor in zip(summand.indices, summand.factor_vec, strict=True))
 
         # Ausdruck für i-te Gleichung (falls Skalar, dann immer gleicher Ausdruck ausgegeben)
         if summand.length == 1:
-- 
2.43.0


From 50660f26a5c3e0c1823404855745c7b4a0b60f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:58 +0000
Subject: [PATCH 12/33] fix: binary results are rounded instead of truncated

---
 flixOpt/math_modeling.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 03f59ee..40bde78 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1012,12 +1012,10 @@ class PyomoModel(ModelingLanguage):
         math_model.result_of_objective = self.model.objective.expr()
         for variable in math_model.variables:
             raw_results = self.mapping[variable].get_values().values()  # .values() of dict, because {0:0.1, 1:0.3,...}
-            if variable.is_binary:
-                dtype = np.int8  # geht das vielleicht noch kleiner ???
-            else:
-                dtype = float
             # transform to np-array (fromiter() is 5-7x faster than np.array(list(...)) )
-            result = np.fromiter(raw_results, dtype=dtype)
+            result = np.fromiter(raw_results, dtype=float)
+            if variable.is_binary:  # solvers return binaries within a tolerance, e.g. 0.9999999
+                result = np.rint(result).astype(np.int8)  # geht das vielleicht noch kleiner ???
             # Falls skalar:
             if len(result) == 1:
                 variable.result = result[0]
-- 
2.43.0


From 553c088987af305c0f7c9cc6810297cbca4d2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 13/33] fix: the duration of the last time step is counted in
 hours

---
 flixOpt/flow_system.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 42c2fbe..3aa4330 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -52,9 +52,12 @@ class FlowSystem:
         if self.time_series.dtype == np.dtype('datetime64[ns]'):
             self.time_series = self.time_series.astype('datetime64[us]')
 
-        self.last_time_step_hours = (
-            self.time_series[-1] - self.time_series[-2] if last_time_step_hours is None else last_time_step_hours
-        )
+        if last_time_step_hours is None:
+            self.last_time_step_hours = self.time_series[-1] - self.time_series[-2]
+        elif isinstance(last_time_step_hours, np.timedelta64):
+            self.last_time_step_hours = last_time_step_hours
+        else:  # hours to a duration, as a plain number would be counted in the resolution of the time_series
+            self.last_time_step_hours = last_time_step_hours * np.timedelta64(3600 * 10**6, 'us')
         self.time_series_with_end = np.append(self.time_series, self.time_series[-1] + self.last_time_step_hours)
         self.previous_dt_in_hours: Union[int, float, np.ndarray] = (
             ((self.time_series[1] - self.time_series[0]) / np.timedelta64(1, 'h'))
-- 
2.43.0


From b5d68bbbda2546731d5cbc7f5bf09bba9c6bb454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:03 +0000
Subject: [PATCH 14/33] fix: effect values given as a dict are not altered

---
 flixOpt/effects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 1b359b8..612102a 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -218,6 +218,7 @@ def effect_values_to_time_series(
     if nested_values is None:
         return None
     else:
+        nested_values = dict(nested_values)  # the dict of the user stays as it is, it might be used several times
         standard_value = nested_values.pop(None, None)
         transformed_values = nested_values_to_time_series(nested_values, label_suffix, parent_element)
         if standard_value is not None:
-- 
2.43.0


From 1d8c7ffebf280905c86cdb2fb5fc4186fefe0690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 15/33] fix: start values of a segment after one with a
 shortened overlap

---
 flixOpt/calculation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5a7a16f..0da0e35 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -483,7 +483,8 @@ class SegmentedCalculation(Calculation):
         This function gets the last values of the previous solved segment and
         inserts them as start values for the nest segment
         """
-        final_index_of_prior_segment = -(1 + self.overlap_length)
+        # The overlap of the prior segment might be cut off by the end of the horizon -> counting from the start
+        final_index_of_prior_segment = self.segment_length - 1
         start_values_of_this_segment = {}
         for flow in self.flow_system.flows.values():
             flow.previous_flow_rate = flow.model.flow_rate.result[
@@ -492,7 +493,7 @@ class SegmentedCalculation(Calculation):
             start_values_of_this_segment[flow.label_full] = flow.previous_flow_rate
         for comp in self.flow_system.components.values():
             if isinstance(comp, Storage):
-                comp.initial_charge_state = comp.model.charge_state.result[final_index_of_prior_segment]
+                comp.initial_charge_state = comp.model.charge_state.result[final_index_of_prior_segment + 1]
                 start_values_of_this_segment[comp.label_full] = comp.initial_charge_state
 
         self._transfered_start_values[segment_name] = start_values_of_this_segment
-- 
2.43.0


From 75338b40a29c152dfb50fbf75c91fb5c83a8eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 16/33] fix: a segmented calculation covers the selected time
 indices

---
 flixOpt/calculation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 0da0e35..5a86aad 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -373,7 +373,7 @@ class SegmentedCalculation(Calculation):
             if self.sub_calculations:
                 self._transfer_start_values(name_of_segment)
             time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices.start}...{time_indices.stop - 1}):')
+            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
             calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
             # TODO: Add Before Values if available
             self.sub_calculations.append(calculation)
@@ -506,9 +506,12 @@ class SegmentedCalculation(Calculation):
             if isinstance(comp, Storage):
                 comp.initial_charge_state = self._original_start_values[comp]
 
-    def _get_indices(self, segment_index: int) -> range:
+    def _get_indices(self, segment_index: int) -> Union[range, List[int]]:
         start = segment_index * self.segment_length
-        return range(start, min(start + self.segment_length + self.overlap_length, self._total_length))
+        stop = min(start + self.segment_length + self.overlap_length, self._total_length)
+        if self.time_indices is not None:
+            return self.time_indices[start:stop]
+        return range(start, stop)
 
     @property
     def segment_length_with_overlap(self):
-- 
2.43.0


From 1b26e8472e74da5718be55da477ea54d7c6e6669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 17/33] fix: original start values are restored if a segment
 fails

---
 flixOpt/calculation.py | 47 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5a86aad..61a5709 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -368,29 +368,30 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
 
-        for i in range(self.number_of_segments):
-            name_of_segment = f'Segment_{i + 1}'
-            if self.sub_calculations:
-                self._transfer_start_values(name_of_segment)
-            time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
-            calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
-            # TODO: Add Before Values if available
-            self.sub_calculations.append(calculation)
-            calculation.do_modeling()
-            invest_elements = [
-                model.element.label_full
-                for model in calculation.system_model.sub_models
-                if isinstance(model, InvestmentModel)
-            ]
-            if invest_elements:
-                logger.critical(
-                    f'Investments are not supported in Segmented Calculation! '
-                    f'Following elements Contain Investments: {invest_elements}'
-                )
-            calculation.solve(solver, save_results=False)
-
-        self._reset_start_values()
+        try:
+            for i in range(self.number_of_segments):
+                name_of_segment = f'Segment_{i + 1}'
+                if self.sub_calculations:
+                    self._transfer_start_values(name_of_segment)
+                time_indices = self._get_indices(i)
+                logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
+                calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
+                # TODO: Add Before Values if available
+                self.sub_calculations.append(calculation)
+                calculation.do_modeling()
+                invest_elements = [
+                    model.element.label_full
+                    for model in calculation.system_model.sub_models
+                    if isinstance(model, InvestmentModel)
+                ]
+                if invest_elements:
+                    logger.critical(
+                        f'Investments are not supported in Segmented Calculation! '
+                        f'Following elements Contain Investments: {invest_elements}'
+                    )
+                calculation.solve(solver, save_results=False)
+        finally:
+            self._reset_start_values()
 
         for calc in self.sub_calculations:
             for key, value in calc.durations.items():
-- 
2.43.0


From 21e8b477da7c7f83b2a57ad8374bd970435e55f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 18/33] fix: an aggregation weight of zero is used as given

---
 flixOpt/aggregation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index d2869d9..241c326 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -244,7 +244,8 @@ class TimeSeriesCollection:
         self.group_weights = {group: 1 / size for group, size in group_size.items()}
         for time_series in self.time_series_list:
             time_series.aggregation_weight = self.group_weights.get(
-                time_series.aggregation_group, time_series.aggregation_weight or 1
+                time_series.aggregation_group,
+                1 if time_series.aggregation_weight is None else time_series.aggregation_weight,
             )
 
     def _unique_labels(self):
-- 
2.43.0


From e073d354eb5bb16429c6828028ac87dde8de061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 19/33] fix: period freedom without any periods that are alike

---
 flixOpt/aggregation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index 241c326..5afc59c 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -400,7 +400,7 @@ class AggregationModel(ElementModel):
         eq.add_summand(variable, -1, indices_of_variable=indices[1])
 
         # Korrektur: (bisher nur für Binärvariablen:)
-        if variable.is_binary and self.aggregation_parameters.percentage_of_period_freedom > 0:
+        if variable.is_binary and self.aggregation_parameters.percentage_of_period_freedom > 0 and length > 0:
             # correction-vars (so viele wie Indexe in eq:)
             var_k1 = create_variable(f'Korr1_{variable.label}', self, length, is_binary=True)
             var_k0 = create_variable(f'Korr0_{variable.label}', self, length, is_binary=True)
-- 
2.43.0


From 99696137d082c3a487904bc1dc5eb24388afebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 20/33] fix: penalty for the freedom of a single pair of time
 steps

---
 flixOpt/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 612102a..0395268 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -388,7 +388,7 @@ class EffectCollectionModel(ElementModel):
         factor: Numeric,
     ) -> None:
         assert variable is not None, 'A Variable must be passed to add a share to penalty! Else its a constant Penalty!'
-        self.penalty.add_share(self._system_model, name, variable, factor, True)
+        self.penalty.add_share(self._system_model, name, variable, factor, share_as_sum=variable.length > 1)
 
     def add_share_between_effects(self):
         for origin_effect in self.element.effects.values():
-- 
2.43.0


From 4ab70ce2d0c89ba0fe0b2d1362c294fd62591257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 21/33] fix: time series of conversion factors and segments
 have distinct labels

---
 flixOpt/components.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 8ddc602..98df88d 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -100,20 +100,20 @@ class LinearConverter(Component):
             for flow, segments in self.segmented_conversion_factors.items():
                 segmented_conversion_factors[flow] = [
                     (
-                        _create_time_series('Stuetzstelle', segment[0], self),
-                        _create_time_series('Stuetzstelle', segment[1], self),
+                        _create_time_series(f'{flow.label}_Stuetzstelle_{i}_start', segment[0], self),
+                        _create_time_series(f'{flow.label}_Stuetzstelle_{i}_end', segment[1], self),
                     )
-                    for segment in segments
+                    for i, segment in enumerate(segments)
                 ]
             self.segmented_conversion_factors = segmented_conversion_factors
 
     def _transform_conversion_factors(self) -> List[Dict[Flow, TimeSeries]]:
         """macht alle Faktoren, die nicht TimeSeries sind, zu TimeSeries"""
         list_of_conversion_factors = []
-        for conversion_factor in self.conversion_factors:
+        for i, conversion_factor in enumerate(self.conversion_factors):
             transformed_dict = {}
             for flow, values in conversion_factor.items():
-                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor', values, self)
+                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor{i}', values, self)
             list_of_conversion_factors.append(transformed_dict)
         return list_of_conversion_factors
 
-- 
2.43.0


From 23b6c4841180a9e4b36b9af85c4233b5205ff6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 22/33] fix: no empty equations if no periods are alike (saving
 the results failed)

---
 flixOpt/aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index 5afc59c..88f3db8 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -365,6 +365,8 @@ class AggregationModel(ElementModel):
             components = [component for component in self.components_to_clusterize]
 
         indices = self.aggregation_data.get_equation_indices(skip_first_index_of_period=True)
+        if len(indices[0]) == 0:  # No periods are alike -> There is nothing to equate
+            return
 
         for component in components:
             if isinstance(component, Storage) and not self.aggregation_parameters.fix_storage_flows:
-- 
2.43.0


From cc1aa8c8ba779557a67a483348eb90c3cc9a53db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 23/33] fix: results of time series in days or weeks can be
 saved

---
 flixOpt/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 1196e75..df18f9a 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -7,7 +7,7 @@ import inspect
 import json
 import logging
 import pathlib
-from datetime import datetime
+from datetime import date
 from io import StringIO
 from typing import TYPE_CHECKING, Any, Dict, List, Literal, Optional, Union
 
@@ -610,7 +610,7 @@ def copy_and_convert_datatypes(data: Any, use_numpy: bool = True, use_element_la
 
     elif isinstance(data, (int, float, str, bool, type(None))):
         return data
-    elif isinstance(data, datetime):
+    elif isinstance(data, date):  # Also covers datetime. Time series in days or weeks consist of dates
         return data.isoformat()
 
     elif isinstance(data, (tuple, set)):
-- 
2.43.0


From 4ac4495350b808ce5a054810de7858e3f49bbc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 24/33] fix: names that are used twice in a FlowSystem are
 refused

---
 flixOpt/flow_system.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 3aa4330..ac8baaf 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -75,6 +75,7 @@ class FlowSystem:
     def add_effects(self, *args: Effect) -> None:
         for new_effect in list(args):
             logger.info(f'Registered new Effect: {new_effect.label}')
+            self._check_if_element_is_unique(new_effect)
             self.effect_collection.add_effect(new_effect)
 
     def add_components(self, *args: Component) -> None:
@@ -83,6 +84,7 @@ class FlowSystem:
         for new_component in new_components:
             logger.info(f'Registered new Component: {new_component.label}')
             self._check_if_element_is_unique(new_component)  # check if already exists:
+            self._check_if_flows_and_buses_are_unique(new_component)
             new_component.register_component_in_flows()  # Komponente in Flow registrieren
             new_component.register_flows_in_bus()  # Flows in Bus registrieren:
             self.components[new_component.label] = new_component  # Add to existing components
@@ -222,12 +224,29 @@ class FlowSystem:
         element : Element
             new element to check
         """
-        if element in self.all_elements:
+        if element in self.all_elements.values():
             raise Exception(f'Element {element.label} already added to FlowSystem!')
         # check if name is already used:
         if element.label_full in self.all_elements:
             raise Exception(f'Label of Element {element.label} already used in another element!')
 
+    def _check_if_flows_and_buses_are_unique(self, component: Component) -> None:
+        """
+        checks if the labels of the flows of a new component and of the buses they connect to are distinct
+
+        Parameters
+        ----------
+        component : Component
+            new component to check
+        """
+        flows = component.inputs + component.outputs
+        if len({flow.label for flow in flows}) < len(flows):
+            raise Exception(f'The Flows of Component {component.label} need to have different labels!')
+        used_elements = {**self.all_elements, component.label_full: component}
+        for bus in (flow.bus for flow in flows):
+            if used_elements.setdefault(bus.label_full, bus) is not bus:
+                raise Exception(f'Label of Bus {bus.label} already used in another element!')
+
     def get_time_data_from_indices(
         self, time_indices: Optional[Union[List[int], range]] = None
     ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, np.float64]:
-- 
2.43.0


From c52f151b92c7a5c031fe96699d2a06d632d8698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 25/33] fix: labels that hide other results are refused

---
 flixOpt/structure.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index df18f9a..0f46a0d 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -62,6 +62,8 @@ class SystemModel(MathModel):
             component_model.do_modeling(self)
         for bus_model in self.bus_models:  # Buses after Components, because FlowModels are created in ComponentModels
             bus_model.do_modeling(self)
+        for model in self.sub_models:
+            model.check_labels_of_results()
 
     def solve(self, solver: Solver, excess_threshold: Union[int, float] = 0.1):
         """
@@ -484,6 +486,14 @@ class ElementModel:
             to_process.extend(model.sub_models)
         return all_subs
 
+    def check_labels_of_results(self) -> None:
+        """Results are accessed by these labels, so they need to be distinct. Element labels might collide with others"""
+        labels = [variable.label_short for variable in self.variables.values()]
+        labels.extend(sub_model.label for sub_model in self.sub_models)
+        for label in labels:
+            if labels.count(label) > 1:
+                raise Exception(f'The label "{label}" is already used in the results of "{self.label_full}"!')
+
     def results(self) -> Dict:
         return {
             **{variable.label_short: variable.result for variable in self.variables.values()},
-- 
2.43.0


From 8cb9793d1d7ed7e8385b06cd3e58b9fdfceabd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 26/33] fix: solving again replaces the results of the prior
 solution

---
 flixOpt/calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 61a5709..5def895 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -165,6 +165,7 @@ class FullCalculation(Calculation):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
+        self._results = None  # results of a prior solution are outdated
         self.system_model.solve(solver)
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
@@ -295,6 +296,7 @@ class AggregatedCalculation(Calculation):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
+        self._results = None  # results of a prior solution are outdated
         self.system_model.solve(solver)
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
-- 
2.43.0


From 1180c4a45141bfedb87ac50cd8cba371c221efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 27/33] fix: solving a SegmentedCalculation again starts anew

---
 flixOpt/calculation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5def895..6f4eb31 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -369,6 +369,7 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{"":#^80}')
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
+        self.sub_calculations = []  # a prior run does not belong to this one
 
         try:
             for i in range(self.number_of_segments):
-- 
2.43.0


From a77d49b00faab67852cf3416456c794638b90bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 28/33] fix: description of components states whether
 simultaneous flows are prevented

---
 flixOpt/components.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 98df88d..93a62db 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -209,6 +209,7 @@ class Storage(Component):
         self.eta_charge: Numeric_TS = eta_charge
         self.eta_discharge: Numeric_TS = eta_discharge
         self.relative_loss_per_hour: Numeric_TS = relative_loss_per_hour
+        self.prevent_simultaneous_charge_and_discharge = prevent_simultaneous_charge_and_discharge
 
     def create_model(self) -> 'StorageModel':
         self.model = StorageModel(self)
@@ -290,6 +291,7 @@ class Transmission(Component):
 
         self.relative_losses = relative_losses
         self.absolute_losses = absolute_losses
+        self.prevent_simultaneous_flows_in_both_directions = prevent_simultaneous_flows_in_both_directions
 
     def _plausibility_checks(self):
         # check buses:
@@ -583,6 +585,11 @@ class SourceAndSink(Component):
         self.source = source
         self.sink = sink
 
+    def infos(self, use_numpy=True, use_element_label=False) -> Dict:
+        infos = super().infos(use_numpy, use_element_label)
+        infos['prevent_simultaneous_flows'] = bool(self.prevent_simultaneous_flows)
+        return infos
+
 
 class Source(Component):
     def __init__(self, label: str, source: Flow, meta_data: Optional[Dict] = None):
-- 
2.43.0


From e7c90b9056dec6293e92b49ca69664d7903d30c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 29/33] fix: transmissions that lead elsewhere or invest in
 other flows are refused

---
 flixOpt/components.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 93a62db..05c3748 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -292,6 +292,7 @@ class Transmission(Component):
         self.relative_losses = relative_losses
         self.absolute_losses = absolute_losses
         self.prevent_simultaneous_flows_in_both_directions = prevent_simultaneous_flows_in_both_directions
+        self._plausibility_checks()
 
     def _plausibility_checks(self):
         # check buses:
-- 
2.43.0


From 30856e778f50b8e6a1eb29893a1157005df3f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 30/33] fix: draw columns without any value once in area plots

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index b377114..990183c 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -123,7 +123,7 @@ def with_plotly(
         data[(data > -1e-5) & (data < 1e-5)] = 0  # Preventing issues with plotting
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
-        negative_columns = list(data.columns[(data <= 0).all()])
+        negative_columns = [column for column in data.columns[(data <= 0).all()] if column not in positive_columns]
         mixed_columns = list(set(data.columns) - set(positive_columns + negative_columns))
         if mixed_columns:
             logger.warning(
-- 
2.43.0


From 053545d6956bb5fe526d51919f631421e666114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 31/33] fix: area plots leave the given table unaltered

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index 990183c..33c95bc 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -120,7 +120,7 @@ def with_plotly(
                 )
             )
     elif mode == 'area':
-        data[(data > -1e-5) & (data < 1e-5)] = 0  # Preventing issues with plotting
+        data = data.mask((data > -1e-5) & (data < 1e-5), 0)  # Preventing issues with plotting
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
         negative_columns = [column for column in data.columns[(data <= 0).all()] if column not in positive_columns]
-- 
2.43.0


From 0a2fb977c0c108f8c09886dae9e0f5d2ac0440ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 32/33] fix: description of an equation states the row asked
 for

Rows beyond the first raised an IndexError for summands of a single entry with a
series of factors and for sums of fewer entries, sums showed the first factor
with an entry it does not belong to, and a number beyond the last row was
limited for the constant but not for the summands.
---
 flixOpt/math_modeling.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 40bde78..2657e5d 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -276,7 +276,7 @@ class Equation(_Constraint):
             name, index_str = f'EQ {self.label}', f'[{equation_nr + 1}/{self.length}]'
 
         # Summands:
-        summand_strings = [summand.description(at_index) for summand in self.summands]
+        summand_strings = [summand.description(equation_nr) for summand in self.summands]
         all_summands_string = ' + '.join(summand_strings)
 
         constant = self.constant_vector[equation_nr]
@@ -307,7 +307,7 @@ class Inequation(_Constraint):
         name, index_str = f'INEQ {self.label}', f'[{equation_nr + 1}/{self.length}]'
 
         # Summands:
-        summand_strings = [summand.description(at_index) for summand in self.summands]
+        summand_strings = [summand.description(equation_nr) for summand in self.summands]
         all_summands_string = ' + '.join(summand_strings)
 
         constant = self.constant_vector[equation_nr]
@@ -345,7 +345,7 @@ class Summand:
 
     def description(self, at_index=0):
         i = 0 if self.length == 1 else at_index
-        index = self.indices[i]
+        index = self.indices[0 if len(self.indices) == 1 else i]
         factor = self.factor_vec[i]
         factor_str = f'{factor:.6}' if isinstance(factor, (float, np.floating)) else str(factor)
         return f'{factor_str} * {self.variable.label}[{index}]'
@@ -402,8 +402,9 @@ class SumOfSummand(Summand):
         self.length = 1
 
     def description(self, at_index=0):
-        index = self.indices[at_index]
-        factor = self.factor_vec[0]
+        i = min(at_index, len(self.indices) - 1)
+        index = self.indices[i]
+        factor = self.factor_vec[i]
         factor_str = str(factor) if isinstance(factor, int) else f'{factor:.6}'
         single_summand_str = f'{factor_str} * {self.variable.label}[{index}]'
         return f'∑({("..+" if index > 0 else "")}{single_summand_str}{("+.." if index < self.variable.length else "")})'
-- 
2.43.0


From 85d2cd7443095c91a6928bd1a65c9c51d57296de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 33/33] fix: flat description and size of the model of an
 element cover inequations

The flat description listed only equations, the inequations of parts were left
out of all_inequations, and overview_of_model_size used attributes that do not
exist.
---
 flixOpt/structure.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 0f46a0d..d0063c3 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -416,16 +416,16 @@ class ElementModel:
 
             return descriptions
         else:
-            return [eq.description() for eq in self.all_equations.values()]
+            return [constr.description() for constr in self.all_constraints.values()]
 
     @property
     def overview_of_model_size(self) -> Dict[str, int]:
         all_vars, all_eqs, all_ineqs = self.all_variables, self.all_equations, self.all_inequations
         return {
             'no of Euations': len(all_eqs),
-            'no of Equations single': sum(eq.nr_of_single_equations for eq in all_eqs.values()),
+            'no of Equations single': sum(eq.length for eq in all_eqs.values()),
             'no of Inequations': len(all_ineqs),
-            'no of Inequations single': sum(ineq.nr_of_single_equations for ineq in all_ineqs.values()),
+            'no of Inequations single': sum(ineq.length for ineq in all_ineqs.values()),
             'no of Variables': len(all_vars),
             'no of Variables single': sum(var.length for var in all_vars.values()),
         }
@@ -472,9 +472,10 @@ class ElementModel:
     def all_inequations(self) -> Dict[str, Inequation]:
         all_ineqs = self.inequations.copy()
         for sub_model in self.sub_models:
-            for key in sub_model.all_inequations:
+            for key, value in sub_model.all_inequations.items():
                 if key in all_ineqs:
                     raise KeyError(f"Duplicate key found: '{key}' in both main model and submodel!")
+                all_ineqs[key] = value
         return all_ineqs
 
     @property
-- 
2.43.0

