From 035bd22a29bc03bc1582812b5ffbb1622c7cd71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:47 +0000
Subject: [PATCH 01/77] fix: keep a battery charged to capacity from exceeding
 it by rounding

Charging a battery to its capacity could leave its charge a rounding error
above max_capacity; the next charge request then failed with AssertionError,
since the remaining capacity was negative.
---
 src/pymgrid/modules/battery_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 67692a5..73b26d1 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -127,6 +127,9 @@ class BatteryModule(BaseMicrogridModule):
         if self._current_charge < self.min_capacity:
             assert np.isclose(self._current_charge, self.min_capacity)
             self._current_charge = self.min_capacity
+        elif self._current_charge > self.max_capacity:
+            assert np.isclose(self._current_charge, self.max_capacity)
+            self._current_charge = self.max_capacity
         self._soc = self._current_charge/self.max_capacity
 
     def get_cost(self, energy_change):
-- 
2.43.0


From a81c8e080d73f3bd4992286f59c06005f112d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:55 +0000
Subject: [PATCH 02/77] fix: restore logs as lists when a module or microgrid
 is loaded

---
 src/pymgrid/utils/logger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index b693595..3a66d7b 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -47,5 +47,9 @@ class ModularLogger(UserDict):
         if raw is None:
             return cls()
         elif isinstance(raw, str):
-            raw = pd.read_csv(raw).to_dict()
+            raw = pd.read_csv(raw, index_col=0)
+
+        if isinstance(raw, pd.DataFrame):
+            raw = raw.to_dict(orient='list')
+
         return cls(raw)
-- 
2.43.0


From c2e0c84c385409a9658e159c33ab7cac898e1f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:35 +0000
Subject: [PATCH 03/77] fix: dump array data of same-class modules to distinct
 files

---
 src/pymgrid/modules/base/base_module.py |  2 +-
 src/pymgrid/utils/serialize.py          | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 60a25ac..fd58e60 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -847,7 +847,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
             **self._logger.serialize("log")
         }
 
-        return dump_data(data, dumper_stream, self.yaml_tag)
+        return dump_data(data, dumper_stream, self.yaml_tag, name=self.name)
 
     def serializable_state_attributes(self):
         """
diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 45be9c2..48142dc 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -21,22 +21,28 @@ def add_pymgrid_yaml_representers():
     )
 
 
-def dump_data(data_dict, stream, yaml_tag):
+def dump_data(data_dict, stream, yaml_tag, name=(None, None)):
     if not hasattr(stream, "name"):
         return data_dict
 
     path = Path(stream.name).parent / "data"
-    return add_path_to_arr_like(data_dict, path, yaml_tag)
+    subdir = yaml_tag.lstrip("!")
 
+    if name[1] is not None:
+        # Modules of the same class must not overwrite each other's files.
+        subdir = f'{subdir}/{name[0]}_{name[1]}'
 
-def add_path_to_arr_like(data_dict, path, yaml_tag):
+    return add_path_to_arr_like(data_dict, path, subdir)
+
+
+def add_path_to_arr_like(data_dict, path, subdir):
     for key, value in data_dict.items():
         if isinstance(value, dict):
-            data_dict[key] = add_path_to_arr_like(value, path / key, yaml_tag)
+            data_dict[key] = add_path_to_arr_like(value, path / key, subdir)
         elif isinstance(value, TO_CSV_TYPES):
             if isinstance(value, np.ndarray):
                 value = NDArraySubclass(value)
-            value.path = path / f'{yaml_tag.lstrip("!")}/{key}.csv.gz'
+            value.path = path / f'{subdir}/{key}.csv.gz'
             data_dict[key] = value
 
     return data_dict
-- 
2.43.0


From 439f0e3662a3f1795489a78e9f3cd191e37d6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:15 +0000
Subject: [PATCH 04/77] fix: apply a dict of forecasters passed to
 Microgrid.set_forecaster

---
 src/pymgrid/microgrid/microgrid.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 79049c0..423df00 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -529,15 +529,16 @@ class Microgrid(yaml.YAMLObject):
                 if module_name not in self._modules.names():
                     raise NameError(f'Unrecognized module {module_name}.')
 
-                try:
-                    self._modules[module_name].set_forecaster(
-                        _forecaster,
-                        forcast_horizon=forecast_horizon,
-                        forecaster_increase_uncertainty=forecaster_increase_uncertainty,
-                        forecaster_relative_noise=forecaster_relative_noise
-                    )
-                except AttributeError:
-                    pass
+                for module in self._modules[module_name]:
+                    try:
+                        module.set_forecaster(
+                            _forecaster,
+                            forecast_horizon=forecast_horizon,
+                            forecaster_increase_uncertainty=forecaster_increase_uncertainty,
+                            forecaster_relative_noise=forecaster_relative_noise
+                        )
+                    except AttributeError:
+                        pass
         else:
             for module in self._modules.iterlist():
                 try:
-- 
2.43.0


From 5973d57db26ce1a23a758016046026a0153ba8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:30 +0000
Subject: [PATCH 05/77] fix: make a newly set forecaster effective at once and
 keep it when serializing

---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 080fb6c..ba73939 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -243,6 +243,9 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
                                           increase_uncertainty=forecaster_increase_uncertainty,
                                           relative_noise=forecaster_relative_noise)
 
+        self._forecast_param = forecaster
+        self._current_forecast = self.forecast()
+
     @property
     def forecast_horizon(self):
         """
-- 
2.43.0


From 37d38db5e18c45f8ed8ce5b4a573a0b6ee96ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:04 +0000
Subject: [PATCH 06/77] fix: support strict_bound when sampling genset actions

---
 src/pymgrid/modules/genset_module.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 4369c27..fd98423 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -346,7 +346,16 @@ class GensetModule(BaseMicrogridModule):
             self._update_up_down_times()
 
     def sample_action(self, strict_bound=False, **kwargs):
-        return np.array([np.random.rand(), super().sample_action(strict_bound=strict_bound)])
+        goal_status = np.random.rand()
+
+        if not strict_bound:
+            return np.array([goal_status, super().sample_action()])
+
+        production_bounds = self.next_min_production(round(goal_status)), self.next_max_production(round(goal_status))
+        min_bound, max_bound = (self._action_space.normalize(np.array([goal_status, bound]))[1]
+                                for bound in production_bounds)
+
+        return np.array([goal_status, np.random.rand()*(max_bound-min_bound) + min_bound])
 
     def _raise_error(self, ask_value, available_value, as_source=False, as_sink=False, lower_bound=False):
         try:
-- 
2.43.0


From e62330ecaac18158b47e883f098cea2ba834d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:19 +0000
Subject: [PATCH 07/77] fix: define battery action bounds by charge and
 discharge limits, not vice versa

---
 src/pymgrid/modules/battery_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/battery_module.py b/src/pymgrid/modules/battery_module.py
index 73b26d1..dbaf01c 100644
--- a/src/pymgrid/modules/battery_module.py
+++ b/src/pymgrid/modules/battery_module.py
@@ -334,11 +334,11 @@ class BatteryModule(BaseMicrogridModule):
 
     @property
     def min_act(self):
-        return -self.max_discharge / self.efficiency
+        return -self.max_charge / self.efficiency
 
     @property
     def max_act(self):
-        return self.max_charge * self.efficiency
+        return self.max_discharge * self.efficiency
 
     @property
     def production_marginal_cost(self):
-- 
2.43.0


From d756ff21c46657411bdd4d1902bae0e7d78db8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:53 +0000
Subject: [PATCH 08/77] fix: index the log by the steps of the current
 trajectory

---
 src/pymgrid/microgrid/microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 423df00..2e17b9b 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -463,7 +463,7 @@ class Microgrid(yaml.YAMLObject):
 
         col_names = ['module_name', 'module_number', 'field']
 
-        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self.initial_step, stop=self.current_step))
+        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self._get_module_initial_step(), stop=self.current_step))
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
         if drop_singleton_key:
-- 
2.43.0


From df708f17f5c15966d33e2b721bcde991ef1acf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:11 +0000
Subject: [PATCH 09/77] fix: draw stochastic trajectories that are non-empty
 and cover the whole range

---
 src/pymgrid/microgrid/trajectory/stochastic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/microgrid/trajectory/stochastic.py b/src/pymgrid/microgrid/trajectory/stochastic.py
index 8d21b15..f413baa 100644
--- a/src/pymgrid/microgrid/trajectory/stochastic.py
+++ b/src/pymgrid/microgrid/trajectory/stochastic.py
@@ -8,8 +8,8 @@ class StochasticTrajectory(BaseTrajectory):
 
     def __call__(self, initial_step, final_step):
 
-        initial = np.random.randint(initial_step, final_step-2)
-        final = np.random.randint(initial, final_step)
+        initial = np.random.randint(initial_step, final_step)
+        final = np.random.randint(initial+1, final_step+1)
 
         return initial, final
 
@@ -25,6 +25,6 @@ class FixedLengthStochasticTrajectory(BaseTrajectory):
             raise ValueError(f'Cannot create a trajectory of length {self.trajectory_length}'
                              f'between initial_step ({initial_step}) and final_step ({final_step})')
 
-        initial = np.random.randint(initial_step, final_step-self.trajectory_length)
+        initial = np.random.randint(initial_step, final_step-self.trajectory_length+1)
 
         return initial, initial + self.trajectory_length
-- 
2.43.0


From 55ff24411981da4aa26636bb064be6c392bc804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:44 +0000
Subject: [PATCH 10/77] fix: return gensets to their initial status upon reset,
 as documented

---
 src/pymgrid/modules/genset_module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index fd98423..209b5b9 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -148,6 +148,11 @@ class GensetModule(BaseMicrogridModule):
         self.update_status(goal_status)
         return super().step(action, normalized=normalized)
 
+    def reset(self):
+        self._current_status, self._goal_status = int(self.init_start_up), int(self.init_start_up)
+        self._reset_up_down_times()
+        return super().reset()
+
     def get_co2(self, production):
         """
         Carbon dioxide emissions of energy production.
-- 
2.43.0


From 681d7148871f909bd433f4a97c6d310ddd4c8d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 11/77] fix: start the default balancing module at the initial
 step of the other modules

---
 src/pymgrid/microgrid/microgrid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 2e17b9b..31482d0 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -129,9 +129,11 @@ class Microgrid(yaml.YAMLObject):
 
     def _get_unbalanced_energy_module(self,
                                       loss_load_cost,
-                                      overgeneration_cost):
+                                      overgeneration_cost,
+                                      initial_step=0):
 
         return UnbalancedEnergyModule(raise_errors=False,
+                                      initial_step=initial_step,
                                       loss_load_cost=loss_load_cost,
                                       overgeneration_cost=overgeneration_cost
                                       )
@@ -168,7 +170,9 @@ class Microgrid(yaml.YAMLObject):
             raise TypeError("modules must be list-like of modules.")
 
         if add_unbalanced_module:
-            modules.append(self._get_unbalanced_energy_module(loss_load_cost, overgeneration_cost))
+            initial_step = max((getattr(module[-1] if isinstance(module, tuple) else module, 'initial_step', 0)
+                                for module in modules), default=0)
+            modules.append(self._get_unbalanced_energy_module(loss_load_cost, overgeneration_cost, initial_step))
 
         return ModuleContainer(modules)
 
-- 
2.43.0


From b0739c307ab6e87227ab321cfba4c166c9000ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:20 +0000
Subject: [PATCH 12/77] fix: keep a microgrid's reward shaper when serializing

---
 src/pymgrid/microgrid/microgrid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 31482d0..8863fa5 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -892,6 +892,7 @@ class Microgrid(yaml.YAMLObject):
 
         instance = cls(mapping["modules"], add_unbalanced_module=False)
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
+        instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
         instance.trajectory_func = mapping.get('trajectory_func', None)
         instance._initial_step = mapping.get('initial_step', instance.initial_step)
         instance._final_step = mapping.get('final_step', instance.final_step)
@@ -904,7 +905,7 @@ class Microgrid(yaml.YAMLObject):
         return dump_data(self._serialization_data(), dumper_stream, self.yaml_tag)
 
     def _serialization_data(self):
-        return {
+        data = {
             "modules": self._modules.to_tuples(),
             'trajectory_func': self.trajectory_func,
             'initial_step': self.initial_step,
@@ -912,6 +913,11 @@ class Microgrid(yaml.YAMLObject):
             **self._balance_logger.serialize("balance_log")
         }
 
+        if isinstance(self.reward_shaping_func, yaml.YAMLObject):
+            data['reward_shaping_func'] = self.reward_shaping_func
+
+        return data
+
     @classmethod
     def from_nonmodular(cls, nonmodular):
         """
-- 
2.43.0


From 4d133b5d49c9fd193579e70bcff1d5d5b1cd275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:37 +0000
Subject: [PATCH 13/77] fix: drop module logs when wrapping a microgrid as an
 environment, as documented

---
 src/pymgrid/envs/base/base.py      | 7 ++++++-
 src/pymgrid/microgrid/microgrid.py | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index f35bdd5..2dd8cfa 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -282,7 +282,12 @@ class BaseMicrogridEnv(Microgrid, Env):
         kwargs['reward_shaping_func'] = kwargs.pop('reward_shaping_func', microgrid.reward_shaping_func)
         kwargs['trajectory_func'] = kwargs.pop('trajectory_func', microgrid.trajectory_func)
 
-        return cls(modules.to_tuples(), **kwargs)
+        env = cls(modules.to_tuples(), **kwargs)
+
+        for module in env.modules.iterlist():
+            module.logger.flush()
+
+        return env
 
     @classmethod
     def from_nonmodular(cls, nonmodular, **kwargs):
diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 8863fa5..78c14d2 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -467,7 +467,10 @@ class Microgrid(yaml.YAMLObject):
 
         col_names = ['module_name', 'module_number', 'field']
 
-        df = pd.DataFrame(_log_dict, index=pd.RangeIndex(start=self._get_module_initial_step(), stop=self.current_step))
+        current_step = self.current_step
+        index = pd.RangeIndex(start=current_step-len(self._balance_logger), stop=current_step)
+
+        df = pd.DataFrame(_log_dict, index=index)
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
         if drop_singleton_key:
-- 
2.43.0


From 2ede5b2992ed84cfa4fd72a46be5d0c110bf0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:10 +0000
Subject: [PATCH 14/77] fix: keep an environment's action log when serializing

---
 src/pymgrid/microgrid/microgrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 78c14d2..3676fc0 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -895,6 +895,7 @@ class Microgrid(yaml.YAMLObject):
 
         instance = cls(mapping["modules"], add_unbalanced_module=False)
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
+        instance._microgrid_logger = instance._microgrid_logger.from_raw(mapping.get("microgrid_log"))
         instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
         instance.trajectory_func = mapping.get('trajectory_func', None)
         instance._initial_step = mapping.get('initial_step', instance.initial_step)
@@ -913,7 +914,8 @@ class Microgrid(yaml.YAMLObject):
             'trajectory_func': self.trajectory_func,
             'initial_step': self.initial_step,
             'final_step': self.final_step,
-            **self._balance_logger.serialize("balance_log")
+            **self._balance_logger.serialize("balance_log"),
+            **self._microgrid_logger.serialize("microgrid_log")
         }
 
         if isinstance(self.reward_shaping_func, yaml.YAMLObject):
-- 
2.43.0


From 1f703983354f4c8f8874f76d5140a5576c913943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:26 +0000
Subject: [PATCH 15/77] fix: load environments with their logs and steps

---
 src/pymgrid/envs/base/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index 2dd8cfa..f76824a 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -305,4 +305,5 @@ class BaseMicrogridEnv(Microgrid, Env):
 
     @classmethod
     def load(cls, stream):
-        return cls(super().load(stream))
+        loaded = super().load(stream)
+        return loaded if isinstance(loaded, cls) else cls.from_microgrid(loaded)
-- 
2.43.0


From f2e8032e019277030431c2956def8e1aa57b462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:09 +0000
Subject: [PATCH 16/77] fix: act on controllable modules in
 ContinuousMicrogridEnv

---
 src/pymgrid/envs/continuous/continuous.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 870e79a..15673eb 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -1,4 +1,4 @@
-from gym.spaces import Dict, Tuple, flatten_space
+from gym.spaces import Dict, Tuple, flatten_space, unflatten
 from warnings import warn
 
 from pymgrid.envs.base import BaseMicrogridEnv
@@ -55,23 +55,22 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
 
     def _get_nested_action_space(self):
         return Dict({name: Tuple([module.action_space['normalized'] for module in modules_list])
-                                 for name, modules_list in self.fixed.iterdict() if modules_list[0].is_source})
+                     for name, modules_list in self.controllable.iterdict()})
 
     def _get_action_space(self):
         self._nested_action_space = self._get_nested_action_space()
         return flatten_space(self._nested_action_space) if self._flat_spaces else self._nested_action_space
 
     def _get_action(self, action):
-        # Action does not have fixed sinks (loads); add those values.
+        if self._flat_spaces:
+            action = unflatten(self._nested_action_space, action)
+
         assert action in self._nested_action_space, 'Action is not in action space.'
-        action = action.copy()
-        for name, module_list in self.fixed.sinks.iterdict():
-            action[name] = [module.to_normalized(-1 * module.max_consumption, act=True) for module in module_list]
         return action
 
     def step(self, action):
-        action = self._get_action(action)
-        return super().run(action)
+        obs, reward, done, info = super().run(self._get_action(action))
+        return self._get_obs(obs), reward, done, info
 
     def run(self, action, normalized=True):
         warn('run() should not be called directly in environments.')
-- 
2.43.0


From d20ef799e40bfed54667fbb11fc9562c819363ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:40 +0000
Subject: [PATCH 17/77] fix: normalize the state_dict of modules with a single
 state component

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index fd58e60..978eb2d 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -485,7 +485,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
 
         """
         if normalized:
-            return dict(zip(self.state_dict().keys(), self._observation_space.normalize(self.state)))
+            return dict(zip(self.state_dict().keys(), np.atleast_1d(self._observation_space.normalize(self.state))))
 
         return self._state_dict()
 
-- 
2.43.0


From 798625af33d3da607a351a16cc0095af710e16e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:53 +0000
Subject: [PATCH 18/77] fix: return nested observations that belong to the
 observation space

---
 src/pymgrid/envs/base/base.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index f76824a..90089c9 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 
 from gym import Env
@@ -110,8 +111,7 @@ class BaseMicrogridEnv(Microgrid, Env):
         if not keys:
             return keys
 
-        if isinstance(keys, str):
-            keys = [keys]
+        keys = [keys] if isinstance(keys, str) else list(keys)
 
         possible_keys = self.state_series().index.get_level_values(-1).unique()
         bad_keys = [key for key in keys if key not in possible_keys]
@@ -209,17 +209,21 @@ class BaseMicrogridEnv(Microgrid, Env):
         return obs, reward, done, info
 
     def _get_obs(self, obs):
-        if self.observation_keys:
-            obs = self.state_series(normalized=True).loc[pd.IndexSlice[:, :, self.observation_keys]]
-
-            if self._flat_spaces:
-                obs = obs.values
-            else:
-                obs = obs.to_frame().unstack(level=1).T.droplevel(level=1, axis=1).to_dict(orient='list')
+        if self.observation_keys and self._flat_spaces:
+            obs = self.state_series(normalized=True).loc[pd.IndexSlice[:, :, self.observation_keys]].values
 
         elif self._flat_spaces:
             obs = flatten(self._nested_observation_space, obs)
 
+        elif self.observation_keys:
+            state = self.state_dict(normalized=True)
+            obs = {name: [np.array([state_dict[key] for key in self.observation_keys if key in state_dict])
+                          for state_dict in state[name] if any(key in state_dict for key in self.observation_keys)]
+                   for name in self._nested_observation_space}
+
+        else:
+            obs = {name: [np.atleast_1d(o) for o in obs[name]] for name in self._nested_observation_space}
+
         return obs
 
     def render(self, mode="human"):
-- 
2.43.0


From 99ccedf32bce6e1c7ed00e74323572f6c8c0c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:35 +0000
Subject: [PATCH 19/77] fix: sum reward shaper values over all modules and keep
 them in range

---
 src/pymgrid/microgrid/reward_shaping/base.py           |  6 +-----
 .../reward_shaping/battery_discharge_shaper.py         | 10 ++++------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index f127af1..fc2f0ca 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -9,11 +9,7 @@ class BaseRewardShaper(yaml.YAMLObject):
 
     @staticmethod
     def sum_module_val(info, module_name, module_attr):
-        try:
-            module_info = info[module_name]
-            return sum([d[module_attr] for d in module_info])
-        except KeyError:
-            return 0.0
+        return sum([d.get(module_attr, 0.0) for d in info.get(module_name, [])])
 
     @abstractmethod
     def __call__(self, step_info, cost_info):
diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index 073f519..f832b5a 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -24,11 +24,9 @@ class BatteryDischargeShaper(BaseRewardShaper):
         load = self.sum_module_val(step_info, 'load', 'absorbed_energy')
         loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy')
 
-        # battery_discharge is in [0, load-loss_load]; loss_load is in [0, load].
-        try:
-            percent_battery = (battery_discharge - loss_load) / load
-        except ZeroDivisionError:
+        if load == 0:
             return 0.0
 
-        assert -1 <= percent_battery <= 1 or np.isclose(percent_battery, 1) or np.isclose(percent_battery, 0)
-        return percent_battery
+        # Battery discharge that does not meet load (e.g. is exported) and loss load that is not load
+        # (e.g. charges a battery) do not count.
+        return np.clip((battery_discharge - loss_load) / load, -1.0, 1.0)
-- 
2.43.0


From d676f27a3e71e79d3762d16f3475017b46ec281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:14 +0000
Subject: [PATCH 20/77] fix: shape the reward once per step, from the complete
 step

---
 src/pymgrid/microgrid/microgrid.py  |  4 ++--
 src/pymgrid/microgrid/utils/step.py | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 3676fc0..402aae3 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -260,7 +260,7 @@ class Microgrid(yaml.YAMLObject):
             for module in modules:
                 microgrid_step.append(name, *module.step(0.0, normalized=False))
 
-        fixed_provided, fixed_consumed, _, _ = microgrid_step.balance()
+        fixed_provided, fixed_consumed = microgrid_step.energy()
         log_dict = self._get_log_dict(fixed_provided, fixed_consumed, prefix='fixed')
 
         for name, modules in self.controllable.iterdict():
@@ -278,7 +278,7 @@ class Microgrid(yaml.YAMLObject):
                 module_step = module.step(_control, normalized=normalized)  # obs, reward, done, info.
                 microgrid_step.append(name, *module_step)
 
-        provided, consumed, _, _ = microgrid_step.balance()
+        provided, consumed = microgrid_step.energy()
         difference = provided - consumed                # if difference > 0, have an excess. Try to use flex sinks to dissapate
                                                         # otherwise, insufficient. Use flex sources to make up
 
diff --git a/src/pymgrid/microgrid/utils/step.py b/src/pymgrid/microgrid/utils/step.py
index 17e0419..a40a783 100644
--- a/src/pymgrid/microgrid/utils/step.py
+++ b/src/pymgrid/microgrid/utils/step.py
@@ -7,6 +7,7 @@ class MicrogridStep:
         self.cost_info = cost_info
         self._obs = dict()
         self._reward = 0.0
+        self._shaped_reward = None
         self._done = False
         self._info = dict(absorbed_energy=[], provided_energy=[])
 
@@ -16,6 +17,7 @@ class MicrogridStep:
         except KeyError:
             self._obs[module_name] = [obs]
         self._reward += reward
+        self._shaped_reward = None
         if done:
             self._done = True
 
@@ -30,10 +32,13 @@ class MicrogridStep:
             except KeyError:
                 pass
 
-    def balance(self):
+    def energy(self):
         provided_energy = np.sum(self._info['provided_energy'])
         absorbed_energy = np.sum(self._info['absorbed_energy'])
-        return provided_energy, absorbed_energy, self._reward, self.shaped_reward()
+        return provided_energy, absorbed_energy
+
+    def balance(self):
+        return (*self.energy(), self._reward, self.shaped_reward())
 
     def output(self):
         return self._obs, self.shaped_reward(), self._done, self._output_info()
@@ -41,7 +46,11 @@ class MicrogridStep:
     def shaped_reward(self):
         if self._reward_shaping_func is not None:
             assert isinstance(self.cost_info, dict)
-            return self._reward_shaping_func(self._output_info(), self.cost_info)
+
+            if self._shaped_reward is None:
+                self._shaped_reward = self._reward_shaping_func(self._output_info(), self.cost_info)
+
+            return self._shaped_reward
 
         return self._reward
 
-- 
2.43.0


From 9061eea0d32925849add1ed11c6267ae88adf8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:41 +0000
Subject: [PATCH 21/77] fix: recognize default module names in reward shapers

---
 .../microgrid/reward_shaping/battery_discharge_shaper.py       | 3 ++-
 src/pymgrid/microgrid/reward_shaping/pv_curtailment_shaper.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
index f832b5a..946b1cb 100644
--- a/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/battery_discharge_shaper.py
@@ -22,7 +22,8 @@ class BatteryDischargeShaper(BaseRewardShaper):
     def __call__(self, step_info, cost_info):
         battery_discharge = self.sum_module_val(step_info, 'battery', 'provided_energy')
         load = self.sum_module_val(step_info, 'load', 'absorbed_energy')
-        loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy')
+        loss_load = self.sum_module_val(step_info, 'unbalanced_energy', 'provided_energy') + \
+            self.sum_module_val(step_info, 'balancing', 'provided_energy')
 
         if load == 0:
             return 0.0
diff --git a/src/pymgrid/microgrid/reward_shaping/pv_curtailment_shaper.py b/src/pymgrid/microgrid/reward_shaping/pv_curtailment_shaper.py
index 9e6d614..632139d 100644
--- a/src/pymgrid/microgrid/reward_shaping/pv_curtailment_shaper.py
+++ b/src/pymgrid/microgrid/reward_shaping/pv_curtailment_shaper.py
@@ -13,5 +13,6 @@ class PVCurtailmentShaper(BaseRewardShaper):
     yaml_tag = u"!PVCurtailmentShaper"
 
     def __call__(self, step_info, cost_info):
-        pv_curtailment = self.sum_module_val(step_info, 'pv', 'curtailment')
+        pv_curtailment = self.sum_module_val(step_info, 'pv', 'curtailment') + \
+            self.sum_module_val(step_info, 'renewable', 'curtailment')
         return -1.0 * pv_curtailment
-- 
2.43.0


From 9a245d879b1b8ffea62b435d088591a41f87bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:19 +0000
Subject: [PATCH 22/77] fix: convert loads to non-modular microgrids as
 positive demand

---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 9cb8603..2df35cd 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -77,9 +77,9 @@ def add_params_from_module(module, params_dict):
 
 
 def add_load_params(load_module, params_dict):
-    params_dict['load'] = pd.DataFrame(load_module.time_series)
+    params_dict['load'] = pd.DataFrame(-1 * load_module.time_series)
     _add_to_parameters(params_dict,
-                       load=-1 * load_module.min_act)
+                       load=-1 * load_module.time_series.min())
     _add_to_control_dict(params_dict, 'load')
     _add_to_df_actual_generation(params_dict, 'loss_load')
     _add_to_df_actions(params_dict, 'load')
-- 
2.43.0


From 635ef9d048b39056e3fd20e0402af17ec58dd8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:46 +0000
Subject: [PATCH 23/77] fix: let gensets that do not allow abortions change
 status

---
 src/pymgrid/modules/genset_module.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/genset_module.py b/src/pymgrid/modules/genset_module.py
index 209b5b9..df859e0 100644
--- a/src/pymgrid/modules/genset_module.py
+++ b/src/pymgrid/modules/genset_module.py
@@ -293,7 +293,8 @@ class GensetModule(BaseMicrogridModule):
 
         instant_up = self.start_up_time == 0 and goal_status == 1
         instant_down = self.wind_down_time == 0 and goal_status == 0
-        if goal_status != self._goal_status and (self.allow_abortion or instant_up or instant_down):
+        new_request = self._current_status == self._goal_status
+        if goal_status != self._goal_status and (self.allow_abortion or instant_up or instant_down or new_request):
             self._goal_status = goal_status
 
         finished_change = self._finish_in_progress_change()
@@ -388,6 +389,11 @@ class GensetModule(BaseMicrogridModule):
             The next status given the current status and the goal status.
 
         """
+        instant_change = (self.start_up_time if goal_status else self.wind_down_time) == 0
+        if self._goal_status != self._current_status and not (self.allow_abortion or instant_change):
+            # An in-progress status change that cannot be aborted.
+            goal_status = self._goal_status
+
         if goal_status:
             if self._current_status:
                 return 1
-- 
2.43.0


From f07842135dbbc9e7b9ecb9be07b33df8fbce941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:42 +0000
Subject: [PATCH 24/77] fix: support scalar user-defined forecasters up to the
 end of the time series

---
 src/pymgrid/forecast/forecaster.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 6a45243..cbcb776 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -361,9 +361,13 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
 
 def vectorize_scalar_forecaster(forecaster):
     def vectorized(val_c, val_c_n, n):
-        if n != len(val_c_n):
+        if n < len(val_c_n):
             raise ValueError(f"Incompatible true values length ({val_c_n}) to forecast {n}-steps ahead.")
-        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i) for n_i, val_c_n_i in enumerate(val_c_n)])
+        if len(val_c_n) == 0:
+            # Past the end of the time series.
+            return np.array(val_c_n)
+        vectorized_output = np.array([forecaster(val_c, val_c_n_i, n_i)
+                                      for n_i, val_c_n_i in enumerate(val_c_n, start=1)])
         try:
             shape = (-1, vectorized_output.shape[1])
         except IndexError:
-- 
2.43.0


From 3571606bcdd1dd572631da9f37f2a83e1f2165b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:00 +0000
Subject: [PATCH 25/77] fix: forecast from a newly set time series, without
 writing to it

---
 src/pymgrid/modules/base/timeseries/base_timeseries_module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index ba73939..0a9767f 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -109,7 +109,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         forecast : None or np.ndarray, shape (n, len(self.state_components))
             The forecasted time series.
         """
-        val_c_n = self.time_series[1+self.current_step:1+self.current_step+self.forecast_horizon, :]
+        val_c_n = self.time_series[1+self.current_step:1+self.current_step+self.forecast_horizon, :].copy()
         try:
             val_c = self.time_series[self.current_step, :]
         except IndexError:
@@ -158,6 +158,8 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._min_obs, self._max_obs, self._min_act, self._max_act = self._get_bounds()
         self._action_space = self._get_action_spaces()
         self._observation_space = self._get_observation_spaces()
+        self._forecaster.observation_space = self._observation_space
+        self._current_forecast = self.forecast()
 
     @property
     def min_obs(self):
-- 
2.43.0


From e674f316cdcb4e23eaefd284bd2af1ffdd74da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:33 +0000
Subject: [PATCH 26/77] fix: count grid exports as revenue in model predictive
 control

---
 src/pymgrid/algos/mpc/mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index d4429f6..768e292 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -91,7 +91,7 @@ class ModelPredictiveControl:
         else:
             self.p_vars = cp.Variable((7*self.horizon,), pos=True)
             self.u_genset = None
-            self.costs = cp.Parameter(7 * self.horizon, nonneg=True)
+            self.costs = cp.Parameter(7 * self.horizon)
             self.inequality_rhs = cp.Parameter(8 * self.horizon)
 
         self.equality_rhs = cp.Parameter(2 * self.horizon)  # rhs
@@ -483,10 +483,10 @@ class ModelPredictiveControl:
         # Set costs
         if self.has_genset:
             self.costs.value[1::8] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[2::8] = export_price.reshape(-1)
+            self.costs.value[2::8] = -1.0 * export_price.reshape(-1)  # exporting earns revenue
         else:
             self.costs.value[0::7] = import_price.reshape(-1) + grid_co2.reshape(-1) * cost_co2
-            self.costs.value[1::7] = export_price.reshape(-1)
+            self.costs.value[1::7] = -1.0 * export_price.reshape(-1)  # exporting earns revenue
 
         if np.isnan(self.costs.value).any():
             raise RuntimeError('There are still nan values in self.costs.value, something is wrong')
-- 
2.43.0


From 495fb2c3b41f58282652041cff2a5fa21dc779b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:47 +0000
Subject: [PATCH 27/77] fix: respect grid outages in model predictive control

---
 src/pymgrid/algos/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 768e292..57b08fa 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -911,7 +911,7 @@ class ModelPredictiveControl:
 
             grid_max_import, grid_max_export = 0, 0
         else:
-            grid_status = np.ones(self.horizon)
+            grid_status = grid.grid_status
 
             price_import = grid.import_price
             price_export = grid.export_price
-- 
2.43.0


From d6600b1d75f96540dfb2193387fd7d08d5a33c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:02 +0000
Subject: [PATCH 28/77] fix: price grid emissions with the grid's own carbon
 cost in model predictive control

---
 src/pymgrid/algos/mpc/mpc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 57b08fa..1a6a535 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -907,7 +907,7 @@ class ModelPredictiveControl:
             price_import = np.zeros(self.horizon)
             price_export = np.zeros(self.horizon)
             grid_co2_per_kwh = np.zeros(self.horizon)
-            cost_co2 = []
+            cost_co2 = 0.0
 
             grid_max_import, grid_max_export = 0, 0
         else:
@@ -916,7 +916,7 @@ class ModelPredictiveControl:
             price_import = grid.import_price
             price_export = grid.export_price
             grid_co2_per_kwh = grid.co2_per_kwh
-            cost_co2 = [grid.cost_per_unit_co2]
+            cost_co2 = grid.cost_per_unit_co2
 
             grid_max_import, grid_max_export = grid.max_import, grid.max_export
 
@@ -939,9 +939,6 @@ class ModelPredictiveControl:
         else:
             genset_max_prod = genset.running_max_production
             genset_co2_per_kwh = genset.co2_per_unit
-            cost_co2.append(genset.cost_per_unit_co2)
-
-        cost_co2 = np.mean(cost_co2)
 
         return (
             load_state,
-- 
2.43.0


From 17fe8b4ff2e8c52a68d34f7b87aa44ac9091ba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:34 +0000
Subject: [PATCH 29/77] fix: update the battery of non-modular off-grid
 microgrids with its actual production

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 1d98207..943d184 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -655,7 +655,7 @@ class NonModularMicrogrid:
 
             self._df_record_cost = self._record_cost({ i:self._df_record_actual_production[i][-1] for i in self._df_record_actual_production},
                                                      self._df_record_cost, self._df_record_co2)
-            self._df_record_state = self._update_status(control_dict,
+            self._df_record_state = self._update_status({key: value[-1] for key, value in self._df_record_actual_production.items()},
                                                         self._df_record_state, self._next_load, self._next_pv)
 
         if self._tracking_timestep == self._data_length - self.horizon or self._tracking_timestep == self._data_length - 1:
-- 
2.43.0


From 7883a6063e5b089bf9366bac8c63e95815405c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:04 +0000
Subject: [PATCH 30/77] fix: refuse modules of different types with the same
 name

---
 src/pymgrid/modules/module_container.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 0ceabf4..95da642 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -389,9 +389,8 @@ def get_subcontainers(modules):
         else:
             raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
 
-        try:
-            module_names[module_name] = (fixed_flex_controllable, source_sink_both)
-        except KeyError:
+        module_type = (fixed_flex_controllable, source_sink_both)
+        if module_names.setdefault(module_name, module_type) != module_type:
             raise NameError(
                 f'Attempted to add module {module_name} of type {(fixed_flex_controllable, source_sink_both)}, '
                 f'but there is an identically named module of type {module_names[module_name]}.')
-- 
2.43.0


From dc68d924880e98bc4dad435f8b1082e730110ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:30 +0000
Subject: [PATCH 31/77] fix: leave the global random state alone when
 converting gensets

---
 src/pymgrid/convert/to_nonmodular_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/convert/to_nonmodular_ops.py b/src/pymgrid/convert/to_nonmodular_ops.py
index 2df35cd..9f0b314 100644
--- a/src/pymgrid/convert/to_nonmodular_ops.py
+++ b/src/pymgrid/convert/to_nonmodular_ops.py
@@ -227,9 +227,9 @@ def _add_cost_co2(params_dict, cost_co2):
 
 
 def _add_genset_polynom(params_dict):
-    np.random.seed(0)
+    random_state = np.random.RandomState(0)
     warn('Getting genset_polynom parameters randomly')
-    polynom = [np.random.rand() * 10, np.random.rand(), np.random.rand() / 10]
+    polynom = [random_state.rand() * 10, random_state.rand(), random_state.rand() / 10]
 
     to_add = dict(genset_polynom_order= len(polynom))
     to_add.update({f'genset_polynom_{i}': pn for i, pn in enumerate(polynom)})
-- 
2.43.0


From d2a5933c49b4c44e4d21de04a59cf3b7877af2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:21 +0000
Subject: [PATCH 32/77] fix: drop the module number from the log when asked to

---
 src/pymgrid/microgrid/microgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index 402aae3..b375503 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -473,8 +473,8 @@ class Microgrid(yaml.YAMLObject):
         df = pd.DataFrame(_log_dict, index=index)
         df.columns = pd.MultiIndex.from_tuples(df.columns.to_list(), names=col_names)
 
-        if drop_singleton_key:
-            df.columns = df.columns.remove_unused_levels()
+        if drop_singleton_key and (df.columns.get_level_values('module_number') == 0).all():
+            df.columns = df.columns.droplevel('module_number')
 
         if as_frame:
             return df
-- 
2.43.0


From fdd20e219b475ce16cbf7edffd988d28266a1a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:36 +0000
Subject: [PATCH 33/77] fix: keep log columns aligned when a step does not
 report all fields

---
 src/pymgrid/utils/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/utils/logger.py b/src/pymgrid/utils/logger.py
index 3a66d7b..eb22654 100644
--- a/src/pymgrid/utils/logger.py
+++ b/src/pymgrid/utils/logger.py
@@ -25,6 +25,9 @@ class ModularLogger(UserDict):
                 self[key] = [np.nan]*self._log_length
                 self[key].append(value)
 
+        for key in self.keys() - log_dict.keys():
+            self[key].append(np.nan)
+
         self._log_length += 1
 
     def to_dict(self):
-- 
2.43.0


From 1e66cf0938b29a16ef5f96a40c9389f292e12b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:19 +0000
Subject: [PATCH 34/77] fix: accept user-defined forecasters for time series
 with several components

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index cbcb776..b8905df 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -352,7 +352,7 @@ def _validate_forecasted_value(forecaster_output, true_forecast, val_c, n):
         raise TypeError(
             "Unable to validate forecaster. Forecaster must return numeric np.ndarray or number but returned "
             f"output of type {np.array(forecaster_output).dtype}: {forecaster_output}")
-    elif not (forecaster_output * true_forecast >= 0):
+    elif not np.all(forecaster_output * true_forecast >= 0):
         raise ValueError(
             "Unable to validate forecaster. Forecaster must return output of same sign (or zero) as "
             f"input but returned output {forecaster_output} with inputs "
-- 
2.43.0


From 0d4f4b6ca38224d0a2df5c0ba99cde7fe3a2e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:19 +0000
Subject: [PATCH 35/77] fix: support user-defined forecasters that return lists

---
 src/pymgrid/forecast/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index b8905df..f541470 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -204,7 +204,7 @@ class UserDefinedForecaster(Forecaster):
 
     def _cast_to_arr(self, forecast, val_c_n):
         if self.cast_to_arr:
-            return np.array(forecast.reshape(val_c_n.shape))
+            return np.array(forecast).reshape(val_c_n.shape)
         return forecast
 
     def _forecast(self, val_c, val_c_n, n):
-- 
2.43.0


From 17fcdd803b8d365fa8a0bc0fa6842cdb25a7e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:06 +0000
Subject: [PATCH 36/77] fix: keep the settings of environments, and continuous
 environments, when serializing

---
 src/pymgrid/envs/base/base.py             | 6 ++++++
 src/pymgrid/envs/continuous/continuous.py | 6 ++++++
 src/pymgrid/envs/discrete/discrete.py     | 4 ++++
 src/pymgrid/microgrid/microgrid.py        | 2 +-
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index 90089c9..8ffa31b 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -307,6 +307,12 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         return env
 
+    def _serialization_data(self):
+        return {**super()._serialization_data(), 'env_params': self._env_params()}
+
+    def _env_params(self):
+        return {'flat_spaces': self._flat_spaces, 'observation_keys': list(self.observation_keys or [])}
+
     @classmethod
     def load(cls, stream):
         loaded = super().load(stream)
diff --git a/src/pymgrid/envs/continuous/continuous.py b/src/pymgrid/envs/continuous/continuous.py
index 15673eb..31447e6 100644
--- a/src/pymgrid/envs/continuous/continuous.py
+++ b/src/pymgrid/envs/continuous/continuous.py
@@ -1,3 +1,5 @@
+import yaml
+
 from gym.spaces import Dict, Tuple, flatten_space, unflatten
 from warnings import warn
 
@@ -51,6 +53,10 @@ class ContinuousMicrogridEnv(BaseMicrogridEnv):
         If None, :attr:`.initial_step` and :attr:`.final_step` are used to define every episode.
 
     """
+    yaml_tag = u"!ContinuousMicrogridEnv"
+    yaml_loader = yaml.SafeLoader
+    yaml_dumper = yaml.SafeDumper
+
     _nested_action_space = None
 
     def _get_nested_action_space(self):
diff --git a/src/pymgrid/envs/discrete/discrete.py b/src/pymgrid/envs/discrete/discrete.py
index 5e744fc..d5802d8 100644
--- a/src/pymgrid/envs/discrete/discrete.py
+++ b/src/pymgrid/envs/discrete/discrete.py
@@ -55,8 +55,12 @@ class DiscreteMicrogridEnv(BaseMicrogridEnv, PriorityListAlgo):
                          flat_spaces=flat_spaces,
                          observation_keys=observation_keys)
 
+        self._redundant_gensets_removed = remove_redundant_gensets
         self.action_space, self.actions_list = self._get_action_space(remove_redundant_gensets)
 
+    def _env_params(self):
+        return {**super()._env_params(), 'remove_redundant_gensets': self._redundant_gensets_removed}
+
     def _get_action_space(self, remove_redundant_gensets=False):
         """
         An action here is a priority list - in what order to deploy controllable source modules.
diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index b375503..fdd5961 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -893,7 +893,7 @@ class Microgrid(yaml.YAMLObject):
                 warn(f'Ignoring keys {mapping.keys()} when loading from scenario.')
             return cls.from_scenario(microgrid_number)
 
-        instance = cls(mapping["modules"], add_unbalanced_module=False)
+        instance = cls(mapping["modules"], add_unbalanced_module=False, **mapping.get('env_params', {}))
         instance._balance_logger = instance._balance_logger.from_raw(mapping.get("balance_log"))
         instance._microgrid_logger = instance._microgrid_logger.from_raw(mapping.get("microgrid_log"))
         instance.reward_shaping_func = mapping.get('reward_shaping_func', None)
-- 
2.43.0


From 74d1b4aaf38a8b0a2f95c061ac1182d1600edc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:17 +0000
Subject: [PATCH 37/77] fix: restore the forecasts of the current step when
 loading a module

---
 .../modules/base/timeseries/base_timeseries_module.py        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 0a9767f..5367192 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -350,5 +350,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
     def serializable_state_attributes(self):
         return ["_current_step"]
 
+    def deserialize(self, serialized_dict):
+        super().deserialize(serialized_dict)
+        self._current_forecast = self.forecast()
+        return self
+
     def __len__(self):
         return self._time_series.shape[0]
-- 
2.43.0


From 627ffa42014f984482f6841ad54e1b793b4a1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:32 +0000
Subject: [PATCH 38/77] fix: allow trajectories and reward shapers without
 attributes to be serialized

---
 src/pymgrid/microgrid/reward_shaping/base.py | 4 ++++
 src/pymgrid/microgrid/trajectory/base.py     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pymgrid/microgrid/reward_shaping/base.py b/src/pymgrid/microgrid/reward_shaping/base.py
index fc2f0ca..ca972a4 100644
--- a/src/pymgrid/microgrid/reward_shaping/base.py
+++ b/src/pymgrid/microgrid/reward_shaping/base.py
@@ -15,5 +15,9 @@ class BaseRewardShaper(yaml.YAMLObject):
     def __call__(self, step_info, cost_info):
         pass
 
+    def __getstate__(self):
+        # yaml requires a mapping, also when there are no attributes.
+        return self.__dict__.copy()
+
     def __repr__(self):
         return f'{self.__class__.__name__}()'
diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index 8aee672..d67b5aa 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -12,6 +12,10 @@ class BaseTrajectory(yaml.YAMLObject):
     def __call__(self, initial_step, final_step):
         pass
 
+    def __getstate__(self):
+        # yaml requires a mapping, also when there are no attributes.
+        return self.__dict__.copy()
+
     def __repr__(self):
         params = inspect.signature(self.__init__).parameters
         formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
-- 
2.43.0


From 68169f994c1af358b325a0ad28d41b38d16b767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:00 +0000
Subject: [PATCH 39/77] fix: allow stochastic trajectories to be compared and
 printed

---
 src/pymgrid/microgrid/trajectory/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/microgrid/trajectory/base.py b/src/pymgrid/microgrid/trajectory/base.py
index d67b5aa..7f33c86 100644
--- a/src/pymgrid/microgrid/trajectory/base.py
+++ b/src/pymgrid/microgrid/trajectory/base.py
@@ -17,7 +17,7 @@ class BaseTrajectory(yaml.YAMLObject):
         return self.__dict__.copy()
 
     def __repr__(self):
-        params = inspect.signature(self.__init__).parameters
+        params = inspect.signature(type(self)).parameters
         formatted_params = ', '.join([f'{p}={getattr(self, p)}' for p in params])
         return f'{self.__class__.__name__}({formatted_params})'
 
-- 
2.43.0


From a3f280cb1122c4f8e5a2f3dc1fd6a37716d85476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:17 +0000
Subject: [PATCH 40/77] fix: read serialized arrays back exactly

---
 src/pymgrid/utils/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 48142dc..12581cc 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -108,7 +108,7 @@ def _pandas_df_constructor(loader, node):
 
         data_path = Path(stream_name).parent / data_path
 
-    return pd.read_csv(data_path, index_col=0)
+    return pd.read_csv(data_path, index_col=0, float_precision='round_trip')
 
 
 def _numpy_arr_constructor(loader, node):
-- 
2.43.0


From 12e76190c547c432cbd36966ea10afadfebee69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:01 +0000
Subject: [PATCH 41/77] fix: accept priority lists given as lists in rule-based
 control

---
 src/pymgrid/algos/rbc/rbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/rbc/rbc.py b/src/pymgrid/algos/rbc/rbc.py
index f912d75..99a2141 100644
--- a/src/pymgrid/algos/rbc/rbc.py
+++ b/src/pymgrid/algos/rbc/rbc.py
@@ -37,7 +37,7 @@ class RuleBasedControl(PriorityListAlgo):
         if priority_list is None:
             return sorted(priority_lists[0])
 
-        if priority_list not in priority_lists:
+        if tuple(priority_list) not in priority_lists:
             raise ValueError('Invalid priority list. Use RuleBasedControl.get_priority_lists to view all '
                              'valid priority lists.')
 
-- 
2.43.0


From d2c9b4050f2820da227fdfdf9dbf8f76a20b5458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:18 +0000
Subject: [PATCH 42/77] fix: do not log discrete actions that were refused

---
 src/pymgrid/envs/discrete/discrete.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/envs/discrete/discrete.py b/src/pymgrid/envs/discrete/discrete.py
index d5802d8..d923333 100644
--- a/src/pymgrid/envs/discrete/discrete.py
+++ b/src/pymgrid/envs/discrete/discrete.py
@@ -142,9 +142,10 @@ class DiscreteMicrogridEnv(BaseMicrogridEnv, PriorityListAlgo):
             Additional information from this step.
 
         """
-        self._microgrid_logger.log(action=action)
         microgrid_action = self._get_action(action)
-        return super().step(microgrid_action, normalized=False)
+        result = super().step(microgrid_action, normalized=False)
+        self._microgrid_logger.log(action=action)
+        return result
 
     def sample_action(self, strict_bound=False, sample_flex_modules=False):
         return self.action_space.sample()
-- 
2.43.0


From 41ed94ab27805aa35f4677787029d4a0b687df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:09 +0000
Subject: [PATCH 43/77] fix: plan battery use within the battery's own power
 limits in model predictive control

---
 src/pymgrid/algos/mpc/mpc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/mpc/mpc.py b/src/pymgrid/algos/mpc/mpc.py
index 1a6a535..29b0ef9 100644
--- a/src/pymgrid/algos/mpc/mpc.py
+++ b/src/pymgrid/algos/mpc/mpc.py
@@ -927,8 +927,9 @@ class ModelPredictiveControl:
         else:
             e_min = battery.min_soc
             e_max = battery.max_soc
-            battery_max_charge = battery.max_charge
-            battery_max_discharge = battery.max_discharge
+            # Limits of the battery are internal, those of the problem are external.
+            battery_max_charge = battery.max_charge / battery.efficiency
+            battery_max_discharge = battery.max_discharge * battery.efficiency
 
             soc_0 = battery.soc
 
-- 
2.43.0


From 99b4e7c0c1c052ab32de99e3c2190129be7c42b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:56 +0000
Subject: [PATCH 44/77] fix: curtail all renewable energy of a non-modular
 microgrid when none is required

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 943d184..d5347cb 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -1059,7 +1059,7 @@ class NonModularMicrogrid:
             pv_curtailed = 0
             overgeneration = 0
 
-        elif 0 < pv_required < pv_available:                # curtail pv
+        elif 0 <= pv_required < pv_available:               # curtail pv
             pv_consumed = pv_required
             loss_load = 0
             pv_curtailed = pv_available-pv_required
-- 
2.43.0


From 52135e15329d33986ff824a307ca91f6d1dcba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:08 +0000
Subject: [PATCH 45/77] fix: record the grid's next values after the first step
 of a non-modular microgrid

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index d5347cb..2a8b71f 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -363,10 +363,10 @@ class NonModularMicrogrid:
             self._grid_price_export=parameters['grid_price_export']
             self._grid_co2 = parameters['grid_co2']
 
-            self._next_grid_status = self._grid_status_ts.iloc[0, 0]
-            self._next_grid_price_export = self._grid_price_export.iloc[0, 0]
-            self._next_grid_price_import = self._grid_price_import.iloc[0, 0]
-            self._next_grid_co2 = self._grid_co2.iloc[0, 0]
+            self._next_grid_status = self._grid_status_ts.iloc[1, 0]
+            self._next_grid_price_export = self._grid_price_export.iloc[1, 0]
+            self._next_grid_price_import = self._grid_price_import.iloc[1, 0]
+            self._next_grid_co2 = self._grid_co2.iloc[1, 0]
 
         # those dataframe record what is happening at each time step
         self._df_record_control_dict=parameters['df_actions']
-- 
2.43.0


From ecb9200c49625074b7c6f2b200ebe1a376b93ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:24 +0000
Subject: [PATCH 46/77] fix: record the hour of the next step along with its
 load and renewable in non-modular microgrids

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 2a8b71f..f4e33e2 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -877,7 +877,7 @@ class NonModularMicrogrid:
         new_dict = {
             'load': next_load,
                     'pv': next_pv,
-            'hour':self._tracking_timestep%24,
+            'hour': (self._tracking_timestep + 1) % 24,
         }
         new_soc =np.nan
         if self.architecture['battery'] == 1:
-- 
2.43.0


From 5ea68007c77516a98dcb5c7fac26baa9cdc44895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:52 +0000
Subject: [PATCH 47/77] fix: let non-modular microgrids reach the last step of
 a training or testing split

---
 .../_deprecated/non_modular_microgrid.py      | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index f4e33e2..5b48ec5 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -748,16 +748,22 @@ class NonModularMicrogrid:
             self.pv = self._pv_train.iloc[self._tracking_timestep, 0]
             self.load = self._load_train.iloc[self._tracking_timestep, 0]
 
-            self._next_pv = self._pv_train.iloc[self._tracking_timestep +1, 0]
-            self._next_load = self._load_train.iloc[self._tracking_timestep+1, 0]
+            if self._tracking_timestep < self._data_length - 1:
+                self._next_pv = self._pv_train.iloc[self._tracking_timestep +1, 0]
+                self._next_load = self._load_train.iloc[self._tracking_timestep+1, 0]
+            else:
+                self._next_pv, self._next_load = None, None
 
 
         if self._data_set_to_use == 'testing':
             self.pv = self._pv_test.iloc[self._tracking_timestep, 0]
             self.load = self._load_test.iloc[self._tracking_timestep, 0]
 
-            self._next_pv = self._pv_test.iloc[self._tracking_timestep+1, 0]
-            self._next_load = self._load_test.iloc[self._tracking_timestep+1, 0]
+            if self._tracking_timestep < self._data_length - 1:
+                self._next_pv = self._pv_test.iloc[self._tracking_timestep+1, 0]
+                self._next_load = self._load_test.iloc[self._tracking_timestep+1, 0]
+            else:
+                self._next_pv, self._next_load = None, None
 
         if self._data_set_to_use == 'all':
             self.pv = self._pv_ts.iloc[self._tracking_timestep, 0]
@@ -778,10 +784,14 @@ class NonModularMicrogrid:
                 self.grid.price_export = self._grid_price_export_train.iloc[self._tracking_timestep,0]
                 self.grid.co2 = self._grid_co2_train.iloc[self._tracking_timestep, 0]
 
-                self._next_grid_status = self._grid_status_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_price_import = self._grid_price_import_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_price_export = self._grid_price_export_train.iloc[self._tracking_timestep +1, 0]
-                self._next_grid_co2 = self._grid_co2_train.iloc[self._tracking_timestep + 1, 0]
+                if self._tracking_timestep < self._data_length - 1:
+                    self._next_grid_status = self._grid_status_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_price_import = self._grid_price_import_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_price_export = self._grid_price_export_train.iloc[self._tracking_timestep +1, 0]
+                    self._next_grid_co2 = self._grid_co2_train.iloc[self._tracking_timestep + 1, 0]
+                else:
+                    self._next_grid_status, self._next_grid_price_import, self._next_grid_price_export, \
+                    self._next_grid_co2 = None, None, None, None
 
             if self._data_set_to_use == 'testing':
                 self.grid.status = self._grid_status_test.iloc[self._tracking_timestep, 0]
@@ -789,10 +799,14 @@ class NonModularMicrogrid:
                 self.grid.price_export = self._grid_price_export_test.iloc[self._tracking_timestep, 0]
                 self.grid.co2 = self._grid_co2_test.iloc[self._tracking_timestep, 0]
 
-                self._next_grid_status = self._grid_status_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_price_import = self._grid_price_import_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_price_export = self._grid_price_export_test.iloc[self._tracking_timestep + 1, 0]
-                self._next_grid_co2 = self._grid_co2_test.iloc[self._tracking_timestep + 1, 0]
+                if self._tracking_timestep < self._data_length - 1:
+                    self._next_grid_status = self._grid_status_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_price_import = self._grid_price_import_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_price_export = self._grid_price_export_test.iloc[self._tracking_timestep + 1, 0]
+                    self._next_grid_co2 = self._grid_co2_test.iloc[self._tracking_timestep + 1, 0]
+                else:
+                    self._next_grid_status, self._next_grid_price_import, self._next_grid_price_export, \
+                    self._next_grid_co2 = None, None, None, None
 
 
             if self._data_set_to_use == 'all':
-- 
2.43.0


From 831d18328017ead33a4c947507c4fedb958c55f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 48/77] fix: convert gensets whose minimum and maximum
 production are equal

---
 src/pymgrid/convert/get_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/convert/get_module.py b/src/pymgrid/convert/get_module.py
index 28aea4f..411a25e 100644
--- a/src/pymgrid/convert/get_module.py
+++ b/src/pymgrid/convert/get_module.py
@@ -1,3 +1,4 @@
+import math
 import pandas as pd
 from pymgrid.modules import LoadModule, RenewableModule, BatteryModule, GridModule, GensetModule, UnbalancedEnergyModule
 
@@ -59,6 +60,8 @@ def get_genset_module(nonmodular, raise_errors):
     genset = nonmodular.genset
     min_production = genset.p_min*genset.rated_power
     max_production = genset.p_max*genset.rated_power
+    if math.isclose(min_production, max_production):  # equal limits may differ by rounding
+        min_production = max_production
     genset_cost = genset.fuel_cost
     co2_per_unit = nonmodular.parameters.genset_co2.item()
     cost_per_unit_co2 = nonmodular.parameters.cost_co2.item()
-- 
2.43.0


From fef01b3aa6db7be5aaf370a3076e2eccb46a1155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:56 +0000
Subject: [PATCH 49/77] fix: keep each feature function's own frequency when
 interpolating pv curves

---
 src/pymgrid/utils/DataGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/utils/DataGenerator.py b/src/pymgrid/utils/DataGenerator.py
index 59083e2..5153ede 100644
--- a/src/pymgrid/utils/DataGenerator.py
+++ b/src/pymgrid/utils/DataGenerator.py
@@ -147,7 +147,7 @@ class NoisyPVData:
                 self.daily_maxes[name] = np.cos(
                     2 * num * np.pi / 8760. * period_scale * (self.daily_maxes['cumulative_hr'] - 173 * 24))
 
-                def f(x):
+                def f(x, num=num):
                     return np.cos(2 * num * np.pi / 8760. * period_scale * (x - 173 * 24))
 
                 assert all((f(self.daily_maxes['cumulative_hr']) == self.daily_maxes[name])), \
@@ -159,7 +159,7 @@ class NoisyPVData:
                 self.daily_maxes[name] = np.sin(
                     2 * num * np.pi / 8760. * period_scale * (self.daily_maxes['cumulative_hr'] - 173 * 24))
 
-                def f(x):
+                def f(x, num=num):
                     return np.sin(2 * num * np.pi / 8760. * period_scale * (x - 173 * 24))
 
             else:
-- 
2.43.0


From aff714c2e830911bb734d3777e62629598ba36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:10 +0000
Subject: [PATCH 50/77] fix: order the bounds of the daily pv peak when the
 interpolated curves cross

---
 src/pymgrid/utils/DataGenerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/utils/DataGenerator.py b/src/pymgrid/utils/DataGenerator.py
index 5153ede..f6d2b95 100644
--- a/src/pymgrid/utils/DataGenerator.py
+++ b/src/pymgrid/utils/DataGenerator.py
@@ -342,8 +342,9 @@ class NoisyPVData:
                 else:
                     interpolated_least_light = 0
 
-            lower_b = interpolated_least_light
-            upper_b = interpolated_most_light
+            # The interpolated curves may cross.
+            lower_b = min(interpolated_least_light, interpolated_most_light)
+            upper_b = max(interpolated_least_light, interpolated_most_light)
             spread = upper_b - lower_b
 
             if noise_type == 'uniform':
-- 
2.43.0


From 5f8267167854fd963c5494bf216a08aba4b5e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:24 +0000
Subject: [PATCH 51/77] fix: allow noisy load data to be read from a file

---
 src/pymgrid/utils/DataGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/DataGenerator.py b/src/pymgrid/utils/DataGenerator.py
index f6d2b95..604db78 100644
--- a/src/pymgrid/utils/DataGenerator.py
+++ b/src/pymgrid/utils/DataGenerator.py
@@ -616,7 +616,7 @@ class NoisyLoadData:
         self.data = self.data.iloc[:8760]
         self.unmunged_data = self.unmunged_data.iloc[:8760]
 
-        self.num_hours = len(load_data)
+        self.num_hours = len(self.data)
         self.munged = False
         self.interpolated = False
 
-- 
2.43.0


From 59f56dcd02d7e045e537907ed8d6f47d5ea95f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:28 +0000
Subject: [PATCH 52/77] fix: sample triangular pv peaks whose bounds coincide

---
 src/pymgrid/utils/DataGenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/DataGenerator.py b/src/pymgrid/utils/DataGenerator.py
index 604db78..30de42a 100644
--- a/src/pymgrid/utils/DataGenerator.py
+++ b/src/pymgrid/utils/DataGenerator.py
@@ -377,7 +377,8 @@ class NoisyPVData:
                 lower_distribution_bounds.append(low)
                 upper_distribution_bounds.append(high)
 
-                peak_val = np.random.triangular(left=low, mode=mode, right=high)
+                # There is only one possible value if the bounds coincide.
+                peak_val = np.random.triangular(left=low, mode=mode, right=high) if low < high else low
 
                 if verbose:
                     print('Day {}'.format(day))
-- 
2.43.0


From cd0db7c1e690b857b711073d82cf93457e98cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:28 +0000
Subject: [PATCH 53/77] fix: compare control outputs by their total cost

---
 src/pymgrid/algos/Control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index cd91eef..0862467 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -217,17 +217,17 @@ class ControlOutput(dict):
     def __eq__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) == np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) == np.sum(other['cost']['total_cost'])
 
     def __lt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) < np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) < np.sum(other['cost']['total_cost'])
 
     def __gt__(self, other):
         if type(self) != type(other):
             return NotImplemented
-        return np.sum(self['cost']) > np.sum(other['cost'])
+        return np.sum(self['cost']['total_cost']) > np.sum(other['cost']['total_cost'])
 
 
 class Benchmarks:
-- 
2.43.0


From 83173dc32e50506d418de8651482f90e6ccc5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:55 +0000
Subject: [PATCH 54/77] fix: run the rule-based and sample average benchmarks
 of non-modular microgrids

---
 src/pymgrid/algos/Control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/Control.py b/src/pymgrid/algos/Control.py
index 0862467..b306617 100644
--- a/src/pymgrid/algos/Control.py
+++ b/src/pymgrid/algos/Control.py
@@ -287,14 +287,14 @@ class Benchmarks:
         :return:
             None
         """
-        from pymgrid.algos import RuleBasedControl
-        RBC = RuleBasedControl(self.microgrid)
+        from pymgrid.algos.rbc._nonmodular_rbc import NonModularRuleBasedControl
+        RBC = NonModularRuleBasedControl(self.microgrid)
         self.rule_based_output = RBC.run_rule_based()
         self.has_rule_based_benchmark = True
         self.outputs_dict[self.rule_based_output.alg_name] = self.rule_based_output
 
     def run_saa_benchmark(self, preset_to_use=85, **kwargs):
-        from pymgrid.algos.saa import SampleAverageApproximation
+        from pymgrid.algos.saa.saa import SampleAverageApproximation
         SAA = SampleAverageApproximation(self.microgrid, preset_to_use=preset_to_use, **kwargs)
         self.saa_output = SAA.run(**kwargs)
         self.has_saa_benchmark = True
-- 
2.43.0


From b0a651d80aff07ff0249e25127556a2cf0b8d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:36 +0000
Subject: [PATCH 55/77] fix: run non-modular rule-based control over as many
 steps as model predictive control

---
 src/pymgrid/algos/rbc/_nonmodular_rbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/rbc/_nonmodular_rbc.py b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
index 9eeb765..e4fbdf8 100644
--- a/src/pymgrid/algos/rbc/_nonmodular_rbc.py
+++ b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
@@ -188,8 +188,8 @@ class NonModularRuleBasedControl:
         baseline_priority_list_cost = deepcopy(self.microgrid._df_record_cost)
         baseline_priority_list_co2 = deepcopy(self.microgrid._df_record_co2)
 
-        if length is None or length >= self.microgrid._data_length:
-            length = self.microgrid._data_length-1
+        if length is None or length > self.microgrid._data_length:
+            length = self.microgrid._data_length
 
         n = length - self.microgrid.horizon
         print_ratio = n/100
-- 
2.43.0


From 2348e6971774c5c9e8455a762006c2814e580a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:21 +0000
Subject: [PATCH 56/77] fix: advance the recorded hour in the results of
 non-modular control algorithms

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 5b48ec5..6cf1a6f 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -891,7 +891,7 @@ class NonModularMicrogrid:
         new_dict = {
             'load': next_load,
                     'pv': next_pv,
-            'hour': (self._tracking_timestep + 1) % 24,
+            'hour': (df['hour'][-1] + 1) % 24,
         }
         new_soc =np.nan
         if self.architecture['battery'] == 1:
-- 
2.43.0


From 52fd94500dad9e49f51206872453a7bd6b13c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:37 +0000
Subject: [PATCH 57/77] fix: record the state after each step in sample average
 approximation

---
 src/pymgrid/algos/saa/saa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index cd68acd..56f2702 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -142,9 +142,9 @@ class SampleAverageApproximation(SampleGenerator):
             # return horizon_outputs
 
             optimal_output = self.determine_optimal_actions(outputs=horizon_outputs, percentile=optimal_percentile)
-            output.append(optimal_output, actual_load=self.underlying_data.loc[j,'load'],
-                          actual_pv=self.underlying_data.loc[j,'pv'],
-                          actual_grid=self.underlying_data.loc[j,'grid'])
+            output.append(optimal_output, actual_load=self.underlying_data.loc[j+1,'load'],
+                          actual_pv=self.underlying_data.loc[j+1,'pv'],
+                          actual_grid=self.underlying_data.loc[j+1,'grid'])
 
         return output
 
-- 
2.43.0


From 58200283523514da793b24ad377c3437061eb1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:49 +0000
Subject: [PATCH 58/77] fix: accept the highest percentile in sample average
 approximation

---
 src/pymgrid/algos/saa/saa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index 56f2702..a524bfc 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -94,7 +94,7 @@ class SampleAverageApproximation(SampleGenerator):
         if percentile < 0. or percentile > 1.:
             raise ValueError('percentile must be in [0,1]')
 
-        partition_val = int(np.floor(len(outputs)*percentile))
+        partition_val = min(int(np.floor(len(outputs)*percentile)), len(outputs)-1)
         partition = np.partition(outputs, partition_val)
 
         if verbose:
-- 
2.43.0


From fe6e9db2c658bfd74ea4da125696a15ef3be7dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:24 +0000
Subject: [PATCH 59/77] fix: run every step of deterministic control on a
 forecast

---
 src/pymgrid/algos/saa/saa.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymgrid/algos/saa/saa.py b/src/pymgrid/algos/saa/saa.py
index a524bfc..266a87e 100644
--- a/src/pymgrid/algos/saa/saa.py
+++ b/src/pymgrid/algos/saa/saa.py
@@ -164,10 +164,12 @@ class SampleAverageApproximation(SampleGenerator):
             if verbose:
                 print('iter {}'.format(j))
 
-                sample.iloc[j] = self.underlying_data.iloc[j]  # overwrite with actual data
+            sample.iloc[j] = self.underlying_data.iloc[j]  # overwrite with actual data
 
-                horizon_output = self.mpc.mpc_single_step(sample, output, j)
+            horizon_output = self.mpc.mpc_single_step(sample, output, j)
 
-                output.append(horizon_output)
+            output.append(horizon_output, actual_load=self.underlying_data.loc[j+1,'load'],
+                          actual_pv=self.underlying_data.loc[j+1,'pv'],
+                          actual_grid=self.underlying_data.loc[j+1,'grid'])
 
-            return output
\ No newline at end of file
+        return output
\ No newline at end of file
-- 
2.43.0


From 3fab916297ac1353399af9f2ca307b9e823949d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:59 +0000
Subject: [PATCH 60/77] fix: run the genset at its minimum when non-modular
 rule-based control needs it for less

---
 src/pymgrid/algos/rbc/_nonmodular_rbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/algos/rbc/_nonmodular_rbc.py b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
index e4fbdf8..ab2ca07 100644
--- a/src/pymgrid/algos/rbc/_nonmodular_rbc.py
+++ b/src/pymgrid/algos/rbc/_nonmodular_rbc.py
@@ -98,7 +98,7 @@ class NonModularRuleBasedControl:
                 if min_load <= temp_load:
                     temp_load = temp_load - min_load
                 else:
-                    temp_load = min_load
+                    temp_load = 0
                     priority_dict = {'PV': 0,
                                      'battery': 0,
                                      'grid': 0,
@@ -157,7 +157,7 @@ class NonModularRuleBasedControl:
                         pv_not_curtailed = pv_not_curtailed + p_export
 
                 if gen == 'genset':
-                    if temp_load > 0:
+                    if temp_load > 0 or min_load > 0:
                         p_genset = temp_load + min_load
                         temp_load = 0
                         min_load = 0
-- 
2.43.0


From 24f98f045f1a852609d60e6303bbaff3d5d9d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:40 +0000
Subject: [PATCH 61/77] fix: return the last log entry from logger_last

---
 src/pymgrid/modules/base/base_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 978eb2d..251f247 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -463,7 +463,7 @@ class BaseMicrogridModule(yaml.YAMLObject):
         entry : dict
 
         """
-        return {k: v[-1] for k, v in self._logger}
+        return {k: v[-1] for k, v in self._logger.items()}
 
     @logger.setter
     def logger(self, logger):
-- 
2.43.0


From 48df0282dde0f1404e7887349d622b032d5f6333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:52 +0000
Subject: [PATCH 62/77] fix: keep the data files of documents in one directory
 apart

---
 src/pymgrid/utils/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/serialize.py b/src/pymgrid/utils/serialize.py
index 12581cc..639df0d 100644
--- a/src/pymgrid/utils/serialize.py
+++ b/src/pymgrid/utils/serialize.py
@@ -25,7 +25,8 @@ def dump_data(data_dict, stream, yaml_tag, name=(None, None)):
     if not hasattr(stream, "name"):
         return data_dict
 
-    path = Path(stream.name).parent / "data"
+    # Documents in the same directory must not overwrite each other's files.
+    path = Path(stream.name).parent / "data" / Path(stream.name).stem
     subdir = yaml_tag.lstrip("!")
 
     if name[1] is not None:
-- 
2.43.0


From 182e478b30e5219bdb6647a5d719cb0c6ffbfe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:06 +0000
Subject: [PATCH 63/77] fix: do not add to the control dict passed to a
 non-modular microgrid

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 6cf1a6f..86d6f5e 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -626,8 +626,7 @@ class NonModularMicrogrid:
 
         """
 
-        control_dict['load'] = self.load
-        control_dict['pv'] = self.pv
+        control_dict = {**control_dict, 'load': self.load, 'pv': self.pv}
 
         self._df_record_control_dict = self._record_action(control_dict, self._df_record_control_dict)
 
-- 
2.43.0


From 4ea422246035b5c8e403e1a9f9ae9a58911a80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:19 +0000
Subject: [PATCH 64/77] fix: keep the full range of a microgrid wrapped inside
 a trajectory

---
 src/pymgrid/envs/base/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/envs/base/base.py b/src/pymgrid/envs/base/base.py
index 8ffa31b..896c2b4 100644
--- a/src/pymgrid/envs/base/base.py
+++ b/src/pymgrid/envs/base/base.py
@@ -284,10 +284,15 @@ class BaseMicrogridEnv(Microgrid, Env):
 
         kwargs['add_unbalanced_module'] = kwargs.pop('add_unbalanced_module', False)
         kwargs['reward_shaping_func'] = kwargs.pop('reward_shaping_func', microgrid.reward_shaping_func)
-        kwargs['trajectory_func'] = kwargs.pop('trajectory_func', microgrid.trajectory_func)
+        trajectory_func = kwargs.pop('trajectory_func', microgrid.trajectory_func)
 
         env = cls(modules.to_tuples(), **kwargs)
 
+        if trajectory_func is not None:
+            # The modules' steps may be those of the microgrid's current trajectory.
+            env._initial_step, env._final_step = microgrid.initial_step, microgrid.final_step
+            env.trajectory_func = env._check_trajectory_func(trajectory_func)
+
         for module in env.modules.iterlist():
             module.logger.flush()
 
-- 
2.43.0


From 6aa87adabbd4728ec159baaa2614212d1ac40d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:31 +0000
Subject: [PATCH 65/77] fix: refuse incomplete controls before any module steps

---
 src/pymgrid/microgrid/microgrid.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/pymgrid/microgrid/microgrid.py b/src/pymgrid/microgrid/microgrid.py
index fdd5961..6ec592a 100644
--- a/src/pymgrid/microgrid/microgrid.py
+++ b/src/pymgrid/microgrid/microgrid.py
@@ -253,6 +253,7 @@ class Microgrid(yaml.YAMLObject):
             Additional information from this step.
 
         """
+        self._check_control(control)
         control_copy = control.copy()
         microgrid_step = MicrogridStep(reward_shaping_func=self.reward_shaping_func, cost_info=self.get_cost_info())
 
@@ -264,15 +265,12 @@ class Microgrid(yaml.YAMLObject):
         log_dict = self._get_log_dict(fixed_provided, fixed_consumed, prefix='fixed')
 
         for name, modules in self.controllable.iterdict():
+            module_controls = control_copy.pop(name)
+
             try:
-                module_controls = control_copy.pop(name)
-            except KeyError:
-                raise ValueError(f'Control for module "{name}" not found. Available controls:\n\t{control.keys()}')
-            else:
-                try:
-                    _zip = zip(modules, module_controls)
-                except TypeError:
-                    _zip = zip(modules, [module_controls])
+                _zip = zip(modules, module_controls)
+            except TypeError:
+                _zip = zip(modules, [module_controls])
 
             for module, _control in _zip:
                 module_step = module.step(_control, normalized=normalized)  # obs, reward, done, info.
@@ -328,6 +326,20 @@ class Microgrid(yaml.YAMLObject):
 
         return microgrid_step.output()
 
+    def _check_control(self, control):
+        # Check before any module steps, so that all modules share the same step if the control is incomplete.
+        for name, modules in self.controllable.iterdict():
+            if name not in control:
+                raise ValueError(f'Control for module "{name}" not found. Available controls:\n\t{control.keys()}')
+
+            try:
+                n_controls = len(control[name])
+            except TypeError:
+                n_controls = 1
+
+            if n_controls < len(modules):
+                raise ValueError(f'Received {n_controls} control(s) for {len(modules)} modules named "{name}".')
+
     def _get_log_dict(self, provided_energy, absorbed_energy, log_dict=None, prefix=None):
         _log_dict = dict(provided_to_microgrid=provided_energy, absorbed_from_microgrid=absorbed_energy)
         _log_dict = {(prefix + '_' + k if prefix is not None else k): v for k, v in _log_dict.items()}
-- 
2.43.0


From cde4e8f2c5de8b38fe75385a5457a7583020d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:46 +0000
Subject: [PATCH 66/77] fix: refresh forecast and noise when the forecast
 horizon is set

---
 src/pymgrid/forecast/forecaster.py                   | 12 ++++++++++++
 .../base/timeseries/base_timeseries_module.py        |  7 ++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index f541470..4754468 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -241,6 +241,10 @@ class GaussianNoiseForecaster(Forecaster):
                 raise ValueError('Must pass time_series if relative_noise is True.')
             scalar_val *= np.abs(time_series.mean())
 
+        self._scalar_noise_std = scalar_val
+        return self._scale_noise_std(scalar_val)
+
+    def _scale_noise_std(self, scalar_val):
         if self.increase_uncertainty:
             return scalar_val * np.outer(
                 1 + np.log(1 + np.arange(self._noise_size[0])),
@@ -249,6 +253,14 @@ class GaussianNoiseForecaster(Forecaster):
         else:
             return scalar_val
 
+    @Forecaster.observation_space.setter
+    def observation_space(self, value):
+        previous_size = self._noise_size
+        Forecaster.observation_space.fset(self, value)
+        self._noise_size = self._forecast_shaped_space.shape
+        if self.increase_uncertainty and self._noise_size != previous_size:
+            self._noise_std = self._scale_noise_std(self._scalar_noise_std)
+
     def _get_noise(self, size):
         try:
             return np.random.normal(scale=self._noise_std, size=size)
diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index 5367192..b9b1fae 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -236,7 +236,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
         """
 
-        self.forecast_horizon = forecast_horizon * (forecaster is not None)
+        self._set_forecast_horizon(forecast_horizon * (forecaster is not None))
 
         self._forecaster = get_forecaster(forecaster,
                                           self._observation_space,
@@ -263,6 +263,10 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
 
     @forecast_horizon.setter
     def forecast_horizon(self, value):
+        self._set_forecast_horizon(value)
+        self._current_forecast = self.forecast()
+
+    def _set_forecast_horizon(self, value):
 
         self._forecast_horizon = value
         self._state_dict_keys = self._set_state_dict_keys()
@@ -274,6 +278,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
             self._forecaster = OracleForecaster(self._observation_space,
                                                 forecast_shape=(value, len(self.state_components))
                                                 )
+            self._forecast_param = "oracle"
 
         self._forecaster.observation_space = self._observation_space
 
-- 
2.43.0


From a87874c494fb0b8efb044da37c9263f9528e158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:04 +0000
Subject: [PATCH 67/77] fix: choose generator data files independently of the
 directory order

---
 src/pymgrid/MicrogridGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymgrid/MicrogridGenerator.py b/src/pymgrid/MicrogridGenerator.py
index f24f771..3d15b68 100644
--- a/src/pymgrid/MicrogridGenerator.py
+++ b/src/pymgrid/MicrogridGenerator.py
@@ -129,7 +129,7 @@ class MicrogridGenerator:
         """ Based on a path, and a folder containing data files, return a file chosen randomly."""
         from pathlib import Path
         _path = Path(path)
-        data_files = list(_path.glob("*.csv"))
+        data_files = sorted(_path.glob("*.csv"))
         if not len(data_files):
             raise NameError(f"Unable to find csv data files in {path}")
         return pd.read_csv(np.random.choice(data_files))
-- 
2.43.0


From ccee6f217e20f89c3cc18fe5690622099a284a79 Mon Sep 17 00:00:00 2001
From: n <a@b>
Date: Wed, 18 Nov 2026 06:48:50 +0000
Subject: [PATCH 68/77] fix: check and complete every grid series, also lists
 and series set later

---
 src/pymgrid/modules/grid_module.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index 03b32c9..667a5f5 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -83,7 +83,6 @@ class GridModule(BaseTimeSeriesMicrogridModule):
                  cost_per_unit_co2=0.0,
                  raise_errors=False):
 
-        time_series = self._check_params(max_import, max_export, time_series)
         self.max_import, self.max_export = max_import, max_export
         self.cost_per_unit_co2 = cost_per_unit_co2
         self.name = ('grid', None)
@@ -105,7 +104,9 @@ class GridModule(BaseTimeSeriesMicrogridModule):
             raise ValueError('parameter max_import must be non-negative.')
         if max_export < 0:
             raise ValueError('parameter max_export must be non-negative.')
-        if time_series.shape[1] not in [3, 4]:
+
+        time_series = np.array(time_series)
+        if time_series.ndim != 2 or time_series.shape[1] not in [3, 4]:
             raise ValueError('Time series must be two dimensional with three or four columns.'
                              'See docstring for details.')
 
@@ -122,6 +123,9 @@ class GridModule(BaseTimeSeriesMicrogridModule):
 
         return time_series
 
+    def _set_time_series(self, time_series):
+        return super()._set_time_series(self._check_params(self.max_import, self.max_export, time_series))
+
     def _get_bounds(self):
         min_obs = self._time_series.min(axis=0)
         max_obs = self._time_series.max(axis=0)
-- 
2.43.0


From 8d178e1a475b4d8408a864cdc00da494017ff2c3 Mon Sep 17 00:00:00 2001
From: n <a@b>
Date: Wed, 18 Nov 2026 06:50:47 +0000
Subject: [PATCH 69/77] fix: refuse a final step that is not after the initial
 one before applying it

---
 .../base/timeseries/base_timeseries_module.py     | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
index b9b1fae..2e0715b 100644
--- a/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
+++ b/src/pymgrid/modules/base/timeseries/base_timeseries_module.py
@@ -35,6 +35,7 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
         self._time_series = self._set_time_series(time_series)
         self._min_obs, self._max_obs, self._min_act, self._max_act = self._get_bounds()
 
+        self.initial_step = initial_step
         self.final_step = final_step
 
         self._forecast_param = forecaster
@@ -330,14 +331,12 @@ class BaseTimeSeriesMicrogridModule(BaseMicrogridModule):
             raise ValueError('final_step value must be an integer.')
 
         if value <= 0:
-            self._final_step = len(self)
-        else:
-            self._final_step = value
-        try:
-            if self._final_step <= self.initial_step:
-                raise ValueError('final_step value must be greater than initial_step')
-        except AttributeError:
-            pass
+            value = len(self)
+
+        if value <= self.initial_step:
+            raise ValueError('final_step value must be greater than initial_step')
+
+        self._final_step = value
 
     def _state_dict(self):
         state_dict = dict(zip(self._state_dict_keys['current'], self.current_obs))
-- 
2.43.0


From 6b4c1a927eae48a5cd533ed899ec2a8df97e841b Mon Sep 17 00:00:00 2001
From: n <a@b>
Date: Wed, 18 Nov 2026 06:56:13 +0000
Subject: [PATCH 70/77] fix: as_flex converts the grid it is called on only,
 and as_fixed gives a grid that can run

---
 src/pymgrid/modules/grid_module.py      | 16 ++++++++++++----
 src/pymgrid/modules/module_container.py |  6 +++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pymgrid/modules/grid_module.py b/src/pymgrid/modules/grid_module.py
index 667a5f5..78fc08b 100644
--- a/src/pymgrid/modules/grid_module.py
+++ b/src/pymgrid/modules/grid_module.py
@@ -238,16 +238,24 @@ class GridModule(BaseTimeSeriesMicrogridModule):
         Flex modules do not require a control to be passed, and are deployed as necessary to balance load and demand.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'flex')
+        self.module_type = (self.module_type[0], 'flex')
 
     def as_fixed(self):
         """
-        Convert the module to a fixed module.
+        Convert the module back to a module that is not flex.
 
-        Flex modules require a control to be passed.
+        Such modules require a control to be passed.
 
         """
-        self.__class__.module_type = (self.__class__.module_type[0], 'fixed')
+        self.module_type = (self.module_type[0], 'controllable')
+
+    def _serialize_state_attributes(self):
+        return {**super()._serialize_state_attributes(), "module_type": list(self.module_type)}
+
+    def deserialize(self, serialized_dict):
+        serialized_dict = serialized_dict.copy()
+        self.module_type = tuple(serialized_dict.pop("module_type", self.module_type))
+        return super().deserialize(serialized_dict)
 
     @property
     def import_price(self):
diff --git a/src/pymgrid/modules/module_container.py b/src/pymgrid/modules/module_container.py
index 95da642..4faacd0 100644
--- a/src/pymgrid/modules/module_container.py
+++ b/src/pymgrid/modules/module_container.py
@@ -366,10 +366,10 @@ def get_subcontainers(modules):
     for module in modules:
         try:  # module is a tuple
             module_name, module = module
-            fixed_flex_controllable = module.__class__.module_type[1]
+            fixed_flex_controllable = module.module_type[1]
         except TypeError:  # module is a module
             try:
-                module_name, fixed_flex_controllable = module.__class__.module_type
+                module_name, fixed_flex_controllable = module.module_type
             except TypeError:
                 raise NotImplementedError(
                     f'Must define the class attribute module_type for class {module.__class__.__name__}')
@@ -387,7 +387,7 @@ def get_subcontainers(modules):
         elif fixed_flex_controllable == 'controllable':
             d = controllable
         else:
-            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.__class__.module_type}')
+            raise TypeError(f'Cannot parse fixed_flex_controllable from module type {module.module_type}')
 
         module_type = (fixed_flex_controllable, source_sink_both)
         if module_names.setdefault(module_name, module_type) != module_type:
-- 
2.43.0


From 356c63918374de209f403c309aadf778d7b49971 Mon Sep 17 00:00:00 2001
From: n <a@b>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 71/77] fix: un-normalize values given as lists

---
 src/pymgrid/utils/space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymgrid/utils/space.py b/src/pymgrid/utils/space.py
index 686e815..512da01 100644
--- a/src/pymgrid/utils/space.py
+++ b/src/pymgrid/utils/space.py
@@ -231,6 +231,7 @@ class ModuleSpace(_PymgridSpace):
             return denormalized
 
     def _bounds_check(self, val, low, high):
+        val = np.asarray(val) if hasattr(val, '__len__') else val
         array_like_check = hasattr(val, '__len__') and \
                            not (all((low <= val) & (val <= high)) or np.allclose(val, low) or np.allclose(val, high))
         scalar_check = not hasattr(val, '__len__') and not low <= val <= high
-- 
2.43.0


From 8e6fc4c13ce90d264601e0b3be88edc1ae7c7a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:40 +0000
Subject: [PATCH 72/77] fix: un-normalize single-point spaces to their point

---
 src/pymgrid/utils/space.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymgrid/utils/space.py b/src/pymgrid/utils/space.py
index 512da01..93702e8 100644
--- a/src/pymgrid/utils/space.py
+++ b/src/pymgrid/utils/space.py
@@ -223,7 +223,7 @@ class ModuleSpace(_PymgridSpace):
         self._shape_check(val, 'denormalize')
         self._bounds_check(val, 0, 1)
 
-        denormalized = low + self._spread * val
+        denormalized = low + (high - low) * val
 
         try:
             return denormalized.item()
@@ -286,8 +286,8 @@ class MicrogridSpace(_PymgridSpace):
 
         self._shape_check(val, 'denormalize')
 
-        val_times_spread = self.dict_op(val, self._spread, operator.mul)
-        denormalized = self.dict_op(val_times_spread, low, operator.add)
+        val_times_range = self.dict_op(val, self.dict_op(high, low, operator.sub), operator.mul)
+        denormalized = self.dict_op(val_times_range, low, operator.add)
 
         return denormalized
 
-- 
2.43.0


From fb3901f311edffdb78c473998e51fb05bedf2d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:02 +0000
Subject: [PATCH 73/77] fix: seeding a module or microgrid space seeds its
 samples

---
 src/pymgrid/utils/space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymgrid/utils/space.py b/src/pymgrid/utils/space.py
index 93702e8..53d08df 100644
--- a/src/pymgrid/utils/space.py
+++ b/src/pymgrid/utils/space.py
@@ -139,6 +139,9 @@ class _PymgridSpace(Space):
             return self._normalized.sample()
         return self._unnormalized.sample()
 
+    def seed(self, seed=None):
+        return [*super().seed(seed), *self._unnormalized.seed(seed), *self._normalized.seed(seed)]
+
     def _shape_check(self, val, func):
         low = self._unnormalized.low
         if hasattr(val, '__len__') and len(val) != len(low):
-- 
2.43.0


From 1464c8332800605e6c23e47ae46174bc8334365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:02 +0000
Subject: [PATCH 74/77] fix: push pv samples to source data whatever the name
 of its column

---
 src/pymgrid/utils/DataGenerator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymgrid/utils/DataGenerator.py b/src/pymgrid/utils/DataGenerator.py
index 30de42a..a674dbc 100644
--- a/src/pymgrid/utils/DataGenerator.py
+++ b/src/pymgrid/utils/DataGenerator.py
@@ -498,7 +498,9 @@ class NoisyPVData:
             stacked_data = self._check_sample(stacked_data, verbose=verbose)
 
             if push_individual_vals:
-                stacked_data['pv'] += push_individual_ratio*(self.unmunged_data['GH illum (lx)']-stacked_data['pv'])
+                columns = self.unmunged_data.columns
+                original = self.unmunged_data[columns[0] if len(columns) == 1 else 'GH illum (lx)']
+                stacked_data['pv'] += push_individual_ratio*(original-stacked_data['pv'])
 
             return stacked_data
 
-- 
2.43.0


From bda608398feb2ef7996b0be0cabd73449717bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:49 +0000
Subject: [PATCH 75/77] fix: record 0 for controls not given, and compute the
 penalty from what both records hold

---
 src/pymgrid/_deprecated/non_modular_microgrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/_deprecated/non_modular_microgrid.py b/src/pymgrid/_deprecated/non_modular_microgrid.py
index 86d6f5e..d4b16d1 100644
--- a/src/pymgrid/_deprecated/non_modular_microgrid.py
+++ b/src/pymgrid/_deprecated/non_modular_microgrid.py
@@ -874,7 +874,7 @@ class NonModularMicrogrid:
             if j in control_dict.keys():
                 df[j].append(control_dict[j])
             else:
-                df[j].append({j:0})
+                df[j].append(0)
         #df = df.append(control_dict,ignore_index=True)
 
         return df
@@ -1265,7 +1265,8 @@ class NonModularMicrogrid:
         """Penalty that represents discrepancies between control dict and what really happens. """
         penalty = 0
         for i in self._df_record_control_dict:
-            penalty += abs(self._df_record_control_dict[i][-1] - self._df_record_actual_production[i][-1])
+            if i in self._df_record_actual_production:
+                penalty += abs(self._df_record_control_dict[i][-1] - self._df_record_actual_production[i][-1])
 
         return penalty*coef
 
-- 
2.43.0


From 74834144a87400ba07a6b6bb24960e9937f9b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:48 +0000
Subject: [PATCH 76/77] fix: compare modules whose series or forecasts differ
 in length without failing

---
 src/pymgrid/modules/base/base_module.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/modules/base/base_module.py b/src/pymgrid/modules/base/base_module.py
index 251f247..d978130 100644
--- a/src/pymgrid/modules/base/base_module.py
+++ b/src/pymgrid/modules/base/base_module.py
@@ -960,11 +960,23 @@ class BaseMicrogridModule(yaml.YAMLObject):
         if type(self) != type(other):
             return NotImplemented
 
-        diff = [(k1, v1, v2) for (k1, v1), (k2, v2) in zip(self.__dict__.items(), other.__dict__.items()) if
-                ((hasattr(v1, "any") and not np.allclose(v1, v2)) or (not hasattr(v1, "any") and v1 != v2))]
+        # Attributes of the class may be overridden in one of the instances only.
+        keys = {**self.__dict__, **other.__dict__}
+        diff = [k for k in keys if not self._equal_attrs(getattr(self, k, None), getattr(other, k, None))]
 
         return len(diff) == 0
 
+    @staticmethod
+    def _equal_attrs(v1, v2):
+        if v1 is None or v2 is None:
+            return v1 is v2
+        elif hasattr(v1, "any") or hasattr(v2, "any"):
+            try:
+                return np.shape(v1) == np.shape(v2) and np.allclose(v1, v2)
+            except TypeError:  # one of them is not numeric
+                return False
+        return v1 == v2
+
     def __repr__(self):
         param_repr = {p: getattr(self, p) for p in inspect.signature(self.__init__).parameters}
         param_repr = [f'{p}={type(v) if hasattr(v, "__len__") and not isinstance(v, str) else v}' for p, v in param_repr.items()]
-- 
2.43.0


From e925e340ca6115c676b03897fdde36bfb0978aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:09 +0000
Subject: [PATCH 77/77] fix: compare forecasters with array attributes without
 failing

---
 src/pymgrid/forecast/forecaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymgrid/forecast/forecaster.py b/src/pymgrid/forecast/forecaster.py
index 4754468..66839ce 100644
--- a/src/pymgrid/forecast/forecaster.py
+++ b/src/pymgrid/forecast/forecaster.py
@@ -166,8 +166,8 @@ class Forecaster:
         if type(self) != type(other):
             return NotImplemented
 
-        return (self._fill_arr == other._fill_arr).all() and \
-               all(v == other.__dict__[k] for k, v in self.__dict__.items() if k != '_fill_arr')
+        return all(np.array_equal(v, other.__dict__[k]) if isinstance(v, np.ndarray) else v == other.__dict__[k]
+                   for k, v in self.__dict__.items())
 
     def __call__(self, val_c, val_c_n, n):
         if len(val_c_n.shape) == 1:
-- 
2.43.0

