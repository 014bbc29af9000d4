From 5b607a43b1970584c911c4116914e94985955704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 01/29] fix: search-based discrete inverse fits every object,
 not only the SDC

---
 waymax/dynamics/discretizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index b7e7add..654b5ce 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -19,7 +19,6 @@ from dm_env import specs
 import jax
 import jax.numpy as jnp
 
-from waymax import config as _config
 from waymax import datatypes
 from waymax.dynamics import abstract_dynamics
 
@@ -252,7 +251,10 @@ def inverse_action_by_search(
     An Action that converts traj[timestep] to traj[timestep+1] of shape
       (..., num_objects, dim=2).
   """
-  is_controlled = datatypes.get_control_mask(metadata, _config.ObjectType.SDC)
+  # Every object's action is searched: an uncontrolled object would follow the
+  # log whatever the action, making all actions fit equally well.
+  del metadata  # Not used.
+  is_controlled = jnp.ones(traj.shape[:-1], dtype=jnp.bool_)
   valids = jax.lax.dynamic_slice_in_dim(
       traj.valid, start_index=timestep, slice_size=2, axis=-1
   )
-- 
2.43.0


From 0a3cb7eac206533ebd57c9559e353776999f4e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 02/29] fix: single-agent dynamics forward tiles the action
 validity and passes the late-entry flag

---
 waymax/env/planning_agent_environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index d547a30..653ba14 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -100,7 +100,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         action.data[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_valid = jnp.repeat(
-        action.valid[..., jnp.newaxis], trajectory.num_objects, axis=-1
+        action.valid[..., jnp.newaxis, :], trajectory.num_objects, axis=-2
     )
     tiled_action = datatypes.Action(data=tiled_action_data, valid=tiled_valid)
     tiled_action.validate()
@@ -110,6 +110,7 @@ class PlanningAgentDynamics(_dynamics.DynamicsModel):
         log_trajectory,
         is_controlled,
         timestep,
+        allow_new_objects,
     )
 
   def inverse(
-- 
2.43.0


From bd00e223b6c87db3837baa94f2ff3288ad382fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 03/29] fix: reward broadcasts ego-only metrics over objects
 for batched states

---
 waymax/rewards/linear_combination_reward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 2bf1d7e..7d8dcc8 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -55,6 +55,9 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     reward = jnp.zeros_like(agent_mask)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
+      if metric_all_agents.ndim < agent_mask.ndim:
+        # Metrics of the SDC only have no object dimension.
+        metric_all_agents = metric_all_agents[..., jnp.newaxis]
       metric = metric_all_agents * agent_mask
       reward += metric * reward_weight
 
-- 
2.43.0


From c83d3c348fca226bef23680c066d8aa9ab0b6fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 04/29] fix: reward without any metric is a float, as its spec
 says

---
 waymax/rewards/linear_combination_reward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/rewards/linear_combination_reward.py b/waymax/rewards/linear_combination_reward.py
index 7d8dcc8..46203e7 100644
--- a/waymax/rewards/linear_combination_reward.py
+++ b/waymax/rewards/linear_combination_reward.py
@@ -52,7 +52,7 @@ class LinearCombinationReward(abstract_reward_function.AbstractRewardFunction):
     del action  # unused
     all_metrics = metrics.run_metrics(simulator_state, self._metrics_config)
 
-    reward = jnp.zeros_like(agent_mask)
+    reward = jnp.zeros_like(agent_mask, dtype=jnp.float32)
     for reward_metric_name, reward_weight in self._config.rewards.items():
       metric_all_agents = all_metrics[reward_metric_name].masked_value()
       if metric_all_agents.ndim < agent_mask.ndim:
-- 
2.43.0


From 532f803208d906434b67b5dbf31e3141fa441922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 05/29] fix: masked_mean broadcasts back along the reduced
 axis, whichever it is

---
 waymax/datatypes/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index dc57cd7..d9114f5 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -278,9 +278,9 @@ def masked_mean(
   Returns:
     Array representing the mean of the array of all valid values.
   """
-  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis)
-  masked_sum = jnp.sum(x, where=valid, axis=axis)
+  num_valid = jnp.sum(valid.astype(jnp.float32), axis=axis, keepdims=True)
+  masked_sum = jnp.sum(x, where=valid, axis=axis, keepdims=True)
   mean = masked_sum / num_valid
   mean = jnp.where(num_valid == 0, invalid_value, mean)
   # Broadcast back to the original shape.
-  return jnp.broadcast_to(mean[..., None], x.shape)
+  return jnp.broadcast_to(mean, x.shape)
-- 
2.43.0


From c29ea6de04cd5fc4f578649b40b690d5f4a454d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:40 +0000
Subject: [PATCH 06/29] fix: multi-agent action spec accepts dynamics with
 scalar bounds

---
 waymax/env/base_environment.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/waymax/env/base_environment.py b/waymax/env/base_environment.py
index afcc90d..455f2c8 100644
--- a/waymax/env/base_environment.py
+++ b/waymax/env/base_environment.py
@@ -168,17 +168,13 @@ class BaseEnvironment(abstract_environment.AbstractEnvironment):
     # Dynamics model class defines specs for a single agent.
     # Need to expand it to multiple objects.
     single_agent_spec = self.dynamics.action_spec()  # rank 1
+    # The bounds of a spec may be scalars (e.g. StateDynamics).
+    data_shape = (self.config.max_num_objects,) + single_agent_spec.shape
     data_spec = specs.BoundedArray(
-        shape=(self.config.max_num_objects,) + single_agent_spec.shape,
+        shape=data_shape,
         dtype=single_agent_spec.dtype,
-        minimum=jnp.tile(
-            single_agent_spec.minimum[jnp.newaxis, :],
-            [self.config.max_num_objects, 1],
-        ),
-        maximum=jnp.tile(
-            single_agent_spec.maximum[jnp.newaxis, :],
-            [self.config.max_num_objects, 1],
-        ),
+        minimum=jnp.broadcast_to(single_agent_spec.minimum, data_shape),
+        maximum=jnp.broadcast_to(single_agent_spec.maximum, data_shape),
     )
     valid_spec = specs.Array(
         shape=(self.config.max_num_objects, 1), dtype=jnp.bool_
-- 
2.43.0


From 53fd662727071d1c451514e55713fc3c561edf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 07/29] fix: is_ego marks every observer as itself, not only
 object 1

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 8836305..55309a8 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -568,7 +568,7 @@ def observation_from_state(
   # state.shape + (num_obj, num_obj)
   target_shape = state.shape + (num_obj, num_obj)
   is_ego = jax.lax.broadcast_in_dim(
-      jnp.diag(jnp.arange(num_obj)) == 1,
+      jnp.eye(num_obj, dtype=jnp.bool_),
       shape=target_shape,
       broadcast_dimensions=(len(target_shape) - 2, len(target_shape) - 1),
   )
-- 
2.43.0


From b6d0f49a2818349059cac54a96c3726e39e09ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 08/29] fix: Observation.for_obj slices the observation axis

---
 waymax/datatypes/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 55309a8..3981400 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -254,7 +254,7 @@ class Observation:
     Returns:
       A Observation with shape (..., 1).
     """
-    axis = len(self.shape) - 2
+    axis = len(self.shape) - 1
     return operations.dynamic_slice(
         inputs=self, start_index=idx, slice_size=1, axis=axis
     )
-- 
2.43.0


From bbaf152d18186151931f2026d1f87501dba174a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 09/29] fix: observation history reaching before the first step
 is invalid, not the end of the log

---
 waymax/datatypes/observation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 3981400..41ce979 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -474,8 +474,13 @@ def global_observation_from_state(
   """
 
   def slice_by_time(x: operations.PyTree) -> operations.PyTree:
+    # Steps before the start of the run segment are padded as invalid, so that
+    # the last step is always the current one.
+    def pad(y: jax.Array) -> jax.Array:
+      return jnp.pad(y, [(0, 0)] * (y.ndim - 1) + [(obs_num_steps - 1, 0)])
+
     return operations.dynamic_slice(
-        x, state.timestep - obs_num_steps + 1, obs_num_steps, axis=-1
+        jax.tree_util.tree_map(pad, x), state.timestep, obs_num_steps, axis=-1
     )
 
   # Shape: (..., num_obj, num_timesteps) -> (..., num_obj, num_timesteps=obs_T).
-- 
2.43.0


From 2c9d2df8e0ad464543c49fc813229cc82fe058a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 10/29] fix: observations transform the routes along with
 everything else

---
 waymax/datatypes/observation.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/waymax/datatypes/observation.py b/waymax/datatypes/observation.py
index 41ce979..9fde5e3 100644
--- a/waymax/datatypes/observation.py
+++ b/waymax/datatypes/observation.py
@@ -391,6 +391,28 @@ def transform_traffic_lights(
   return tls.replace(x=dst_xy[..., 0], y=dst_xy[..., 1], valid=valid)
 
 
+def transform_paths(paths: route.Paths, pose2d: ObjectPose2D) -> route.Paths:
+  """Transforms Paths into coordinates specified by pose2d.
+
+  Args:
+    paths: Paths with shape (..., num_observations, num_paths,
+      num_points_per_path).
+    pose2d: A ObjectPose2D with shape (..., num_observations).
+
+  Returns:
+    Transformed paths in local coordinates per-observation defined by the pose.
+  """
+  chex.assert_equal(paths.shape, pose2d.shape + paths.shape[-2:])
+
+  dst_xy = geometry.transform_points(
+      pts=paths.xy,
+      pose_matrix=pose2d.matrix,
+  )
+  valid = jnp.logical_and(paths.valid, pose2d.valid[..., None, None])
+
+  return paths.replace(x=dst_xy[..., 0], y=dst_xy[..., 1], valid=valid)
+
+
 def transform_observation(
     observation: Observation, pose2d: ObjectPose2D
 ) -> Observation:
@@ -416,11 +438,15 @@ def transform_observation(
       observation.roadgraph_static_points, pose
   )
   transf_tls = transform_traffic_lights(observation.traffic_lights, pose)
+  transf_paths = observation.sdc_paths
+  if transf_paths is not None:
+    transf_paths = transform_paths(transf_paths, pose)
 
   obs = observation.replace(
       trajectory=transf_traj,
       roadgraph_static_points=transf_rg,
       traffic_lights=transf_tls,
+      sdc_paths=transf_paths,
       pose2d=pose2d,
   )
   obs.validate()
-- 
2.43.0


From 9ab36f534c050d10fc6e224133535636d10fdd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 11/29] fix: filtering roadgraph points keeps ids exact beyond
 float32

---
 waymax/datatypes/roadgraph.py | 29 ++---------------------------
 1 file changed, 2 insertions(+), 27 deletions(-)

diff --git a/waymax/datatypes/roadgraph.py b/waymax/datatypes/roadgraph.py
index 5a24223..1d1e06b 100644
--- a/waymax/datatypes/roadgraph.py
+++ b/waymax/datatypes/roadgraph.py
@@ -201,33 +201,8 @@ def filter_topk_roadgraph_points(
     valid_distances = jnp.where(roadgraph.valid, distances, float('inf'))
     _, top_idx = jax.lax.top_k(-valid_distances, topk)
 
-    stacked = jnp.stack(
-        [
-            roadgraph.x,
-            roadgraph.y,
-            roadgraph.z,
-            roadgraph.dir_x,
-            roadgraph.dir_y,
-            roadgraph.dir_z,
-            roadgraph.types,
-            roadgraph.ids,
-            roadgraph.valid,
-        ],
-        axis=-1,
-        dtype=jnp.float32,
-    )
-    filtered = jnp.take_along_axis(stacked, top_idx[..., None], axis=-2)
-
-    return RoadgraphPoints(
-        x=filtered[..., 0],
-        y=filtered[..., 1],
-        z=filtered[..., 2],
-        dir_x=filtered[..., 3],
-        dir_y=filtered[..., 4],
-        dir_z=filtered[..., 5],
-        types=filtered[..., 6].astype(jnp.int32),
-        ids=filtered[..., 7].astype(jnp.int32),
-        valid=filtered[..., 8].astype(jnp.bool_),
+    return jax.tree_util.tree_map(
+        lambda x: jnp.take_along_axis(x, top_idx, axis=-1), roadgraph
     )
   else:
     return roadgraph
-- 
2.43.0


From a1d13f8e34305c622b3f668a4c2f3e2ef5c013ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 12/29] fix: DMEnvWrapper must not be usable after a refused
 reset

reset() raises when the new scene is already at its end, but the wrapper was
left initialized, so the following steps ran past the end of the log.
---
 waymax/env/wrappers/dm_env_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 6c89bc1..2b6f18b 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -86,10 +86,11 @@ class DMEnvWrapper(dm_env.Environment):
 
   def reset(self) -> dm_env.TimeStep:
     """Resets the environment and returns the initial TimeStep."""
+    self._initialized = False
     self._cur_state = self.stateless_env.reset(next(self._data_generator))
-    self._initialized = True
     if self._cur_state.is_done:
       raise errors.SimulationNotInitializedError()
+    self._initialized = True
     self._done = False
     return dm_env.restart(observation=self.observe(self._cur_state))
 
-- 
2.43.0


From 03e63353f6b64fe704d64e62b0c30e18cfb1ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 13/29] fix: DMEnvWrapper.step passes an Action to the reward

The reward was given the raw array instead of the datatypes.Action its
interface promises, so a reward that looks at the action raised.
---
 waymax/env/wrappers/dm_env_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 2b6f18b..4ada2ff 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -115,10 +115,6 @@ class DMEnvWrapper(dm_env.Environment):
     if self._done:
       raise errors.EpisodeAlreadyFinishedError()
 
-    # Calculate the reward on the simulation step before updating the state with
-    # the given action.
-    reward = self._jitted_stateless_env_reward(self._cur_state, action)
-
     action = jnp.asarray(action)
     # Reshape the action to what the underlying environment wants.
     action = jnp.reshape(
@@ -130,6 +126,10 @@ class DMEnvWrapper(dm_env.Environment):
         data=action, valid=jnp.ones_like(action[..., 0:1], dtype=jnp.bool_)
     )
     action.validate()
+
+    # Calculate the reward on the simulation step before updating the state with
+    # the given action.
+    reward = self._jitted_stateless_env_reward(self._cur_state, action)
     self._cur_state = self._jitted_stateless_env_step(self._cur_state, action)
 
     termination = self._stateless_env.termination(self._cur_state)
-- 
2.43.0


From a7ce97ec8bab1e48b1a7c7fea49afa299f4c2878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 14/29] fix: make_sdc_dm_environment gives parameters to its
 sim agents

With env_config.sim_agents the numbers of actors and of parameters differed,
which the environment refuses.
---
 waymax/env/wrappers/dm_env_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/waymax/env/wrappers/dm_env_wrapper.py b/waymax/env/wrappers/dm_env_wrapper.py
index 4ada2ff..4671724 100644
--- a/waymax/env/wrappers/dm_env_wrapper.py
+++ b/waymax/env/wrappers/dm_env_wrapper.py
@@ -219,5 +219,6 @@ def make_sdc_dm_environment(
       dynamics_model=dynamics_model,
       config=env_config,
       sim_agent_actors=sim_agent_actors,
+      sim_agent_params=[{}] * len(sim_agent_actors),
   )
   return DMEnvWrapper(dataset_iterator, single_env)
-- 
2.43.0


From 300bc7d8ec8e456c70479ccaff47a37739e96fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 15/29] fix: BraxWrapper.reset reports truncation in done

A scene whose warm-up reaches the end of its log was reported as not done.
---
 waymax/env/wrappers/brax_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/waymax/env/wrappers/brax_wrapper.py b/waymax/env/wrappers/brax_wrapper.py
index 2b92739..c003bb9 100644
--- a/waymax/env/wrappers/brax_wrapper.py
+++ b/waymax/env/wrappers/brax_wrapper.py
@@ -108,7 +108,9 @@ class BraxWrapper:
     return TimeStep(
         state=initial_state,
         observation=self.observe(initial_state),
-        done=self.termination(initial_state),
+        done=jnp.logical_or(
+            self.termination(initial_state), self.truncation(initial_state)
+        ),
         reward=jnp.zeros(state.shape + self.reward_spec().shape),
         discount=jnp.ones(state.shape + self.discount_spec().shape),
         metrics=self.metrics(initial_state),
-- 
2.43.0


From b1774b8c1ee46731dc3d83ff6224d50bde16a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:30 +0000
Subject: [PATCH 16/29] fix: sharded paths may contain @ in a directory name

---
 waymax/dataloader/dataloader_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 6ef2c80..743e830 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -53,7 +53,7 @@ def generate_sharded_filenames(path: str) -> Sequence[str]:
     An iterator through the complete set of filenames that the path refers to,
     with each filename having the format `filename-XXXXX-of-YYYYY`
   """
-  base_name, num_shards = path.split('@')
+  base_name, num_shards = path.rsplit('@', 1)
   num_shards = int(num_shards)
   shard_width = max(5, int(math.log10(num_shards) + 1))
   format_str = base_name + '-%0' + str(shard_width) + 'd-of-%05d'
-- 
2.43.0


From 21e3fdfb70e1859c3a283c7393aa88655ab2f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:30 +0000
Subject: [PATCH 17/29] fix: read all shards of an infinitely repeated dataset

---
 waymax/dataloader/dataloader_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 743e830..07bcf3a 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -161,8 +161,13 @@ def tf_examples_dataset(
       _make_dataset, num_shards=num_shards, local_files=files
   )
   indices = tf.data.Dataset.range(num_shards)
+  # An unset cycle length depends on the number of cores, and the shards beyond
+  # it are never read when the dataset repeats infinitely.
   dataset = indices.interleave(
-      make_dataset_fn, num_parallel_calls=AUTOTUNE, deterministic=deterministic
+      make_dataset_fn,
+      cycle_length=num_shards,
+      num_parallel_calls=AUTOTUNE,
+      deterministic=deterministic,
   )
 
   if tf_data_service_address is not None:
-- 
2.43.0


From f919c62a695207c871d8fa4fc1fe3143a315c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:30 +0000
Subject: [PATCH 18/29] fix: num_shards no longer changes which records are
 batched or dropped

---
 waymax/dataloader/dataloader_utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/waymax/dataloader/dataloader_utils.py b/waymax/dataloader/dataloader_utils.py
index 07bcf3a..5f17958 100644
--- a/waymax/dataloader/dataloader_utils.py
+++ b/waymax/dataloader/dataloader_utils.py
@@ -147,14 +147,6 @@ def tf_examples_dataset(
     )
     if not batch_by_scenario:
       ds = ds.unbatch()
-    if batch_dims:
-      for batch_size in reversed(batch_dims):
-        ds = ds.batch(
-            batch_size,
-            drop_remainder=drop_remainder,
-            num_parallel_calls=AUTOTUNE,
-            deterministic=deterministic,
-        )
     return ds
 
   make_dataset_fn = functools.partial(
@@ -169,6 +161,15 @@ def tf_examples_dataset(
       num_parallel_calls=AUTOTUNE,
       deterministic=deterministic,
   )
+  # Batches across shards, so that a remainder is dropped at most once.
+  if batch_dims:
+    for batch_size in reversed(batch_dims):
+      dataset = dataset.batch(
+          batch_size,
+          drop_remainder=drop_remainder,
+          num_parallel_calls=AUTOTUNE,
+          deterministic=deterministic,
+      )
 
   if tf_data_service_address is not None:
     dataset = dataset.apply(
-- 
2.43.0


From 841bd2bac9fce59bef71916236bd137bcc0b276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:30 +0000
Subject: [PATCH 19/29] fix: max_num_objects does not cut the time axis of
 state/which_time

---
 waymax/dataloader/womd_dataloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/waymax/dataloader/womd_dataloader.py b/waymax/dataloader/womd_dataloader.py
index e851294..8671f88 100644
--- a/waymax/dataloader/womd_dataloader.py
+++ b/waymax/dataloader/womd_dataloader.py
@@ -72,7 +72,9 @@ def preprocess_womd_example(
   if max_num_objects is not None:
     # TODO(b/246965197) check sdc included if it is needed.
     return {
-        k: v[:max_num_objects] if k.startswith('state/') else v
+        k: v[:max_num_objects]
+        if k.startswith('state/') and k != 'state/which_time'
+        else v
         for k, v in processed.items()
     }
   else:
-- 
2.43.0


From 4fbb4669b1cb96fc378421fa82c628c06ef24a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:56 +0000
Subject: [PATCH 20/29] fix: a validity of -1 in a record does not mean valid

---
 waymax/dataloader/womd_factories.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/waymax/dataloader/womd_factories.py b/waymax/dataloader/womd_factories.py
index 24c05e6..12115d6 100644
--- a/waymax/dataloader/womd_factories.py
+++ b/waymax/dataloader/womd_factories.py
@@ -223,7 +223,8 @@ def trajectory_from_womd_dict(
   """
   prefix = f'state/{time_key}'
 
-  valid = jnp.asarray(example[f'{prefix}/valid'], jnp.bool_)
+  # Absent data (e.g. the future in an exported state) is marked with -1.
+  valid = jnp.asarray(example[f'{prefix}/valid']) > 0
   length = jnp.asarray(example[f'{prefix}/length'], jnp.float32)
   length = operations.masked_mean(length, valid=valid, axis=-1)
   width = jnp.asarray(example[f'{prefix}/width'], jnp.float32)
@@ -282,7 +283,8 @@ def traffic_lights_from_womd_dict(
 
   state = jnp.asarray(example[f'{prefix_time_key}/state'], dtype=jnp.int32)
   lane_ids = jnp.asarray(example[f'{prefix_time_key}/id'], dtype=jnp.int32)
-  valid = jnp.asarray(example[f'{prefix_time_key}/valid'], dtype=jnp.bool_)
+  # Absent data (e.g. the future in an exported state) is marked with -1.
+  valid = jnp.asarray(example[f'{prefix_time_key}/valid']) > 0
 
   origin = traffic_lights.TrafficLights(
       x=x, y=y, z=z, state=state, lane_ids=lane_ids, valid=valid
-- 
2.43.0


From 243207c54f40f1c37ad76782e89c26d8688da202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 21/29] fix: masked_value masks values with dimensions beyond
 those of valid

---
 waymax/datatypes/array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/waymax/datatypes/array.py b/waymax/datatypes/array.py
index 47490ee..b5c7867 100644
--- a/waymax/datatypes/array.py
+++ b/waymax/datatypes/array.py
@@ -73,4 +73,7 @@ class MaskedArray:
       `value` where invalid elements are replaced with `fill_value`.
     """
     fill_array = jnp.full_like(self.value, fill_value, dtype=self.value.dtype)
-    return jnp.where(self.valid, self.value, fill_array)
+    # The value may have further dimensions after those of valid.
+    extra_dims = (1,) * (self.value.ndim - self.valid.ndim)
+    valid = jnp.reshape(self.valid, self.valid.shape + extra_dims)
+    return jnp.where(valid, self.value, fill_array)
-- 
2.43.0


From 562482008d34863e0be35827a7b5abb9a4ebf0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 22/29] fix: structures with different optional parts are
 unequal, not an error

---
 waymax/datatypes/operations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/waymax/datatypes/operations.py b/waymax/datatypes/operations.py
index d9114f5..f6df4f9 100644
--- a/waymax/datatypes/operations.py
+++ b/waymax/datatypes/operations.py
@@ -206,6 +206,11 @@ def compare_all_leaf_nodes(  # pytype: disable=annotation-type-mismatch  # jnp-t
   """
   if not isinstance(second, type(first)):
     return False
+  # E.g. states of which only one has routes.
+  if jax.tree_util.tree_structure(first) != jax.tree_util.tree_structure(
+      second
+  ):
+    return False
   flags = jax.tree_util.tree_map(compare_func, first, second)
   return jax.tree_util.tree_all(flags)
 
-- 
2.43.0


From 4dcfd157ead644b1610d83f6ca3cf2ac7f9baebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:48 +0000
Subject: [PATCH 23/29] fix: get_control_mask knows NON_SDC

---
 waymax/datatypes/simulator_state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/waymax/datatypes/simulator_state.py b/waymax/datatypes/simulator_state.py
index 568b3ce..d219931 100644
--- a/waymax/datatypes/simulator_state.py
+++ b/waymax/datatypes/simulator_state.py
@@ -165,6 +165,8 @@ def get_control_mask(
     is_controlled = metadata.is_modeled
   elif obj_type == config.ObjectType.VALID:
     is_controlled = metadata.is_valid
+  elif obj_type == config.ObjectType.NON_SDC:
+    is_controlled = ~metadata.is_sdc
   else:
     raise ValueError(f'Invalid ObjectType {obj_type}')
   return is_controlled
-- 
2.43.0


From a1d06109715f1bbdfbbdfa0f0fdf53c8f1953086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 24/29] fix: center_agent_idx other than the SDC no longer
 raises when plotting

---
 waymax/visualization/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index e94e3c7..caf7179 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -299,7 +299,7 @@ def plot_simulator_state(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -374,7 +374,7 @@ def plot_observation(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[obs.metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
@@ -450,7 +450,7 @@ def plot_single_agent_brax_timestep(
   if viz_config.center_agent_idx == -1:
     xy = current_xy[state.object_metadata.is_sdc]
   else:
-    xy = current_xy[viz_config.center_agent_idx]
+    xy = current_xy[viz_config.center_agent_idx][np.newaxis]
   origin_x, origin_y = xy[0, :2]
   ax.axis((
       origin_x - viz_config.back_x,
-- 
2.43.0


From 23b874bd48294443c899ccad2f15672c3f451ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 25/29] fix: plot_single_agent_brax_timestep draws scenes
 without routes

---
 waymax/visualization/viz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/waymax/visualization/viz.py b/waymax/visualization/viz.py
index caf7179..73e630d 100644
--- a/waymax/visualization/viz.py
+++ b/waymax/visualization/viz.py
@@ -442,7 +442,8 @@ def plot_single_agent_brax_timestep(
   )
 
   # Plots paths.
-  _plot_path_points(ax, state.sdc_paths)
+  if state.sdc_paths is not None:
+    _plot_path_points(ax, state.sdc_paths)
 
   # 3. Gets np img, centered on selected agent's current location.
   # [A, 2]
-- 
2.43.0


From b83521e06894bf5bf71a555139c5cc309bb8f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 26/29] fix: absent objects do not count as initialized in an
 overlap

---
 waymax/env/planning_agent_environment.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/waymax/env/planning_agent_environment.py b/waymax/env/planning_agent_environment.py
index 653ba14..4911a2d 100644
--- a/waymax/env/planning_agent_environment.py
+++ b/waymax/env/planning_agent_environment.py
@@ -467,5 +467,10 @@ def _initialized_overlap(log_trajectory: datatypes.Trajectory) -> jax.Array:
   # Shape: (..., num_objects, num_objects).
   traj_5dof = trajectory.stack_fields(['x', 'y', 'length', 'width', 'yaw'])
   pairwise_overlaps = geometry.compute_pairwise_overlaps(traj_5dof)
+  # Objects that are not present have no box to overlap with.
+  both_valid = (
+      trajectory.valid[..., :, jnp.newaxis]
+      & trajectory.valid[..., jnp.newaxis, :]
+  )
   # Shape: (..., num_objects).
-  return jnp.any(pairwise_overlaps, axis=-1)
+  return jnp.any(pairwise_overlaps & both_valid, axis=-1)
-- 
2.43.0


From 8622cb1004c7034423d2be7b0db3c242a5dfe5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 27/29] fix: an absent object given an invalid action enters
 where the log has it

---
 waymax/dynamics/abstract_dynamics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/waymax/dynamics/abstract_dynamics.py b/waymax/dynamics/abstract_dynamics.py
index bb15927..d9fec75 100644
--- a/waymax/dynamics/abstract_dynamics.py
+++ b/waymax/dynamics/abstract_dynamics.py
@@ -202,6 +202,9 @@ def apply_trajectory_update_to_state(
   # the same for every timestep during data loading and so we don't update these
   # from the current trajectory.
   # TODO(b/266483290): Update z using the (x, y) coordinates of the vehicle.
+  # Objects that do not exist yet have no state to update, unless they are given
+  # a valid update they appear as they do in the reference trajectory.
+  takes_update = is_controlled & (current_traj.valid | trajectory_update.valid)
   replacement_dict = {}
   for field in CONTROLLABLE_FIELDS:
     if use_fallback:
@@ -213,11 +216,11 @@ def apply_trajectory_update_to_state(
       )
       # Only update for is_controlled objects from users.
       replacement_dict[field] = jnp.where(
-          is_controlled, new_value, default_next_traj[field]
+          takes_update, new_value, default_next_traj[field]
       )
     else:
       new_value = jnp.where(
-          is_controlled, trajectory_update[field], default_next_traj[field]
+          takes_update, trajectory_update[field], default_next_traj[field]
       )
       replacement_dict[field] = new_value
 
-- 
2.43.0


From 6c072e08b5e2b3ee04d56676b26817eb517f1086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 28/29] fix: off-road ignores the direction of invalid road
 edge points

---
 waymax/metrics/roadgraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/waymax/metrics/roadgraph.py b/waymax/metrics/roadgraph.py
index ea8a44c..41ba7fe 100644
--- a/waymax/metrics/roadgraph.py
+++ b/waymax/metrics/roadgraph.py
@@ -217,6 +217,7 @@ def compute_signed_distance_to_nearest_road_edge_point(
   prior_point_in_same_curve = jnp.equal(
       roadgraph_points.ids[nearest_indices], roadgraph_points.ids[prior_indices]
   )
+  prior_point_in_same_curve &= roadgraph_points.valid[prior_indices]
   # Shape: (..., num_query_points).
   offroad_sign = jnp.sign(
       jnp.where(
-- 
2.43.0


From 1555339d46f415527c388b62a8a384a0b9674f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 29/29] fix: Discretizer refuses ranges and bin counts of
 different sizes

---
 waymax/dynamics/discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waymax/dynamics/discretizer.py b/waymax/dynamics/discretizer.py
index 654b5ce..86e0a67 100644
--- a/waymax/dynamics/discretizer.py
+++ b/waymax/dynamics/discretizer.py
@@ -46,7 +46,7 @@ class Discretizer:
       bins: Number of bins for the different vector elements to discretize of
         shape (num_vector_elements,).
     """
-    if min_value.shape != max_value.shape and min_value.shape != bins.shape:
+    if min_value.shape != max_value.shape or min_value.shape != bins.shape:
       raise ValueError('Shapes do not match.')
     self._mins = min_value
     self._maxs = max_value
-- 
2.43.0

