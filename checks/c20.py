"""C20: rewards are the configured weighted sum of metrics, per object."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv
from waymax import metrics
from waymax import rewards

from checks import c19
from wmc import core
from wmc import scenes

LEVEL = 'model_checking'
ALL = c19.BUILTIN
WEIGHTS = (-1.0, 0.5, 2.0, -0.25, 3.0, 1.0, -4.0)


def scene(k, batch=()):
  """A scene in which metrics differ between objects (and are invalid for some)."""
  n, T = 4, 5
  v = np.ones((n, T), bool)
  v[:, 2] = [(k >> i) & 1 for i in range(n)]
  v[:, 1] = [True, True, k % 3 != 0, True]
  log = scenes.log_traj(n, T, batch=batch)
  sim = scenes.np_traj(scenes.log_traj(n, T, v, batch=batch, variant=2))
  nb = np.arange(int(np.prod(batch))).reshape(batch + (1, 1)) if batch else 0.0
  sim['x'] = (1.7 * np.arange(n)[:, None] * (1 + k % 2) + 0.5 * np.arange(T) +
              2.0 * nb + np.zeros(batch + (n, T))).astype(np.float32)
  sim['y'] = (2.0 * np.sin(np.arange(n) + k)[:, None] + 6.0 * nb +
              np.zeros(batch + (n, T))).astype(np.float32)
  return scenes.state(
      log, scenes.metadata(n, sdc=k % n, batch=batch,
                           is_valid=[k % 5 != 1, True, True, k % 2 == 0]),
      scenes.traj(**sim), 2, sdc_paths=scenes.paths(3, 6, batch=batch))


_CACHE = {}


def single(st, k, batch, m):
  key = (k, batch, m)
  if key not in _CACHE:
    r = metrics.run_metrics(st, wconfig.MetricsConfig(metrics_to_run=(m,)))[m]
    val = np.where(np.asarray(r.valid), np.asarray(r.value, np.float64), 0.0)
    _CACHE[key] = val[..., None] if m in c19.SDC_ONLY else val
  return _CACHE[key]


@core.sharded
def combinations(ck):
  """Every subset of metrics x every agent mask x scenes and batches."""
  ck.rule = ('every (weighted metric subset, agent mask, scene) against the sum '
             'of separately computed metrics')
  subs = [c for r in range(len(ALL) + 1)
          if ck.thorough or r <= 2 or r >= 6
          for c in itertools.combinations(ALL, r)]
  masks = np.array(list(itertools.product((0, 1), repeat=4)), bool)
  for si, s in enumerate(subs):
    if not ck.mine():
      continue
    w = {m: WEIGHTS[(ALL.index(m) + si) % len(WEIGHTS)] for m in s}
    fn = rewards.LinearCombinationReward(
        wconfig.LinearCombinationRewardConfig(rewards=w))
    for k, batch in (((si * 5) % 16, ()), ((si * 3 + 1) % 16, ())) + (
        ((si % 16, (2,)), (si % 16, (4,))) if si % 9 == 0 or len(s) in (1, 7)
        else ()):
      st = scene(k, batch)
      if batch:
        got = fn.compute(st, None, jnp.broadcast_to(masks[si % 16], batch + (4,)))
        wants = [sum([w[m] * single(st, k, batch, m) * masks[si % 16] for m in s],
                     np.zeros(batch + (4,)))]
        got = [got]
      else:
        got = jax.vmap(lambda mk: fn.compute(st, None, mk))(masks)
        wants = [sum([w[m] * single(st, k, batch, m) * mk for m in s],
                     np.zeros((4,))) for mk in masks]
      for g, want, mk in zip(got, wants, masks):
        ck.close(f'sum/batch={batch}', g, want, atol=2e-3, rtol=1e-4,
                 detail={'weights': w, 'mask': mk, 'scene': k})
        ck.check(g.dtype == jnp.float32, f'type/{s}', str(g.dtype))
        ck.transitions += 1
        ck.outcome('nonzero', int(np.any(want != 0)))
        ck.state(repr((si, k, batch, mk.tolist())).encode())
      ck.validated += len(wants)
      ck.part('reward evaluations', len(wants))
  ck.sample({'subsets': len(subs), 'masks': 16})


@core.sharded
def environments(ck):
  """The environments apply it to the objects they control."""
  sets = [{}, {'overlap': -1.0, 'offroad': -1.0}, {'log_divergence': 0.5},
          {'sdc_progression': 2.0, 'overlap': -3.0},
          {'kinematic_infeasibility': 1.5, 'sdc_off_route': -0.5}]
  for w in sets:
    rc = wconfig.LinearCombinationRewardConfig(rewards=w)
    for mode, planning, on in itertools.product(
        ('SDC', 'MODELED', 'VALID'), (False, True), (True, False)):
      if planning and mode != 'SDC' or not ck.mine():
        continue
      cfg = wconfig.EnvironmentConfig(
          max_num_objects=4, init_steps=1, rewards=rc, compute_reward=on,
          controlled_object=wconfig.ObjectType[mode])
      cls = wenv.PlanningAgentEnvironment if planning else wenv.BaseEnvironment
      env = cls(dynamics.DeltaGlobal(), cfg)
      rw = jax.jit(env.reward) if len(w) else env.reward
      for k, batch in ((5, ()), (14, ()), (11, (3,))):
        st = scene(k, batch)
        md = st.object_metadata
        mask = {'SDC': md.is_sdc, 'MODELED': md.is_modeled, 'VALID': md.is_valid}[mode]
        want = np.zeros(mask.shape)
        if on:
          for m, wt in w.items():
            want = want + wt * single(st, k, batch, m) * np.asarray(mask, float)
        if planning:
          want = want[..., k % 4]
        for data in (0.0, 3.0):
          shape = batch + (() if planning else (4,))
          act = datatypes.Action(data=jnp.full(shape + (3,), data),
                                 valid=jnp.ones(shape + (1,), bool))
          got = rw(st, act)
          tag = f"env/{'planning' if planning else 'multi'}/{mode}/on={on}"
          ck.close(tag, got, want, atol=2e-3, rtol=1e-4, detail={'weights': w})
          ck.check(np.shape(got) == batch + tuple(env.reward_spec().shape),
                   f'{tag}/spec-shape', np.shape(got))
          ck.check(np.dtype(env.reward_spec().dtype) == np.asarray(got).dtype,
                   f'{tag}/spec-type')
          ck.part('environment rewards', 1)
          ck.transitions += 1
          ck.validated += 1


def refused(ck):
  """Unknown metric names are refused when the reward is built."""
  for bad in ({'nope': 1.0}, {'overlap': 1.0, 'sdc_progress': 2.0}):
    rc = wconfig.LinearCombinationRewardConfig(rewards=bad)
    for make in (lambda: rewards.LinearCombinationReward(rc),
                 lambda: wenv.BaseEnvironment(
                     dynamics.DeltaGlobal(), wconfig.EnvironmentConfig(rewards=rc)),
                 lambda: wenv.PlanningAgentEnvironment(
                     dynamics.DeltaGlobal(), wconfig.EnvironmentConfig(rewards=rc))):
      try:
        make()
        ck.fail('unknown-metric-accepted', bad)
      except ValueError:
        ck.part('unknown names refused', 1)


PARTS = [combinations, environments, refused]
