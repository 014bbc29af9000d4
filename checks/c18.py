"""C18: kinematic infeasibility flags exactly the infeasible transitions."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv
from waymax import metrics

from wmc import ref
from wmc import refmetrics
from wmc import scenes

LEVEL = 'model_checking'
CFG = wconfig.MetricsConfig(metrics_to_run=('kinematic_infeasibility',))
FN = jax.jit(lambda s: metrics.run_metrics(s, CFG)['kinematic_infeasibility'])


def grid(ck):
  """Every speed pair x heading x turn x validity, at several clock values."""
  ck.rule = ('every (speeds, recorded heading, turn, validity, clock) on a grid '
             'straddling every limit')
  v0s = (0.0, 0.5, 0.7, 3.0, 9.0, 25.0)
  dvs = (-2.5, -1.06, -1.02, -0.3, 0.0, 0.5, 1.02, 1.06, 3.0)
  yaws = (0.0, 1.2, -2.0, np.pi - 0.02, -np.pi + 0.02)
  curv = (-2.0, -0.33, -0.28, 0.0, 0.28, 0.33, 1.0)
  noise = (0.0, 0.4)
  rows = np.array(list(itertools.product(v0s, dvs, yaws, curv, noise)))
  v0, v1 = rows[:, 0], np.maximum(rows[:, 0] + rows[:, 1], 0.0)
  path = 0.05 * (v0 + v1)
  turn = rows[:, 3] * path
  keep = np.abs(turn) < 3.0
  rows, v0, v1, turn = rows[keep], v0[keep], v1[keep], turn[keep]
  n, T = len(rows), 4
  yaw0 = rows[:, 2]
  head1 = ref.wrap(yaw0 + turn)
  for vp in itertools.product((True, False), repeat=2):
    for t in (1, 2, 3):
      if not all(vp) and t != 2:
        continue
      f = {k: np.zeros((n, T)) for k in ref.POSE}
      # steps away from the transition hold wild speeds
      f['vel_x'][:], f['vel_y'][:] = 40.0 * np.arange(T), -13.0
      f['yaw'][:] = np.arange(T)
      h0 = yaw0 + rows[:, 4]  # velocity direction at the start is not used
      f['vel_x'][:, t - 1], f['vel_y'][:, t - 1] = v0 * np.cos(h0), v0 * np.sin(h0)
      f['vel_x'][:, t], f['vel_y'][:, t] = v1 * np.cos(head1), v1 * np.sin(head1)
      f['yaw'][:, t - 1] = yaw0
      f['yaw'][:, t] = ref.wrap(head1 + rows[:, 4])  # recorded heading is noisy
      valid = np.zeros((n, T), bool)
      valid[:, t - 1], valid[:, t] = vp
      sim = scenes.traj(valid=valid, **f)
      log = scenes.log_traj(n, T)
      out = FN(scenes.state(log, scenes.metadata(n), sim, t, rg=0))
      want, vd, sure = refmetrics.kinematic_infeasibility(scenes.np_traj(sim), t)
      tag = f'grid/valid={vp}/t={t}'
      ck.close(tag, out.value, want, atol=0, mask=sure)
      ck.close(f'{tag}/valid', out.valid, vd)
      ck.part('transitions graded', n)
      ck.transitions += n
      ck.validated += int(sure.sum())
      ck.outcome('infeasible', int(want.sum()))
      ck.outcome('feasible', int((1 - want).sum()))
      for i in range(n):
        ck.state(repr((vp, t, i)).encode())
  ck.sample({'speeds': v0s, 'speed changes': dvs, 'curvatures': curv})


def bicycle_is_feasible(ck):
  """No transition made by the bicycle model in its default limits is flagged."""
  acts = list(itertools.product((-6.0, -2.5, 0.0, 1.0, 6.0), (-0.3, -0.1, 0.0, 0.3)))
  n = len(acts)
  cfg = wconfig.EnvironmentConfig(
      max_num_objects=n, init_steps=2, metrics=CFG,
      controlled_object=wconfig.ObjectType.VALID)
  env = wenv.BaseEnvironment(dynamics.InvertibleBicycleModel(), cfg)
  for speed, yaw in itertools.product((0.2, 2.0, 8.0, 20.0), (0.0, 2.9, -1.4)):
    T = 8
    log = scenes.np_traj(scenes.log_traj(n, T))
    log['yaw'][:] = yaw
    log['vel_x'][:], log['vel_y'][:] = speed * np.cos(yaw), speed * np.sin(yaw)
    s = env.reset(scenes.state(scenes.traj(**log), scenes.metadata(n), rg=0))
    step = jax.jit(env.step)
    for k in range(T - 2):
      order = [acts[(i * (k + 1) + k) % n] for i in range(n)]
      v = np.hypot(*(np.asarray(getattr(s.current_sim_trajectory, q))[:, 0]
                     for q in ('vel_x', 'vel_y')))
      a = np.array(order, np.float32)
      a[:, 0] = np.maximum(a[:, 0], -v / 0.1)  # never past standstill
      s = step(s, datatypes.Action(data=jnp.asarray(a),
                                   valid=jnp.ones((n, 1), bool)))
      out = env.metrics(s)['kinematic_infeasibility']
      ck.check((np.asarray(out.value) == 0).all() and np.asarray(out.valid).all(),
               f'bicycle-flagged/speed={speed}/yaw={yaw}/k={k}',
               lambda: {'actions': a, 'value': np.asarray(out.value)})
      ck.transitions += n
      ck.validated += n
      ck.part('bicycle transitions', n)


def episodes(ck):
  """Every step of an episode, batched and not."""
  n, T = 6, 20
  v = ((np.arange(n)[:, None] + np.arange(T)) % 4) != 1
  for batch in ((), (2,)):
    sim = scenes.np_traj(scenes.log_traj(n, T, v, batch=batch))
    sim['vel_x'] = sim['vel_x'] * (1 + 0.2 * (np.arange(T) % 3)).astype(np.float32)
    sim = scenes.traj(**sim)
    log = scenes.log_traj(n, T, variant=1, batch=batch)
    s = scenes.np_traj(sim)
    for t in range(1, T):
      out = FN(scenes.state(log, scenes.metadata(n, batch=batch), sim, t, rg=0))
      for ix in np.ndindex(*batch):
        want, vd, sure = refmetrics.kinematic_infeasibility(
            {k: a[ix] for k, a in s.items()}, t)
        ck.close(f'episode/{batch}', out.value[ix], want, mask=sure)
        ck.close(f'episode/{batch}/valid', out.valid[ix], vd)
        ck.transitions += n
        ck.part('episode steps', 1)
        ck.validated += 1


PARTS = [grid, bicycle_is_feasible, episodes]
