"""C11: what the single-agent environment reports is about the ego."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import agents
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv
from waymax import metrics

from checks import c12
from checks import c19
from wmc import core
from wmc import scenes

LEVEL = 'model_checking'
PER_OBJECT = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility')


def crowd(n, T, v, batch=()):
  """Objects close together, so that per-object metric values differ."""
  lg = c12.drive(n, T, v)
  lg['x'] = (lg['x'] - 30.0 * np.arange(n)[:, None] * 0.92).astype(np.float32)
  lg['y'] = (0.2 * lg['y'] + np.zeros((n, T))).astype(np.float32)
  lg['valid'] = ((3 * np.arange(n)[:, None] + np.arange(T)[None] + v) % 7) != 5
  if batch:
    b = np.arange(int(np.prod(batch))).reshape(batch + (1, 1))
    lg = {f: np.broadcast_to(a, batch + (n, T)).copy() for f, a in lg.items()}
    lg['x'] = (lg['x'] + 0.7 * b * np.arange(n)[:, None]).astype(np.float32)
    lg['yaw'] = (lg['yaw'] + 0.1 * b).astype(np.float32)
  return lg


def ego_of(x, sdc):
  x = np.asarray(x)
  idx = np.broadcast_to(np.asarray(sdc), x.shape[:-1])[..., None]
  return np.take_along_axis(x, idx, -1)[..., 0]


@core.sharded
def reports(ck):
  """Every clock value, ego index, warm-up length and metric set."""
  ck.rule = ('every (warm-up, ego index, metric subset, batch, step of an '
             'episode): report compared with the multi-agent values of the ego')
  n, T = 4, 6
  subs = [c19.BUILTIN, PER_OBJECT, ('kinematic_infeasibility',), ('offroad',),
          ('overlap', 'sdc_progression'), ('log_divergence', 'sdc_wrongway'), ()]
  if ck.thorough:
    subs = [c for r in range(8) for c in itertools.combinations(c19.BUILTIN, r)]
  full = wconfig.MetricsConfig(metrics_to_run=c19.BUILTIN)
  allm = jax.jit(lambda s: metrics.run_metrics(s, full))
  for init in (1, 2, 3):
    for si, s in enumerate(subs):
      if not ck.mine():
        continue
      cfg = wconfig.EnvironmentConfig(
          max_num_objects=n, init_steps=init,
          metrics=wconfig.MetricsConfig(metrics_to_run=s),
          rewards=wconfig.LinearCombinationRewardConfig(
              rewards={'overlap': -2.0, 'log_divergence': 0.5, 'offroad': -1.0}))
      env = wenv.PlanningAgentEnvironment(dynamics.DeltaGlobal(), cfg)
      met, step = jax.jit(env.metrics), jax.jit(env.step)
      reward = jax.jit(env.reward)
      for batch in ((), (2,), (2, 2)):
        if batch and (si + init) % 3 and not ck.thorough:
          continue
        for v in range(n) if not batch else (si % n,):
          if not batch and len(s) < 4 and (v + si) % 2:
            continue
          nb = int(np.prod(batch))
          sdc = (np.arange(nb).reshape(batch) + v) % n if batch else v
          lg = crowd(n, T, v, batch)
          meta = scenes.metadata(n, sdc=sdc, batch=batch)
          st = scenes.state(scenes.traj(**lg), meta,
                            sdc_paths=scenes.paths(2, 8, batch=batch))
          cur = env.reset(st)
          for t in range(init - 1, T):
            tag = f'report/init={init}/batch={batch}/t={t}'
            got = met(cur)
            base = allm(cur)
            ck.check(set(got) == set(s), f'{tag}/names', sorted(got))
            for m in s:
              val, ok = np.asarray(base[m].value), np.asarray(base[m].valid)
              if m in PER_OBJECT:
                val, ok = ego_of(val, sdc), ego_of(ok, sdc)
              if m == 'kinematic_infeasibility' and t <= init - 1:
                val, ok = np.zeros_like(val), np.zeros_like(ok)
              ck.close(f'{tag}/{m}', got[m].value, val, atol=1e-4,
                       detail={'sdc': sdc, 'subset': s})
              ck.close(f'{tag}/{m}/valid', got[m].valid, ok, detail={'sdc': sdc})
              ck.check(got[m].value.shape == batch, f'{tag}/{m}/shape')
              ck.outcome(m, int(np.any(val != 0)))
              ck.outcome(m + ' invalid', int(np.any(~ok)))
            ck.part('reports', 1)
            ck.state(repr((init, s, batch, v, t)).encode())
            if t == T - 1:
              break
            act = np.array([[1.0, 0.25, 0.1], [-5.9, 5.0, 2.5], [0.6, 0.0, 0.0]][
                (t + v) % 3], np.float32)
            act = datatypes.Action(
                data=jnp.broadcast_to(jnp.asarray(act), batch + (3,)),
                valid=jnp.ones(batch + (1,), bool))
            if si == 0:
              rw = reward(cur, act)
              want = sum(w * np.where(np.asarray(base[m].valid), base[m].value, 0.0)
                         for m, w in cfg.rewards.rewards.items())
              ck.close(f'{tag}/reward', rw, ego_of(want, sdc), atol=1e-3)
            nxt = step(cur, act)
            obs = env.observe(cur)
            ck.check(obs is cur or all(
                np.array_equal(a, b) for a, b in zip(
                    jax.tree_util.tree_leaves(obs), jax.tree_util.tree_leaves(cur))),
                     f'{tag}/observe')
            cur = nxt
            ck.transitions += 1
          ck.validated += 1
          ck.check(bool(np.all(np.asarray(cur.is_done))), f'{tag}/done')
  ck.sample({'objects': n, 'steps': T, 'subsets': len(subs)})


@core.sharded
def specs(ck):
  """Specifications describe what the environments take and give."""
  for n in (1, 3, 5):
    for make in (dynamics.DeltaGlobal, dynamics.DeltaLocal, dynamics.StateDynamics,
                 dynamics.InvertibleBicycleModel,
                 lambda: dynamics.DiscreteActionSpaceWrapper(
                     dynamics.InvertibleBicycleModel(), np.array([2, 4]))):
      for planning in (True, False):
        if not ck.mine(n):
          continue
        cfg = wconfig.EnvironmentConfig(max_num_objects=n, init_steps=1)
        cls = wenv.PlanningAgentEnvironment if planning else wenv.BaseEnvironment
        dyn = make()
        env = cls(dyn, cfg)
        sp = env.action_spec()
        base = dyn.action_spec()
        lead = () if planning else (n,)
        tag = f'spec/{type(dyn).__name__}/planning={planning}'
        ck.check(tuple(sp.data.shape) == lead + tuple(base.shape), f'{tag}/data')
        ck.check(tuple(sp.valid.shape) == lead + (1,) and
                 np.dtype(sp.valid.dtype) == bool, f'{tag}/valid')
        lo, hi = np.asarray(sp.data.minimum), np.asarray(sp.data.maximum)
        ck.check(np.array_equal(np.broadcast_to(lo, sp.data.shape),
                                np.broadcast_to(base.minimum, sp.data.shape)) and
                 np.array_equal(np.broadcast_to(hi, sp.data.shape),
                                np.broadcast_to(base.maximum, sp.data.shape)),
                 f'{tag}/limits')
        ck.check(np.dtype(sp.data.dtype) == np.dtype(base.dtype), f'{tag}/type')
        ds = env.discount_spec()
        ck.check(ds.shape == () and float(ds.minimum) == 0 and float(ds.maximum) == 1,
                 f'{tag}/discount')
        rs = env.reward_spec()
        ck.check(tuple(rs.shape) == lead and np.dtype(rs.dtype) == np.float32,
                 f'{tag}/reward')
        # Every end of the action range, and a middle value, can be applied.
        st = env.reset(scenes.state(scenes.log_traj(n, 3), scenes.metadata(n)))
        for frac in (0.0, 0.5, 1.0):
          flo = np.nan_to_num(np.broadcast_to(lo, sp.data.shape).astype(float),
                              neginf=-9.0, posinf=9.0)
          fhi = np.nan_to_num(np.broadcast_to(hi, sp.data.shape).astype(float),
                              neginf=-9.0, posinf=9.0)
          a = (np.maximum(flo, -9.0) * (1 - frac) + np.minimum(fhi, 99.0) * frac
               ).astype(sp.data.dtype)
          act = datatypes.Action(data=jnp.asarray(a),
                                 valid=jnp.ones(sp.valid.shape, bool))
          nxt = env.step(st, act)
          ck.check(bool(np.all(np.isfinite(np.asarray(nxt.sim_trajectory.x)))),
                   f'{tag}/applied')
          ck.check(env.reward(nxt, act).shape == lead, f'{tag}/reward-shape')
          ck.transitions += 1
        ck.part('specifications', 1)
        ck.state(repr((tag, n)).encode())
        ck.validated += 1


def refusals(ck):
  """Inconsistent set-ups are refused."""
  def refused(tag, f, errors):
    try:
      f()
      ck.fail(f'refusal/{tag}')
    except errors:
      ck.part('refusals', 1)

  for kind in wconfig.ObjectType:
    cfg = wconfig.EnvironmentConfig(max_num_objects=3, controlled_object=kind)
    if kind == wconfig.ObjectType.SDC:
      wenv.PlanningAgentEnvironment(dynamics.DeltaGlobal(), cfg)
    else:
      refused(f'control/{kind}', lambda: wenv.PlanningAgentEnvironment(
          dynamics.DeltaGlobal(), cfg), ValueError)
  cfg = wconfig.EnvironmentConfig(max_num_objects=3, init_steps=1)
  frozen = agents.FrozenSimPolicy()
  for na in range(4):
    for npar in range(4):
      make = lambda: wenv.PlanningAgentEnvironment(
          dynamics.DeltaGlobal(), cfg, [frozen] * na, [None] * npar)
      if na == npar:
        make()
        ck.part('accepted', 1)
      else:
        refused(f'agents={na},params={npar}', make, ValueError)
  for n in range(1, 6):
    for cls in (wenv.PlanningAgentEnvironment, wenv.BaseEnvironment):
      env = cls(dynamics.DeltaGlobal(), cfg)
      st = scenes.state(scenes.log_traj(n, 3), scenes.metadata(n))
      if n == 3:
        env.reset(st)
        ck.part('accepted', 1)
      else:
        refused(f'objects={n}', lambda: env.reset(st), AssertionError)
  # A state that lacks the background agents' states cannot be stepped.
  env = wenv.PlanningAgentEnvironment(dynamics.DeltaGlobal(), cfg, [frozen], [None])
  st = env.reset(scenes.state(scenes.log_traj(3, 3), scenes.metadata(3)))
  for states in ((), [None, None]):
    refused(f'actor-states={len(states)}', lambda: env.step(
        st.replace(sim_agent_actor_states=states),
        datatypes.Action(data=jnp.zeros(3), valid=jnp.ones(1, bool))), ValueError)


PARTS = [reports, specs, refusals]
