"""C12: replaying the expert reproduces the log."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import agents
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv

from wmc import core
from wmc import ref
from wmc import scenes

LEVEL = 'model_checking'
MODELS = {
    'DeltaGlobal': dynamics.DeltaGlobal,
    'DeltaLocal': dynamics.DeltaLocal,
    'State': dynamics.StateDynamics,
    'Bicycle': dynamics.InvertibleBicycleModel,
    'BicycleNormalised': lambda: dynamics.InvertibleBicycleModel(
        normalize_actions=True),
}
ACTS = [(a, k) for a in (-4.0, 0.0, 2.5) for k in (-0.2, 0.0, 0.15)]


def drive(n, T, variant=0):
  """A log made by driving each object with bicycle moves within limits."""
  yaw0 = np.array([0.3, 3.1, -3.1, 1.5, -1.6, 0.8, -0.5, 2.3])[
      (np.arange(n) + variant) % 8]
  v0 = np.array([6.0, 9.0, 14.0])[(np.arange(n) + variant) % 3]
  cur = dict(x=30.0 * np.arange(n) + [0.0, 900.0][variant % 2],
             y=-12.0 * np.arange(n) - 400.0 * (variant % 3 == 1), yaw=yaw0,
             vel_x=v0 * np.cos(yaw0), vel_y=v0 * np.sin(yaw0))
  rows = [cur]
  for t in range(T - 1):
    act = np.array([ACTS[(3 * o + t + variant) % 9] for o in range(n)])
    cur = ref.bicycle(cur, act)
    rows.append(cur)
  out = scenes.np_traj(scenes.log_traj(n, T))
  for f in ref.POSE:
    out[f] = np.stack([r[f] for r in rows], -1).astype(np.float32)
  return out


def episode(env, actor, st, steps, merge=False):
  def body(s, _):
    out = actor.select_action(None, s, None, None)
    nxt = env.step(s, out.action)
    return nxt, (out.action, env.metrics(nxt))
  s0 = env.reset(st)
  return jax.lax.scan(body, s0, None, length=steps)


@core.sharded
def replay(ck):
  """Whole episodes under the expert, each model, mode and environment."""
  ck.rule = ('every (model, environment, mode, late entry, warm-up, scene): the '
             'whole episode equals the log')
  n, T = 3, 12
  mconf = wconfig.MetricsConfig(metrics_to_run=('log_divergence', 'overlap'))
  turn = 0
  for name, make in MODELS.items():
    for mode, inject, planning in itertools.product(
        ('SDC', 'VALID', 'MODELED'), (True, False), (False, True)):
      if planning and mode != 'SDC':
        continue
      turn += 1
      for init in ((1, 4)[turn % 2],) if not ck.thorough else (
          1, 2, 4, 11):
        if not ck.mine():
          continue
        cfg = wconfig.EnvironmentConfig(
            max_num_objects=n, init_steps=init, metrics=mconf,
            controlled_object=wconfig.ObjectType[mode],
            allow_new_objects_after_warmup=inject)
        cls = wenv.PlanningAgentEnvironment if planning else wenv.BaseEnvironment
        env = cls(make(), cfg)
        # The planning environment's own model infers the ego's action alone.
        actor = agents.create_expert_actor(env.dynamics)
        fn = jax.jit(lambda st: episode(env, actor, st, T - init))
        for v in range(3):
          lg = drive(n, T, v)
          meta = scenes.metadata(n, sdc=v % n)
          st = scenes.state(scenes.traj(**lg), meta)
          out, (acts, met) = fn(st)
          tag = f'replay/{name}/{mode}/planning={planning}/inject={inject}/init={init}'
          _same(ck, tag, scenes.np_traj(out.sim_trajectory), lg, slice(None), 2e-3)
          ck.check(int(out.timestep) == T - 1, f'{tag}/clock')
          ck.check(bool(np.all(np.asarray(acts.valid))), f'{tag}/valid-actions')
          ck.close(f'{tag}/divergence', met['log_divergence'].value,
                   np.zeros(np.shape(met['log_divergence'].value)), atol=5e-3)
          ck.check(bool(np.all(np.asarray(met['log_divergence'].valid))),
                   f'{tag}/divergence-valid')
          ck.state(repr((tag, v)).encode())
          ck.transitions += T - init
          ck.validated += 1
          ck.part('episodes', 1)
  ck.sample({'objects': n, 'steps': T, 'models': list(MODELS)})


def _same(ck, tag, got, want, cols, tol, rows=slice(None)):
  # Displacement models set the velocity to displacement over step time.
  for f in ref.POSE[:3] if '/Delta' in tag else ref.POSE:
    g, w = got[f][rows, cols], want[f][rows, cols]
    good = (ref.ang_close(g, w, tol) if f == 'yaw' else
            np.abs(g - w) <= tol * (5 if f.startswith('vel') else 1) + 1e-6 * np.abs(w))
    ck.check(bool(np.all(good)), f'{tag}/{f}', lambda: {'got': g, 'want': w})


def gaps(ck):
  """Every validity pattern: equal to the log until the first gap."""
  T, init = 5, 2
  pats = np.array(list(itertools.product((False, True), repeat=T)))
  n = len(pats)
  for name, make in MODELS.items():
    for inject in (True, False):
      lg = drive(n, T, 1)
      for b in range(n):  # every object drives at its own place
        lg['x'][b] += 5.0 * b
      lg['valid'] = pats.copy()
      full = {f: v.copy() for f, v in lg.items()}
      for f in lg:
        if f not in ('valid', 'timestamp_micros'):
          lg[f] = np.where(pats, lg[f], -1.0).astype(np.float32)
      cfg = wconfig.EnvironmentConfig(
          max_num_objects=n, init_steps=init,
          controlled_object=wconfig.ObjectType.VALID,
          metrics=wconfig.MetricsConfig(metrics_to_run=()),
          allow_new_objects_after_warmup=inject)
      env = wenv.BaseEnvironment(make(), cfg)
      actor = agents.create_expert_actor(env.dynamics,
                                         lambda s: s.object_metadata.is_valid)
      out, (acts, _) = jax.jit(lambda st: episode(env, actor, st, T - init))(
          scenes.state(scenes.traj(**lg), scenes.metadata(n, sdc=0)))
      got = scenes.np_traj(out.sim_trajectory)
      av = np.asarray(acts.valid)[..., 0]  # (steps, n)
      tag = f'gaps/{name}/inject={inject}'
      for o, p in enumerate(pats):
        last = init - 1
        while last + 1 < T and p[init - 1] and p[last + 1]:
          last += 1
        if p[init - 1]:
          _same(ck, f'{tag}/pattern={p.astype(int).tolist()}', got, full,
                slice(init - 1, last + 1), 2e-3, o)
          ck.check(bool(got['valid'][o, init - 1:last + 1].all()), f'{tag}/valid')
        # An action is valid exactly when the object is there and logged next.
        for k in range(T - init):
          t = init - 1 + k
          want = bool((name == 'State' or got['valid'][o, t]) and p[t + 1])
          ck.check(bool(av[k, o]) == want, f'{tag}/action-valid',
                   {'pattern': p, 'step': t, 'got': av[k, o]})
        ck.state(repr((name, inject, o)).encode())
        ck.transitions += T - init
      ck.part('validity patterns', n)
      ck.validated += n


def closed_loop(ck):
  """From a displaced pose the expert heads for the logged next pose."""
  T = 6
  offs = list(itertools.product((-7.0, -2.0, 0.0, 3.0, 7.5), (-6.5, 0.0, 1.0, 6.5),
                                (-2.0, 0.0, 0.5)))
  n = len(offs)
  o = np.array(offs)
  for name in ('DeltaGlobal', 'DeltaLocal', 'State'):
    dyn = MODELS[name]()
    for t in range(T - 1):
      lg = drive(n, T, t)
      sim = {f: v.copy() for f, v in lg.items()}
      sim['x'][:, t] += o[:, 0]
      sim['y'][:, t] += o[:, 1]
      sim['yaw'][:, t] = ref.wrap(sim['yaw'][:, t] + o[:, 2])
      # No other simulated or logged step may matter.
      for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y'):
        for c in range(T):
          if c != t:
            sim[f][:, c] = 77.0 + c
          if c != t + 1:
            lg[f][:, c] = -55.0 - c
      st = scenes.state(scenes.traj(**lg), scenes.metadata(n), scenes.traj(**sim), t)
      mask = np.arange(n) % 3 == t % 3
      actor = agents.create_expert_actor(dyn, lambda s, m=mask: jnp.asarray(m))
      out = actor.select_action(None, st, None, jax.random.PRNGKey(t))
      cur = {f: sim[f][:, t].astype(np.float64) for f in ref.POSE}
      nxt = {f: lg[f][:, t + 1].astype(np.float64) for f in ref.POSE}
      if name == 'State':
        want = np.stack([nxt[f] for f in ref.POSE], -1)
        ok = np.ones(n, bool)
      else:
        d = np.stack([nxt['x'] - cur['x'], nxt['y'] - cur['y']], -1)
        # The local model limits the displacement before turning it.
        ok = np.hypot(d[:, 0], d[:, 1]) <= 5.9 if name == 'DeltaLocal' else np.ones(n, bool)
        if name == 'DeltaLocal':
          c, s = np.cos(cur['yaw']), np.sin(cur['yaw'])
          d = np.stack([c * d[:, 0] + s * d[:, 1], -s * d[:, 0] + c * d[:, 1]], -1)
        want = np.concatenate([d, ref.wrap(nxt['yaw'] - cur['yaw'])[:, None]], -1)
        sp = dyn.action_spec()
        want = np.clip(want, np.asarray(sp.minimum), np.asarray(sp.maximum))
      tag = f'closed-loop/{name}/t={t}'
      ck.close(tag, out.action.data, want, atol=2e-3,
               mask=ok[:, None], detail={'offsets': n})
      ck.check(bool(np.all(np.asarray(out.action.valid))), f'{tag}/valid')
      ck.close(f'{tag}/claims', out.is_controlled, mask)
      ck.part('displaced poses', n)
      ck.transitions += n
      ck.validated += n
      ck.state(repr((name, t)).encode())


@core.sharded
def helper(ck):
  """The provided expert rollout replays the log for the ego."""
  n, T, init = 3, 9, 3
  for name in MODELS:
    for planning in (False, True):
      for v in ((0, 1) if ck.thorough else (int(planning),)):
        cfg = wconfig.EnvironmentConfig(
            max_num_objects=n, init_steps=init,
            metrics=wconfig.MetricsConfig(metrics_to_run=('log_divergence',)))
        cls = wenv.PlanningAgentEnvironment if planning else wenv.BaseEnvironment
        env = cls(MODELS[name](), cfg)
        lg = drive(n, T, v)
        st = scenes.state(scenes.traj(**lg), scenes.metadata(n, sdc=v))
        for k in (1, 4, T - init):
          if not ck.mine():
            continue
          out = jax.jit(lambda s: wenv.rollout_log_by_expert_sdc(
              s, env, env.dynamics, k))(st)
          got = scenes.np_traj(out.state.sim_trajectory)
          tag = f'helper/{name}/planning={planning}/steps={k}'
          ck.check(got['x'].shape == (k + 1, n, T), f'{tag}/shape', got['x'].shape)
          last = {f: a[-1] for f, a in got.items()}
          _same(ck, tag, last, lg, slice(0, init + k), 2e-3)
          ck.check(not last['valid'][:, init + k:].any(), f'{tag}/no-further')
          ck.part('expert rollouts', 1)
          ck.transitions += k
          ck.validated += 1


PARTS = [replay, gaps, closed_loop, helper]
