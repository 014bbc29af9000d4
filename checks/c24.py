"""C24: a rollout is the same as stepping by hand."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import agents
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv

from wmc import core
from wmc import scenes

LEVEL = 'model_checking'
N, T = 3, 5
METRICS = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility')
REWARDS = {'log_divergence': -1.0, 'overlap': -4.0}


def probe_actor(n, key_start):
  """Its action spells out what it was given: clock, own memory, own key.

  Components: (parameter + 0.25 * clock, 0.125 * calls so far + start, key).
  """
  def start(rng):
    return 0.5 * jax.random.uniform(rng) if rng is not None else 0.0

  def init(rng, state):
    return {'calls': jnp.asarray(0, jnp.int32), 'start': start(rng),
            'clock': jnp.asarray(state.timestep, jnp.int32)}

  def select(params, state, mem, rng):
    shape = state.shape + ((n,) if n else ())
    a = params['w'] + 0.25 * state.timestep.astype(jnp.float32)
    b = 0.125 * mem['calls'].astype(jnp.float32) + mem['start']
    c = jax.random.uniform(rng)
    data = jnp.broadcast_to(jnp.stack([a, b, c]), shape + (3,))
    if n:
      data = data + 0.03125 * jnp.arange(n)[:, None]
    valid = jnp.broadcast_to((state.timestep % 2 == 0)[..., None] |
                             (jnp.arange(n or 1) % 2 == 0), shape or (1,))
    if n:
      valid = valid[..., None]
    else:
      valid = jnp.broadcast_to(valid[..., :1], shape + (1,))
    return agents.WaymaxActorOutput(
        actor_state={**mem, 'calls': mem['calls'] + 1},
        action=datatypes.Action(data=data, valid=valid),
        is_controlled=state.object_metadata.is_sdc)
  del key_start
  return agents.actor_core_factory(init, select, 'probe')


def make_env(kind, init_steps, reward=True):
  """Kinds: M/mode (multi-agent) or P/number of background agents."""
  cls, sub = kind.split('/')
  cfg = dict(max_num_objects=N, init_steps=init_steps, compute_reward=reward,
             metrics=wconfig.MetricsConfig(metrics_to_run=METRICS),
             rewards=wconfig.LinearCombinationRewardConfig(REWARDS))
  if cls == 'M':
    return wenv.MultiAgentEnvironment(dynamics.DeltaGlobal(), wconfig.EnvironmentConfig(
        controlled_object=wconfig.ObjectType[sub], **cfg))
  actors = [agents.IDMRoutePolicy(lambda s: s.object_metadata.is_modeled)]
  actors = actors[:int(sub)]
  return wenv.PlanningAgentEnvironment(
      dynamics.DeltaGlobal(), wconfig.EnvironmentConfig(**cfg), actors,
      [None] * len(actors))


def scene(variant, sdc=0, batch=()):
  o, t = np.arange(N)[:, None], np.arange(T)[None]
  valid = [(o + t) >= 0, (o != 1) | (t < 3), (o != 2) | (t > 1)][variant % 3]
  log = scenes.log_traj(N, T, valid, variant, batch)
  return scenes.state(log, scenes.metadata(N, sdc=sdc, batch=batch), timestep=-1)


def same(ck, tag, got, want, atol=1e-4):
  a, ta = jax.tree_util.tree_flatten(got)
  b, tb = jax.tree_util.tree_flatten(want)
  if not ck.check(ta == tb, f'{tag}/structure', f'{ta} {tb}'):
    return
  for x, y in zip(a, b):
    ck.close(tag, x, y, atol=atol, rtol=1e-5)


def judge(ck, tag, env, scenario, out, k, w, n_act, step, init_steps):
  """The rollout against env.reset/step/observe/metrics/reward, step by step."""
  batch = scenario.shape
  for leaf in jax.tree_util.tree_leaves(out):
    ck.check(leaf.shape[0] == k + 1, f'{tag}/length', leaf.shape)
  ck.check(tuple(out.shape) == (k + 1,) + batch, f'{tag}/shape', out.shape)
  at = lambda x, i: jax.tree_util.tree_map(lambda v: v[i], x)
  state = env.reset(scenario)
  keys = []
  for i in range(k + 1):
    act = at(out.action, i)
    same(ck, f'{tag}/state', at(out.state, i), state)
    same(ck, f'{tag}/observation', at(out.observation, i), state)
    if i == k:
      for leaf in jax.tree_util.tree_leaves(act):
        ck.check(not np.any(np.asarray(leaf)), f'{tag}/last-action')
      nxt, met, rew = step(state, act)
    else:
      # The actor was given the current state, its own memory and its own key.
      d = np.asarray(act.data)
      if n_act:
        d = d - 0.03125 * np.arange(n_act)[:, None]
      d = d.reshape(-1, 3)
      clock = init_steps - 1 + i
      ck.close(f'{tag}/actor-clock', d[:, 0], np.full(len(d), w + 0.25 * clock))
      keys.append(d[0, 2])
      start = d[:, 1] - 0.125 * i
      ck.check(bool(np.all((start > 1e-6) & (start < 0.5))) and
               (i == 0 or np.allclose(start, first, atol=1e-5)),
               f'{tag}/actor-memory', d[:, 1])
      first = start
      valid = np.asarray(act.valid)[..., 0].reshape((-1, n_act or 1))
      ck.close(f'{tag}/actor-valid', valid, np.broadcast_to(
          (clock % 2 == 0) | (np.arange(n_act or 1) % 2 == 0), valid.shape))
      nxt, met, rew = step(state, act)
    same(ck, f'{tag}/metrics', at(out.metrics, i), met)
    ck.close(f'{tag}/reward', out.reward[i], rew)
    state = nxt
    ck.transitions += 1
    ck.validated += 1
    ck.state(repr((tag, i)).encode())
  ck.check(len(set(keys + [float(first[0] * 2)])) == len(keys) + 1,
           f'{tag}/keys-distinct', keys)
  return keys


@core.sharded
def by_hand(ck):
  """Every environment, warm-up, number of steps, scene, ego, seed, batch."""
  ck.rule = ('every (environment, warm-up length, rollout length up to the end, '
             'scene, ego index, batch); each entry compared with manual stepping')
  kinds = ['M/SDC', 'M/VALID', 'M/MODELED', 'P/0', 'P/1']
  for kind in kinds:
    for init_steps in range(1, T):
      if not ck.thorough and init_steps > 1 and kind not in ('M/VALID', 'P/1'):
        continue
      env = make_env(kind, init_steps, reward=True)
      n_act = N if kind[0] == 'M' else 0
      actor = probe_actor(n_act, None)
      step = jax.jit(lambda s, a, env=env: (env.step(s, a), env.metrics(s),
                                            env.reward(s, a)))
      for k in range(1, T - init_steps + 1):
        if not ck.thorough and init_steps > 1 and k < T - init_steps:
          continue
        if not ck.mine():
          continue
        run = jax.jit(lambda s, r, p, env=env, k=k, actor=actor: wenv.rollout(
            s, actor, env, r, k, p))
        for batch in ((), (2,)) if k in (1, T - 1) else ((),):
          for variant, sdc in itertools.product(
              range(3), range(N) if not batch else (1,)):
            if batch:
              sdc = np.arange(2) + (variant % 2)
            s = scene(variant, sdc, batch)
            tag = f'rollout/{kind}/init={init_steps}/steps={k}/batch={batch}'
            w = 0.5 * (variant + 1)
            seeds = (0, 7) if not batch else (3,)
            keys = []
            for seed in seeds:
              out = run(s, jax.random.PRNGKey(seed), {'w': jnp.asarray(w)})
              keys.append(judge(ck, tag, env, s, out, k, w, n_act, step,
                                init_steps))
              ck.part('rollouts', 1)
            if len(keys) == 2:
              ck.check(not set(keys[0]) & set(keys[1]), f'{tag}/seed-matters')
            again = run(s, jax.random.PRNGKey(seeds[-1]), {'w': jnp.asarray(w)})
            same(ck, f'{tag}/reproducible', again, out, atol=0)
  ck.sample({'objects': N, 'steps': T, 'environments': kinds})


def no_reward(ck):
  """Rewards off, no metrics, an actor without memory or parameters."""
  cfg = wconfig.EnvironmentConfig(
      max_num_objects=N, init_steps=1, compute_reward=False,
      metrics=wconfig.MetricsConfig(metrics_to_run=()))
  for cls in (wenv.MultiAgentEnvironment, wenv.PlanningAgentEnvironment):
    env = cls(dynamics.StateDynamics(), cfg)
    lead = (N,) if cls is wenv.MultiAgentEnvironment else ()

    def select(params, state, mem, rng):
      del params, mem, rng
      data = jnp.full(lead + (5,), 2.0) + state.timestep
      return agents.WaymaxActorOutput(
          actor_state=None, action=datatypes.Action(
              data=data, valid=jnp.ones(lead + (1,), bool)),
          is_controlled=state.object_metadata.is_sdc)
    actor = agents.actor_core_factory(lambda rng, s: None, select)
    for k in range(1, T):
      s = scene(0)
      out = wenv.rollout(s, actor, env, jax.random.PRNGKey(0), k)
      ck.check(out.metrics == {}, 'no-reward/metrics')
      ck.close('no-reward/reward', out.reward, np.zeros((k + 1,) + lead))
      cur = env.reset(s)
      for i in range(k):
        cur = env.step(cur, select(None, cur, None, None).action)
      same(ck, 'no-reward/final', jax.tree_util.tree_map(
          lambda v: v[-1], out.state), cur)
      ck.part('plain rollouts', 1)
      ck.transitions += k


PARTS = [by_hand, no_reward]
