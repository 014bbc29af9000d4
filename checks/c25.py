"""C25: the dm_env interface, explored as a protocol."""
import copy
import itertools

import dm_env
import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import dataloader
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv
from waymax.env import errors
from waymax.env.wrappers import dm_env_wrapper

from checks import c24
from wmc import core
from wmc import scenes

LEVEL = 'model_checking'
N, INIT = 3, 2
NOT_STARTED, OVER = errors.SimulationNotInitializedError, errors.EpisodeAlreadyFinishedError


class Feed:
  """A data source whose next scene the exploration chooses."""

  def __init__(self, first):
    self.queue = [first]

  def __iter__(self):
    return self

  def __next__(self):
    if not self.queue:
      raise StopIteration
    return self.queue.pop(0)


def scene(steps, variant, batch=()):
  log = scenes.log_traj(N, steps, variant=variant, batch=batch)
  return scenes.state(log, scenes.metadata(N, sdc=variant % N, batch=batch),
                      timestep=-1)


class Ending(wenv.PlanningAgentEnvironment):
  """Episodes end (terminate) at a given clock value; the reward looks at the
  action it is given."""
  end_at = 99
  mixed = False

  def termination(self, state):
    end = state.timestep >= self.end_at
    if self.mixed:
      return (jnp.arange(state.shape[0]) == 0) & end
    return jnp.broadcast_to(end, state.shape)

  def reward(self, state, action):
    return jnp.sum(action.data, -1) + 0.5 * state.timestep


def make(kind, **kw):
  cfg = wconfig.EnvironmentConfig(
      max_num_objects=N, init_steps=INIT,
      controlled_object=wconfig.ObjectType.SDC,
      rewards=wconfig.LinearCombinationRewardConfig({'log_divergence': -1.0}),
      metrics=wconfig.MetricsConfig(metrics_to_run=('log_divergence',)))
  disc = lambda: dynamics.DiscreteActionSpaceWrapper(
      dynamics.InvertibleBicycleModel(), np.array([3, 2]))
  if kind == 'planning':
    return wenv.PlanningAgentEnvironment(dynamics.DeltaGlobal(), cfg)
  if kind == 'discrete':
    return wenv.PlanningAgentEnvironment(disc(), cfg)
  if kind == 'multi':
    return wenv.MultiAgentEnvironment(dynamics.DeltaGlobal(), cfg)
  e = Ending(dynamics.DeltaGlobal(), cfg)
  for k, v in kw.items():
    setattr(e, k, v)
  return e


def as_action(env, batch, raw):
  data = jnp.reshape(jnp.asarray(raw), batch + tuple(env.action_spec().data.shape))
  return datatypes.Action(data=data, valid=jnp.ones(data.shape[:-1] + (1,), bool))


def same(ck, tag, got, want):
  c24.same(ck, tag, got, want, atol=1e-5)


class Model:
  """What the interface should do: 'fresh', 'running' or 'over'."""

  def __init__(self, env, jits):
    self.env, (self.jstep, self.jreward) = env, jits
    self.phase, self.state, self.trace = 'fresh', None, ()

  def reset(self, sc):
    """-> expected exception or None."""
    s = self.env.reset(sc)
    if int(s.timestep) + 1 >= s.log_trajectory.num_timesteps:
      self.phase, self.state = 'fresh', None
      return NOT_STARTED
    self.phase, self.state = 'running', s
    return None

  def step(self, raw, batch):
    if self.phase == 'fresh':
      return NOT_STARTED, None
    if self.phase == 'over':
      return OVER, None
    act = as_action(self.env, batch, raw)
    rew = self.jreward(self.state, act)
    self.state = self.jstep(self.state, act)
    term = np.asarray(self.env.termination(self.state))
    last = int(self.state.timestep) + 1 >= self.state.log_trajectory.num_timesteps
    if last or term.all():
      self.phase = 'over'
    return None, (rew, self.phase == 'over', term)


def explore(ck, kind, scene_list, actions, depth, batch=(), squeeze=True, **kw):
  """Every sequence of calls up to a depth, from a new wrapper."""
  tag = f'dm_env/{kind}/batch={batch}' + ''.join(f'/{k}={v}' for k, v in kw.items())
  env = make(kind, **kw)
  feed = Feed(scene_list[0])
  wrapper = dm_env_wrapper.DMEnvWrapper(feed, env, squeeze)
  letters = [('reset', i) for i in range(len(scene_list))]
  letters += [('step', i) for i in range(len(actions))] + [('read', 0), ('dry', 0)]
  jits = (jax.jit(env.step), jax.jit(env.reward))
  frontier = [(wrapper, Model(env, jits))]
  seen = {('fresh', ())}
  for d in range(depth):
    nxt = []
    for (w0, m0), (what, i) in itertools.product(frontier, letters):
      w, m = copy.copy(w0), copy.copy(m0)
      t = f'{tag}/after={m.phase}/{what}'
      ck.transitions += 1
      ck.validated += 1
      ck.part('calls', 1)
      ck.outcome(f'{what} when {m.phase}')
      if what == 'reset':
        feed.queue = [scene_list[i]]
        want = m.reset(scene_list[i])
        m.trace = (i,)
        try:
          ts = w.reset()
          if not ck.check(want is None, f'{t}/accepted-finished-scene', i):
            continue
          ck.check(ts.step_type == dm_env.StepType.FIRST and ts.reward is None and
                   ts.discount is None, f'{t}/first')
          same(ck, f'{t}/observation', ts.observation, env.observe(m.state))
        except NOT_STARTED:
          ck.check(want is NOT_STARTED, f'{t}/refused', i)
        ck.check(not feed.queue, f'{t}/took-one-scene')
      elif what == 'dry':
        feed.queue = []
        try:
          w.reset()
          ck.fail(f'{t}/no-data-accepted')
        except StopIteration:
          pass
        continue  # what follows running out of data is not specified
      elif what == 'step':
        raw = np.copy(actions[i])
        feed.queue = []
        want, out = m.step(actions[i], batch)
        m.trace += (('a', i),) if want is None else ()
        try:
          ts = w.step(raw)
          if not ck.check(want is None, f'{t}/accepted', str(want)):
            continue
          rew, last, term = out
          ck.check(np.array_equal(raw, actions[i]), f'{t}/action-changed')
          ck.check(ts.step_type == (dm_env.StepType.LAST if last else
                                    dm_env.StepType.MID), f'{t}/kind',
                   {'last': last, 'got': str(ts.step_type)})
          ck.close(f'{t}/reward', ts.reward, rew)
          disc = np.where(term, 0.0, 1.0) if last else 1.0
          ck.check(bool(np.all(np.asarray(ts.discount) == disc)), f'{t}/discount',
                   {'got': ts.discount, 'want': disc})
          same(ck, f'{t}/observation', ts.observation, env.observe(m.state))
        except (NOT_STARTED, OVER) as e:
          ck.check(want is type(e), f'{t}/error', {'got': str(type(e)),
                                                   'want': str(want)})
      else:
        try:
          s = w.simulation_state
          if ck.check(m.phase != 'fresh', f'{t}/readable'):
            same(ck, f'{t}/state', s, m.state)
        except NOT_STARTED:
          ck.check(m.phase == 'fresh', f'{t}/unreadable')
        continue
      key = (m.phase, m.trace)
      ck.state(repr((tag, key)).encode())
      if key not in seen:
        seen.add(key)
        nxt.append((w, m))
    frontier = nxt
  ck.check(wrapper.stateless_env is env and wrapper.config is env.config,
           f'{tag}/env')


@core.sharded
def protocol(ck):
  """Call sequences over several environments, data sources and batches."""
  ck.rule = ('every sequence of reset (on a long, short or already finished '
             'scene), step (every action of an alphabet) and reads, to a depth')
  three = [scene(INIT + 2, 0), scene(INIT + 1, 1), scene(INIT, 2)]
  vec = [np.array([0.5, -0.25, 0.125], np.float32), np.zeros(3, np.float32)]
  depth = 8 if ck.thorough else 6
  if ck.mine():
    explore(ck, 'planning', three, vec, depth)
  if ck.mine():
    explore(ck, 'multi', three, [np.tile(v, (N, 1)) + np.arange(N)[:, None]
                                 for v in vec], depth)
  if ck.mine():
    explore(ck, 'discrete', three, [np.int32(0), np.int32(11), np.array([5], np.int32)],
            depth)
  if ck.mine():
    explore(ck, 'discrete', three, [np.array([7], np.int32)], depth, squeeze=False)
  for batch in ((2,), (1,), (2, 2)):
    if ck.mine():
      b = [scene(INIT + 2, 0, batch), scene(INIT + 1, 1, batch), scene(INIT, 2, batch)]
      n = int(np.prod(batch))
      explore(ck, 'planning', b, [
          (np.arange(n)[:, None] + v).reshape(batch + (3,)) for v in vec], depth,
              batch)
  for end in range(INIT, INIT + 3):
    if ck.mine():
      explore(ck, 'ending', three, vec, depth, end_at=end)
  if ck.mine():
    b = [scene(INIT + 2, 0, (2,)), scene(INIT + 1, 1, (2,))]
    explore(ck, 'ending', b, [np.zeros((2, 3), np.float32)], depth, (2,), end_at=INIT)
  if not ck.mine():
    return
  # Batches of which only some members have ended are refused.
  b = [scene(INIT + 3, 0, (2,))]
  env = make('ending', end_at=INIT, mixed=True)
  w = dm_env_wrapper.DMEnvWrapper(Feed(b[0]), env)
  feed = Feed(b[0])
  w = dm_env_wrapper.DMEnvWrapper(feed, env)
  feed.queue = [b[0]]
  w.reset()
  try:
    w.step(np.zeros((2, 3), np.float32))
    ck.fail('dm_env/mixed-batch-accepted')
  except NotImplementedError:
    ck.part('mixed batches refused', 1)


class Seeing(wenv.PlanningAgentEnvironment):

  def observe(self, state):
    return datatypes.sdc_observation_from_state(state, 2, 6)


@core.sharded
def specs(ck):
  """Specs are those of the environment, without the batch."""
  for kind, batch, squeeze in itertools.product(
      ('planning', 'multi', 'discrete', 'seeing'), ((), (2,), (2, 1)), (True, False)):
    if not ck.mine():
      continue
    env = (Seeing(dynamics.DeltaGlobal(), make('planning').config)
           if kind == 'seeing' else make(kind))
    sc = scene(INIT + 2, 1, batch)
    w = dm_env_wrapper.DMEnvWrapper(iter([sc, sc, sc]), env, squeeze)
    tag = f'dm_spec/{kind}/batch={batch}/squeeze={squeeze}'
    a, e = w.action_spec(), env.action_spec().data
    scalar = kind == 'discrete' and squeeze
    ck.check(tuple(a.shape) == (() if scalar else tuple(e.shape)) and
             a.dtype == e.dtype, f'{tag}/action')
    ck.close(f'{tag}/bounds', np.stack([a.minimum, a.maximum]).ravel(),
             np.stack([e.minimum, e.maximum]).ravel())
    ck.check(w.reward_spec().shape == env.reward_spec().shape and
             w.discount_spec().shape == (), f'{tag}/reward')
    o = w.observation_spec()
    obs = w.reset().observation
    x, tx = jax.tree_util.tree_flatten(obs)
    y, ty = jax.tree_util.tree_flatten(o)
    ck.check(len(x) == len(y), f'{tag}/observation/structure')
    # After reset the clock is one number for the whole batch: no batch axis.
    for got, spec in zip(x, y):
      shape = tuple(got.shape)
      ck.check(got.dtype == spec.dtype and (
          batch + tuple(spec.shape) == shape or shape == tuple(spec.shape) == ()),
               f'{tag}/observation', {'got': shape, 'spec': spec.shape})
    act = np.broadcast_to(np.asarray(a.minimum), batch + tuple(a.shape))
    ts = w.step(np.array(act))
    ck.check(ts.reward.shape == batch + tuple(w.reward_spec().shape), f'{tag}/fits')
    ck.part('specifications', 1)
    ck.transitions += 2
  if not ck.mine():
    return
  # make_sdc_dm_environment refuses other controlled objects.
  for kind in wconfig.ObjectType:
    if kind != wconfig.ObjectType.SDC:
      try:
        dm_env_wrapper.make_sdc_dm_environment(
            dynamics.DeltaGlobal(), wconfig.DatasetConfig(path='/nonexistent'),
            wconfig.EnvironmentConfig(controlled_object=kind))
        ck.fail(f'make/{kind}')
      except ValueError:
        ck.part('refused', 1)


@core.sharded
def assembled(ck):
  """make_sdc_dm_environment: any list of configured background agents."""
  real = dataloader.simulator_state_generator
  OT, SA = wconfig.ObjectType, wconfig.SimAgentType
  kinds = [wconfig.SimAgentConfig(SA.IDM, OT.NON_SDC),
           wconfig.SimAgentConfig(SA.IDM, OT.SDC)]
  sc = scene(INIT + 3, 0)
  dataloader.simulator_state_generator = lambda config: iter([sc] * 3)
  try:
    for cfgs in [None] + [list(c) for r in range(3)
                          for c in itertools.product(kinds, repeat=r)]:
      if not ck.mine():
        continue
      tag = f'assembled/agents={None if cfgs is None else len(cfgs)}'
      cfg = wconfig.EnvironmentConfig(
          max_num_objects=N, init_steps=INIT, sim_agents=cfgs,
          metrics=wconfig.MetricsConfig(metrics_to_run=('log_divergence',)))
      w = dm_env_wrapper.make_sdc_dm_environment(
          dynamics.DeltaGlobal(), wconfig.DatasetConfig(path='unused'), cfg)
      from waymax import agents
      acts = [agents.create_sim_agents_from_config(c) for c in cfgs or []]
      env = wenv.PlanningAgentEnvironment(
          dynamics.DeltaGlobal(), cfg, acts, [None] * len(acts))
      s = env.reset(sc)
      same(ck, tag, w.reset().observation.sim_trajectory, s.sim_trajectory)
      a = np.array([0.5, 0.25, 0.0], np.float32)
      for _ in range(3):
        s = env.step(s, as_action(env, (), a))
        ts = w.step(a)
        same(ck, tag, ts.observation.sim_trajectory, s.sim_trajectory)
        ck.transitions += 1
        ck.validated += 1
      ck.check(ts.last(), f'{tag}/end')
      ck.part('assembled environments', 1)
  finally:
    dataloader.simulator_state_generator = real


PARTS = [protocol, specs, assembled]
