"""Whole-simulator runs: one scene, one environment, a sequence of actions.

A run records everything a user can see of an episode (state, observations,
metrics, rewards, agents' actions, end) so that properties over whole
simulations (how they are executed, scene symmetries) can compare runs.
"""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import agents
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv

from wmc import scenes

OT = wconfig.ObjectType
FR = wconfig.CoordinateFrame
PER_OBJECT = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility')
OF_EGO = ('sdc_wrongway', 'sdc_progression', 'sdc_off_route')
N, T, INIT, TOPK = 4, 6, 2, 4


def scene(variant=0, n=N, steps=T, sdc=None, rg=14, tl=3):
  """A busy little scene at a generic position; every variant differs."""
  v = variant
  o = np.arange(n)[:, None].astype(float)
  t = np.arange(steps)[None, :].astype(float)
  base = 0.3 + 1.1 * (v % 6)
  yaw = base + 0.17 * o + 0.061 * t + np.where(o == 3, 2.2, 0.0) + 0 * t
  yaw = (yaw + np.pi) % (2 * np.pi) - np.pi
  speed = 3.1 + 1.7 * ((o + v) % 3) + 0.23 * t
  x0 = 5.3 * o * np.cos(base) - 1.9 * (o % 2) * np.sin(base) + 0.7 * v
  y0 = 5.3 * o * np.sin(base) + 1.9 * (o % 2) * np.cos(base) - 0.4 * v
  x = x0 + np.cumsum(0.1 * speed * np.cos(yaw), -1)
  y = y0 + np.cumsum(0.1 * speed * np.sin(yaw), -1)
  valid = np.ones((n, steps), bool)
  if n > 3:
    valid[3, :2] = v % 3 != 1        # enters late
    valid[2, 4:] = v % 3 != 2        # leaves
    valid[1, 3] = v % 4 != 3         # gap
  log = scenes.traj(
      x=x, y=y, z=0.1 * o + 0.01 * t, yaw=yaw, vel_x=speed * np.cos(yaw),
      vel_y=speed * np.sin(yaw), length=4.1 + 0.37 * o + 0 * t,
      width=1.83 + 0.11 * o + 0 * t, height=1.5 + 0.1 * o + 0 * t,
      timestamp_micros=100_000 * t + 0 * o, valid=valid)
  i = np.arange(rg)
  side = np.where(i < rg // 2, 1.0, -1.0)
  along = 3.7 * (i % (rg // 2)) - 4.0
  off = 3.3 + 0.45 * ((i * 5 + v) % 4)
  ang = base + np.where(side > 0, np.pi, 0.0)
  f = lambda a, dt=np.float32: jnp.asarray(np.asarray(a).astype(dt))
  road = datatypes.RoadgraphPoints(
      x=f(along * np.cos(base) - side * off * np.sin(base)),
      y=f(along * np.sin(base) + side * off * np.cos(base)), z=f(0.1 + 0 * i),
      dir_x=f(np.cos(ang)), dir_y=f(np.sin(ang)), dir_z=f(0 * i),
      types=f(np.where(i % (rg // 2) == 5, 2, np.where(side > 0, 15, 16)), np.int32),
      ids=f(np.where(side > 0, 41, 42) + np.where(i % (rg // 2) == 5, 9, 0), np.int32),
      valid=f(i % 6 != 4 + v % 2, bool))
  l = np.arange(tl)[:, None]
  lights = datatypes.TrafficLights(
      x=f(7.3 * l + 0 * t), y=f(-2.7 * l + 0.9 * v + 0 * t), z=f(0.3 * l + 0 * t),
      state=f((l + t + v) % 9, np.int32), lane_ids=f(900 + l + 0 * t, np.int32),
      valid=f((l + t + v) % 3 != 0, bool))
  P, K = 3, 9
  p, k = np.arange(P)[:, None].astype(float), np.arange(K)[None, :].astype(float)
  bend = base + 0.21 * (p - 1) + 0.07 * k * (p - 1)
  px = -3.1 * np.cos(base) + np.cumsum(1.3 * np.cos(bend), -1) - 0.6 * p * np.sin(base)
  py = -3.1 * np.sin(base) + np.cumsum(1.3 * np.sin(bend), -1) + 0.6 * p * np.cos(base)
  routes = datatypes.Paths(
      x=f(px), y=f(py), z=f(0.05 * k + 0 * p), ids=f(70 + p + 0 * k, np.int32),
      valid=f(k < np.array([[9.0], [7.0], [8.0]]), bool), arc_length=f(1.3 * k + 0 * p),
      on_route=f(np.array([[True], [v % 2 == 0], [v % 3 == 0]]), bool))
  meta = scenes.metadata(n, sdc=v % n if sdc is None else sdc,
                         modeled=np.arange(n) % 2 == v % 2)
  return datatypes.SimulatorState(
      sim_trajectory=log, log_trajectory=log, log_traffic_light=lights,
      object_metadata=meta, timestep=jnp.asarray(-1, jnp.int32), sdc_paths=routes,
      roadgraph_points=road)


def stack(items):
  return jax.tree_util.tree_map(lambda *x: jnp.stack(x), *items)


def at(tree, i):
  return jax.tree_util.tree_map(lambda x: x[i], tree)


DYN = {
    'DeltaGlobal': (dynamics.DeltaGlobal, [(0.31, -0.22, 0.05), (-0.4, 0.9, -0.3)]),
    'DeltaLocal': (dynamics.DeltaLocal, [(0.61, -0.12, 0.05), (-0.4, 0.3, -0.2)]),
    'Bicycle': (dynamics.InvertibleBicycleModel, [(1.7, 0.06), (-5.1, -0.11)]),
    'State': (dynamics.StateDynamics, [(2.1, -1.3, 0.4, 3.0, 1.0),
                                       (-4.2, 6.1, -2.6, -1.5, 0.7)]),
    'Discrete': (lambda: dynamics.DiscreteActionSpaceWrapper(
        dynamics.InvertibleBicycleModel(), np.array([4, 6])), [(17,), (9,)]),
}


def tiring_actor():
  """Moves all but the ego; how far depends on the state it carries."""
  def select(params, s, carried, rng):
    t = s.current_sim_trajectory
    u = datatypes.TrajectoryUpdate(
        x=t.x + 0.4 / (1.0 + carried['count'])[..., None, None], y=t.y + 0.1,
        yaw=t.yaw, vel_x=t.vel_x, vel_y=t.vel_y, valid=t.valid)
    return agents.WaymaxActorOutput(
        action=u.as_action(), actor_state={'count': carried['count'] + 1.0},
        is_controlled=~s.object_metadata.is_sdc)

  return agents.actor_core_factory(
      init=lambda rng, s: {'count': jnp.zeros(s.batch_dims)}, name='tiring',
      select_action=select)


class World:
  """An environment, agents to consult, and a two-letter action alphabet."""

  def __init__(self, name, n=N, frames=('GLOBAL', 'OBJECT', 'SDC')):
    self.frames = [FR[f] for f in frames]
    kind, dyn, mode = name.split('/')
    self.name, self.n, self.dyn = name, n, dyn
    make, self.alphabet = DYN[dyn]
    self.planning = kind == 'P'
    cfg = dict(
        max_num_objects=n, init_steps=INIT,
        metrics=wconfig.MetricsConfig(metrics_to_run=PER_OBJECT + OF_EGO),
        rewards=wconfig.LinearCombinationRewardConfig(
            {'overlap': -1.5, 'log_divergence': 0.25, 'offroad': -0.5}))
    if self.planning:
      acts = [agents.IDMRoutePolicy(lambda s: ~s.object_metadata.is_sdc)]
      if mode == '2':
        acts.append(agents.create_constant_speed_actor(
            dynamics.StateDynamics(), lambda s: s.object_metadata.is_modeled &
            ~s.object_metadata.is_sdc, speed=2.5))
      if mode == '3':
        acts = [tiring_actor()]
      self.env = wenv.PlanningAgentEnvironment(
          make(), wconfig.EnvironmentConfig(**cfg), acts, [{}] * len(acts))
    else:
      self.env = wenv.MultiAgentEnvironment(make(), wconfig.EnvironmentConfig(
          controlled_object=OT[mode.split('-')[0]],
          allow_new_objects_after_warmup=not mode.endswith('-closed'), **cfg))
    # Agents that only say what they would do (IDM already acts in P worlds).
    self.others = [agents.create_expert_actor(dynamics.DeltaGlobal())]
    if not self.planning:
      self.others.append(agents.IDMRoutePolicy())

  def action(self, letters):
    """One joint action; letters: an index per object (or one for the ego)."""
    dt = np.int32 if self.dyn == 'Discrete' else np.float32
    if self.planning:
      a = np.asarray(self.alphabet[letters[0] % 2], dt)
      return datatypes.Action(data=jnp.asarray(a), valid=jnp.ones((1,), bool))
    scale = 1 if dt == np.int32 else (1.0 + 0.21 * np.arange(self.n))[:, None]
    a = np.asarray([self.alphabet[l % 2] for l in letters], dt) * scale
    # The ego's action is always given; letter 2, 3 withhold an action.
    return datatypes.Action(data=jnp.asarray(a.astype(dt)), valid=jnp.asarray(
        np.array([[l < 2] for l in letters])))

  def actions(self, depth):
    """Sequences of joint actions: every word of the given length."""
    out = []
    for w in itertools.product(range(2), repeat=depth):
      seq = [self.action([(l + i + (i == s % self.n)) % 2 + 2 * ((i + s) % 5 == 4)
                          for i in range(self.n)]) for s, l in enumerate(w)]
      out.append(stack(seq))
    return out

  def look(self, s, act):
    """Everything visible at a state, for the given action."""
    obs = {f.name: datatypes.observation_from_state(s, 2, TOPK, f)
           for f in self.frames}
    ego = datatypes.sdc_observation_from_state(s, 2, TOPK, FR.SDC)
    t = s.sim_trajectory
    out = dict(
        t=jnp.asarray(s.timestep), done=jnp.asarray(s.is_done),
        sim={f: jnp.where(t.valid, getattr(t, f), 0) for f in (
            'x', 'y', 'z', 'yaw', 'vel_x', 'vel_y', 'length', 'width', 'valid',
            'timestamp_micros')},
        metrics=self.env.metrics(s), reward=self.env.reward(s, act),
        obs=obs, ego=ego,
        agents=[self.consult(a, s) for a in self.others])
    return out

  def consult(self, actor, s):
    o = actor.select_action({}, s, actor.init(None, s), None)
    ok = o.action.valid
    return dict(data=jnp.where(ok, o.action.data, 0), valid=ok,
                claim=o.is_controlled)

  def begin(self, st, start=0):
    """Reset, then optionally play some more of the log (a later clock)."""
    s = self.env.reset(st)
    return datatypes.update_state_by_log(s, start) if start else s

  def go(self, s, acts):
    """The outputs at every state of an episode from s (leading axis: step)."""
    def body(s, a):
      return self.env.step(s, a), self.look(s, a)
    end, outs = jax.lax.scan(body, s, acts)
    last = self.look(end, at(acts, -1))
    return jax.tree_util.tree_map(
        lambda x, y: jnp.concatenate([x, y[None]]), outs, last)

  def walk(self, s, acts):
    """The same as go, in a Python loop."""
    k = jax.tree_util.tree_leaves(acts)[0].shape[0]
    outs = []
    for i in range(k):
      a = at(acts, i)
      outs.append(self.look(s, a))
      s = self.env.step(s, a)
    outs.append(self.look(s, at(acts, k - 1)))
    return stack(outs)

  def run(self, st, acts, start=0):
    return self.go(self.begin(st, start), acts)


def flat(tree):
  """Outputs of a run as (name, numpy array) pairs."""
  return [(jax.tree_util.keystr(k), np.asarray(v))
          for k, v in jax.tree_util.tree_flatten_with_path(tree)[0]]


def agree(ck, key, got, want, atol=2e-3, pick=None, detail=None):
  """Whether two runs show the same; pick maps got's leaves first."""
  a = got if isinstance(got, list) else flat(got)
  b = want if isinstance(want, list) else flat(want)
  if not ck.check([n for n, _ in a] == [n for n, _ in b], f'{key}/outputs',
                  lambda: sorted({n for n, _ in a} ^ {n for n, _ in b})):
    return False
  ok = True
  for (name, x), (_, y) in zip(a, b):
    x = pick(x) if pick else x
    if '.yaw' in name or "'yaw'" in name:
      # Headings are equal modulo a full turn.
      x = y + (x - y + np.pi) % (2 * np.pi) - np.pi if x.shape == y.shape else x
    ok &= ck.close(f'{key}/{name}', x, y, atol=atol, rtol=1e-5, detail=detail)
  return ok


@functools.lru_cache(None)
def world(name, n=N, frames=('GLOBAL', 'OBJECT', 'SDC')):
  return World(name, n, frames)


NAMES = ('M/DeltaGlobal/VALID', 'M/Bicycle/MODELED', 'M/State/NON_SDC',
         'M/DeltaLocal/VALID-closed', 'P/DeltaLocal/1', 'P/Bicycle/2',
         'M/Discrete/SDC')
