"""C13: actors, their claims, and combining their actions."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import agents
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv
from waymax.agents import constant_speed
from waymax.agents import sim_agent

from wmc import ref
from wmc import scenes

LEVEL = 'model_checking'


def merging(ck):
  """Every assignment of claims to one to four actors."""
  ck.rule = 'every (number of actors, claims of each over 3 objects, batch)'
  n, d = 3, 2
  masks = np.array(list(itertools.product((False, True), repeat=n)))
  for k in (1, 2, 3) + ((4,) if ck.thorough else ()):
    data = np.stack([100.0 * i + 10.0 * np.arange(n)[:, None] + np.arange(d)
                     for i in range(1, k + 1)]).astype(np.float32)
    for flip in (0, 1):
      avalid = np.stack([(np.arange(n) + i + flip) % 2 == 0
                         for i in range(k)])[..., None]
      combos = np.array(list(itertools.product(range(len(masks)), repeat=k)))
      m = masks[combos]  # (cases, k, n)

      def merge(mk):
        outs = [agents.WaymaxActorOutput(
            actor_state=None, is_controlled=mk[i],
            action=datatypes.Action(data=jnp.asarray(data[i]),
                                    valid=jnp.asarray(avalid[i])))
                for i in range(k)]
        return agents.merge_actions(outs)

      got = jax.vmap(merge)(jnp.asarray(m))
      want = np.broadcast_to(data[0], (len(m), n, d)).copy()
      wv = np.broadcast_to(avalid[0], (len(m), n, 1)).copy()
      for i in range(1, k):
        want = np.where(m[:, i, :, None], data[i], want)
        wv = np.where(m[:, i, :, None], avalid[i], wv)
      # An object claimed by nobody: whatever the first actor gave is kept; the
      # property speaks of claimed objects only.
      claimed = m.any(1)[..., None]
      ck.close(f'merge/actors={k}', got.data, want, atol=0, rtol=0, mask=claimed)
      ck.close(f'merge/actors={k}/valid', got.valid, wv, mask=claimed)
      # The same without vmap, on a leading batch axis.
      outs = [agents.WaymaxActorOutput(
          actor_state=None, is_controlled=jnp.asarray(m[:, i]),
          action=datatypes.Action(
              data=jnp.broadcast_to(jnp.asarray(data[i]), want.shape),
              valid=jnp.broadcast_to(jnp.asarray(avalid[i]), wv.shape)))
              for i in range(k)]
      b = agents.merge_actions(outs)
      ck.close(f'merge/batched/actors={k}', b.data, want, atol=0, rtol=0,
               mask=claimed)
      ck.close(f'merge/batched/actors={k}/valid', b.valid, wv, mask=claimed)
      ck.part('claim assignments', len(m))
      ck.transitions += 2 * len(m)
      ck.validated += len(m)
      for c in combos:
        ck.state(repr((k, flip, c.tolist())).encode())
  ck.sample({'actors': k, 'assignments': len(m)})
  try:
    agents.merge_actions([])
    ck.fail('merge/nothing-accepted')
  except NotImplementedError:
    ck.part('empty list refused', 1)


def heading_traj(n, T, variant=0):
  lg = scenes.np_traj(scenes.log_traj(n, T, variant=variant))
  return lg


MODELS = {
    'DeltaGlobal': dynamics.DeltaGlobal,
    'DeltaLocal': dynamics.DeltaLocal,
    'State': dynamics.StateDynamics,
    'Bicycle': dynamics.InvertibleBicycleModel,
}


def constant_speed_actor(ck):
  """Every heading x speed x validity: straight on at the wanted speed."""
  poses = list(itertools.product(
      (0.0, 0.7, 1.6, 2.5, 3.1, -3.1, -1.6, -0.4), (0.0, 3.0, 11.0),
      (False, True), (False, True)))
  n, T, t = len(poses), 4, 1
  yaw, sp, val, mask = (np.array([p[i] for p in poses]) for i in range(4))
  for name, make in MODELS.items():
    for speed in (None, 0.0, 2.0, 9.0, 15.0):
      for straight in (True, False):
        lg = heading_traj(n, T, 1)
        sim = scenes.np_traj(scenes.log_traj(n, T, variant=2))
        sim['yaw'][:, t] = yaw
        head = yaw if straight else yaw + 0.4
        sim['vel_x'][:, t] = sp * np.cos(head)
        sim['vel_y'][:, t] = sp * np.sin(head)
        sim['valid'][:, t] = val
        st = scenes.state(scenes.traj(**lg), scenes.metadata(n, modeled=mask),
                          scenes.traj(**sim), t)
        dyn = make()
        actor = constant_speed.create_constant_speed_actor(
            dyn, lambda s: s.object_metadata.is_modeled, speed)
        out = actor.select_action(None, st, None, None)
        tag = f'constant-speed/{name}/speed={speed}/straight={straight}'
        ck.close(f'{tag}/claims', out.is_controlled, mask)
        ck.close(f'{tag}/valid', np.asarray(out.action.valid)[:, 0],
                 val & mask)
        cfg = wconfig.EnvironmentConfig(
            max_num_objects=n, init_steps=1,
            metrics=wconfig.MetricsConfig(metrics_to_run=()),
            controlled_object=wconfig.ObjectType.MODELED)
        nxt = wenv.BaseEnvironment(dyn, cfg).step(st, out.action)
        if speed is None:
          vx, vy = sp * np.cos(head), sp * np.sin(head)
        else:
          vx, vy = speed * np.cos(yaw), speed * np.sin(yaw)
        # The bicycle can only be asked to keep its speed along its heading.
        judge = val & mask
        if name == 'Bicycle':
          judge &= (sp > 0) & straight
          v = sp if speed is None else np.full(n, speed)
          judge &= np.abs(v - sp) * 10 <= 5.9
        got = scenes.np_traj(nxt.sim_trajectory)
        tol = 2e-3
        wx, wy = sim['x'][:, t] + 0.1 * vx, sim['y'][:, t] + 0.1 * vy
        if name == 'Bicycle' and speed is not None:
          judge &= np.abs(speed - sp) < 1e-6
        ck.close(f'{tag}/x', got['x'][:, t + 1], wx, atol=tol, mask=judge)
        ck.close(f'{tag}/y', got['y'][:, t + 1], wy, atol=tol, mask=judge)
        ck.close(f'{tag}/vx', got['vel_x'][:, t + 1], vx, atol=1e-2, mask=judge)
        ck.close(f'{tag}/vy', got['vel_y'][:, t + 1], vy, atol=1e-2, mask=judge)
        ck.check(bool(np.all(ref.ang_close(got['yaw'][:, t + 1], yaw, 2e-3) | ~judge)),
                 f'{tag}/yaw')
        ck.outcome('judged', int(judge.sum()))
        ck.part('constant-speed cases', n)
        ck.transitions += n
        ck.validated += 1
        ck.state(repr(tag).encode())
  for speed in (0.0, 2.0, 7.5):
    pol = constant_speed.ConstantSpeedPolicy(speed)
    v, ok = pol.update_speed(st)
    ck.close('constant-speed-policy', v, np.full(n, speed))
    ck.check(bool(np.all(np.asarray(ok))), 'constant-speed-policy/valid')


def claims(ck):
  """Which objects each kind of actor claims, for every ego index."""
  n, T = 5, 4
  for sdc in range(n):
    st = scenes.state(scenes.log_traj(n, T), scenes.metadata(n, sdc=sdc), timestep=1)
    ego = np.arange(n) == sdc
    odd = np.arange(n) % 2 == 1
    OT, SA = wconfig.ObjectType, wconfig.SimAgentType
    cases = [
        ('expert/default', agents.create_expert_actor(dynamics.DeltaGlobal()), ego),
        ('expert/custom', agents.create_expert_actor(
            dynamics.DeltaGlobal(), lambda s: s.object_metadata.is_modeled), odd),
        ('frozen/default', agents.FrozenSimPolicy(), ~ego),
        ('frozen/custom', agents.FrozenSimPolicy(
            lambda s: s.object_metadata.is_modeled), odd),
        ('idm/default', agents.IDMRoutePolicy(), ~ego),
        ('idm/custom', agents.IDMRoutePolicy(
            lambda s: s.object_metadata.is_modeled), odd),
        ('built/ego', agents.create_sim_agents_from_config(
            wconfig.SimAgentConfig(SA.IDM, OT.SDC)), ego),
        ('built/others', agents.create_sim_agents_from_config(
            wconfig.SimAgentConfig(SA.IDM, OT.NON_SDC)), ~ego),
    ]
    for tag, actor, want in cases:
      out = actor.select_action(None, st, actor.init(None, st), None)
      ck.close(f'claims/{tag}', out.is_controlled, want)
      ck.close(f'claims/{tag}/shape', np.zeros(np.shape(out.is_controlled)),
               np.zeros(out.action.shape))
      ck.part('claims', 1)
      ck.transitions += 1
      ck.validated += 1
      ck.state(repr((tag, sdc)).encode())
    # A frozen actor keeps every object in place, in a whole episode.
    meta = scenes.metadata(n, sdc=sdc)
    cfg = wconfig.EnvironmentConfig(
        max_num_objects=n, init_steps=1,
        metrics=wconfig.MetricsConfig(metrics_to_run=()))
    env = wenv.PlanningAgentEnvironment(
        dynamics.StateDynamics(), cfg,
        [agents.FrozenSimPolicy(lambda s: s.object_metadata.is_valid)], [None])
    log = scenes.log_traj(n, T)
    s = env.reset(scenes.state(log, meta))
    first = scenes.np_traj(s.sim_trajectory)
    for _ in range(T - 1):
      s = env.step(s, datatypes.Action(data=jnp.full((5,), 3.0),
                                       valid=jnp.ones((1,), bool)))
    last = scenes.np_traj(s.sim_trajectory)
    for f in ref.POSE:
      ck.close(f'frozen/{f}', last[f], np.repeat(first[f][:, :1], T, 1), atol=0,
               rtol=0)
    ck.part('frozen episodes', 1)
    ck.transitions += T - 1
  for kind in (OT.MODELED, OT.VALID):
    try:
      agents.create_sim_agents_from_config(wconfig.SimAgentConfig(SA.IDM, kind))
      ck.fail(f'claims/unsupported-accepted/{kind}')
    except NotImplementedError:
      ck.part('unsupported claims refused', 1)


def factory(ck):
  """An actor made of functions hands them what it is given, unchanged."""
  st = scenes.state(scenes.log_traj(2, 3), scenes.metadata(2), timestep=1)
  seen = []

  def init(rng, state):
    seen.append(('init', rng, state))
    return 'start'

  def select(params, state, actor_state, rng):
    seen.append(('select', params, state, actor_state, rng))
    return agents.WaymaxActorOutput(actor_state=(actor_state, 1), action=params,
                                    is_controlled=None)

  for name in ('one', 'two'):
    a = agents.actor_core_factory(init, select, name)
    ck.check(a.name == name, 'factory/name', a.name)
    for rng in (jax.random.PRNGKey(3), None):
      seen.clear()
      s0 = a.init(rng, st)
      ck.check(s0 == 'start' and seen == [('init', rng, st)] or
               (seen[0][1] is rng and seen[0][2] is st), 'factory/init')
      out = a.select_action({'w': 1}, st, s0, rng)
      ck.check(seen[1][1] == {'w': 1} and seen[1][2] is st and
               seen[1][3] == 'start' and seen[1][4] is rng, 'factory/select')
      ck.check(out.actor_state == ('start', 1), 'factory/state')
      ck.part('factory calls', 1)
  # Passing an actor through transformations keeps it usable.
  leaves, tree = jax.tree_util.tree_flatten(a)
  b = jax.tree_util.tree_unflatten(tree, leaves)
  ck.check(b.name == 'two' and not leaves, 'factory/pytree')
  f = agents.IDMRoutePolicy(desired_vel=7.0)
  g = jax.tree_util.tree_map(lambda x: x, f)
  ck.check(isinstance(f, sim_agent.SimAgentActor) and g.desired_vel == 7.0 and
           f.name == 'IDMRoutePolicy', 'factory/sim-agent')


PARTS = [merging, constant_speed_actor, claims, factory]
