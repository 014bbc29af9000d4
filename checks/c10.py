"""C10: single-agent environment with background (sim) agents."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import agents
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv

from wmc import envx
from wmc import ref
from wmc import scenes

LEVEL = 'model_checking'
N, T, INIT = 3, 5, 2
PAIRS = list(itertools.combinations(range(N), 2))
MASKS = np.array(list(itertools.product((False, True), repeat=N)))
OFFSETS = [np.array([0.5, -0.25, 0.125, 1.0, 2.0]),
           np.array([-0.75, 1.5, -0.25, 3.0, -1.0])]


def actor(k):
  """Moves every object by an offset growing with its own call count."""

  def init(rng, state):
    return {'calls': jnp.zeros((), jnp.int32), 'started': state.timestep + 100 * k}

  def select(params, state, actor_state, rng):
    cur = state.current_sim_trajectory
    base = jnp.stack([getattr(cur, f)[..., 0] for f in ref.POSE], -1)
    gain = 1.0 + actor_state['calls'].astype(jnp.float32)
    data = base + params['gain'] * gain * jnp.asarray(OFFSETS[k], jnp.float32)
    nxt = {'calls': actor_state['calls'] + 1, 'started': actor_state['started']}
    return agents.WaymaxActorOutput(
        actor_state=nxt,
        action=datatypes.Action(data=data, valid=jnp.ones(base.shape[:-1] + (1,), bool)),
        is_controlled=params['mask'])

  return agents.actor_core_factory(init, select, f'actor{k}')


def layout(pairs, at, variant=0):
  """A log whose boxes overlap at step `at` for exactly the given pairs."""
  log = scenes.np_traj(scenes.log_traj(N, T, variant=variant))
  log['x'] = (40.0 * np.arange(N)[:, None] + 0.5 * np.arange(T)).astype(np.float32)
  log['y'] = (np.zeros((N, T)) + 0.25 * np.arange(T)).astype(np.float32)
  log['yaw'] = np.full((N, T), 0.25, np.float32)
  log['length'] = np.full((N, T), 4.0, np.float32)
  log['width'] = np.full((N, T), 2.0, np.float32)
  group = list(range(N))
  pos = {0: 0.0, 1: 40.0, 2: 80.0}
  if len(pairs) == 1:
    a, b = pairs[0]
    pos[b] = pos[a] + 3.0
  elif len(pairs) == 2:  # a chain: the middle one overlaps both ends
    mid = (set(pairs[0]) & set(pairs[1])).pop()
    ends = [o for o in group if o != mid]
    pos[ends[0]], pos[ends[1]] = pos[mid] - 3.0, pos[mid] + 3.0
  elif len(pairs) == 3:
    pos = {0: 0.0, 1: 1.0, 2: 2.0}
  c, s = np.cos(0.25), np.sin(0.25)
  for o in group:
    log['x'][o, at], log['y'][o, at] = pos[o] * c, pos[o] * s
  for t in range(T):  # everyone far apart at the other steps
    if t != at:
      log['x'][:, t] = 40.0 * np.arange(N) + 0.5 * t
  return log


def subsets(xs):
  return [c for r in range(len(xs) + 1) for c in itertools.combinations(xs, r)]


def _env(dyn, acts, params, inject):
  return wenv.PlanningAgentEnvironment(
      dyn, wconfig.EnvironmentConfig(max_num_objects=N, init_steps=INIT,
                                     allow_new_objects_after_warmup=inject),
      acts, params)


def _expected(log, pairs, at, sdc, masks, gains, dynfn, acts, inject):
  """Reference trajectory for one case (NumPy loop over objects and agents)."""
  sim = ref.reset(log, INIT)
  meta_sdc = np.arange(N) == sdc
  blocked = np.zeros(N, bool)
  if at == 0:
    for a, b in pairs:
      if log['valid'][a, 0] and log['valid'][b, 0]:
        blocked[a] = blocked[b] = True
  for step, t in enumerate(range(INIT - 1, T - 1)):
    cur = {f: sim[f][:, t].astype(np.float64) for f in ref.POSE}
    upd = dynfn(cur, np.repeat(np.asarray(acts[step], np.float64)[None], N, 0))
    ctrl = meta_sdc.copy()
    upd = {f: np.array(v) for f, v in upd.items()}
    upd['valid'] = np.zeros(N, bool)  # poses given to absent objects
    for k in range(len(masks)):
      for o in range(N):
        if masks[k][o] and not blocked[o]:
          ctrl[o] = upd['valid'][o] = True
          for i, f in enumerate(ref.POSE):
            upd[f][o] = cur[f][o] + gains[k] * (1 + step) * OFFSETS[k][i]
    sim = ref.step(sim, log, t, ctrl, upd, inject)
  return sim


def _same(ck, tag, got, want, detail):
  for f in scenes.TRAJ_FIELDS:
    g, w = np.asarray(got[f]), np.asarray(want[f])
    if f in ('valid', 'timestamp_micros'):
      good = g == w
    elif f == 'yaw':
      good = ref.ang_close(g, w, 1e-3)
    else:
      good = np.abs(g - w) <= 1e-3 + 1e-5 * np.abs(w)
    if not np.all(good):
      i = tuple(int(v) for v in np.argwhere(~good)[0])
      return ck.fail(f'{tag}/{f}', {'where': i, 'got': g[i], 'want': w[i],
                                    'case': detail})
  return None


DYNS = {
    'DeltaGlobal': (dynamics.DeltaGlobal, ref.delta_global,
                    [[1.5, -0.5, 0.25], [-1.0, 2.0, 0.5], [0.5, 0.5, 0.0]]),
    'Bicycle': (dynamics.InvertibleBicycleModel, ref.bicycle,
                [[2.0, 0.1], [-3.0, -0.2], [5.0, 0.25]]),
}


def claims(ck):
  """Every pair of claims by two agents x every initial overlap pattern."""
  ck.rule = ('whole episodes for every (claims of agent 1, claims of agent 2, '
             'initially overlapping pairs, ego index, late entry)')
  m1, m2 = (np.repeat(MASKS, len(MASKS), 0), np.tile(MASKS, (len(MASKS), 1)))
  acts = [actor(0), actor(1)]
  for name, (make, fn, ego_acts) in DYNS.items():
    for inject in (True, False):
      def episode(log, sdc, a, b):
        params = [{'mask': a, 'gain': 1.0}, {'mask': b, 'gain': -0.5}]
        env = _env(make(), acts, params, inject)
        meta = scenes.metadata(N)
        meta = meta.replace(is_sdc=jnp.arange(N) == sdc)
        s = env.reset(scenes.state(log, meta))
        counts = []
        for act in ego_acts:
          s = env.step(s, datatypes.Action(data=jnp.array(act, jnp.float32),
                                           valid=jnp.ones((1,), bool)))
          counts.append([x['calls'] for x in s.sim_agent_actor_states])
        return s.sim_trajectory, s.timestep, counts, [
            x['started'] for x in s.sim_agent_actor_states]
      fn_v = jax.jit(jax.vmap(episode, (None, None, 0, 0)))
      for pi, pairs in enumerate(subsets(PAIRS)):
        for at, gone in [(0, None), (1, None), (3, None), (0, 0), (0, 1), (0, 2)]:
          if not pairs and at or (at and not ck.thorough and len(pairs) != 1):
            continue
          lg = layout(pairs, at)
          lg['valid'] = np.ones((N, T), bool)
          lg['valid'][(pi + 1) % N, 3] = False
          lg['valid'][pi % N, 1] = pi % 2 == 0
          if gone is not None:  # one object is absent from the first step
            lg['valid'][gone, 0] = False
          for sdc in range(N) if ck.thorough else (pi % N,):
            traj, t, counts, started = fn_v(scenes.traj(**lg), sdc, m1, m2)
            tag = f'claims/{name}/inject={inject}/at={at}'
            got = scenes.np_traj(traj)
            ck.check((np.asarray(t) == T - 1).all(), f'{tag}/clock')
            ck.close(f'{tag}/actor-state', np.asarray(counts)[:, :, 0],
                     np.repeat(np.arange(1, T - INIT + 1)[:, None], 2, 1))
            ck.close(f'{tag}/actor-init', np.asarray(started),
                     np.repeat(INIT - 1 + 100 * np.arange(2)[:, None],
                               len(m1), 1))
            for i in range(len(m1)):
              want = _expected(lg, pairs, at, sdc, (m1[i], m2[i]), (1.0, -0.5),
                               fn, ego_acts, inject)
              _same(ck, tag, {f: v[i] for f, v in got.items()}, want,
                    {'masks': [m1[i], m2[i]], 'pairs': pairs, 'at': at,
                     'gone': gone, 'sdc': sdc})
              ck.state(repr((name, inject, pairs, at, gone, sdc, i)).encode())
            ck.transitions += len(m1) * (T - INIT)
            ck.validated += len(m1)
            ck.part('claim patterns', len(m1))
  ck.sample({'agents': 2, 'objects': N, 'claims': '64 pairs of masks',
             'overlap patterns': [list(p) for p in subsets(PAIRS)]})


def counts_and_order(ck):
  """0 to 3 agents in every order; parameters and states stay with their agent."""
  lg = layout((), 0)
  for k in range(0, 4):
    for order in itertools.permutations((0, 1, 0)[:k]):
      acts = [actor(a) for a in order]
      masks = [np.array([True, i != 1, i != 2]) for i in range(k)]
      gains = [1.0 + 0.5 * i for i in range(k)]
      params = [{'mask': jnp.asarray(m), 'gain': g} for m, g in zip(masks, gains)]
      env = _env(dynamics.DeltaGlobal(), acts, params, True)
      s = env.reset(scenes.state(scenes.traj(**lg), scenes.metadata(N, sdc=1)))
      ego = [[1.0, 2.0, 0.25]] * (T - INIT)
      step = jax.jit(env.step)
      for a in ego:
        s = step(s, datatypes.Action(data=jnp.array(a), valid=jnp.array([True])))
      # reference with this order
      sim = ref.reset(lg, INIT)
      for st, t in enumerate(range(INIT - 1, T - 1)):
        cur = {f: sim[f][:, t].astype(np.float64) for f in ref.POSE}
        upd = ref.delta_global(cur, np.repeat(np.array([ego[st]]), N, 0))
        ctrl = np.arange(N) == 1
        upd['valid'] = np.any(masks, axis=0)
        for i in range(k):
          for j, f in enumerate(ref.POSE):
            upd[f] = np.where(masks[i], cur[f] + gains[i] * (1 + st) *
                              OFFSETS[order[i]][j], upd[f])
          ctrl = ctrl | masks[i]
        sim = ref.step(sim, lg, t, ctrl, upd, True)
      _same(ck, f'order/{order}', scenes.np_traj(s.sim_trajectory), sim, order)
      ck.check(len(s.sim_agent_actor_states) == k and all(
          int(x['calls']) == T - INIT for x in s.sim_agent_actor_states),
               f'order/{order}/states')
      ck.part('agent lists', 1)
      ck.transitions += T - INIT
      ck.validated += 1
  # mismatched lists are refused
  for na, np_ in ((1, 0), (0, 1), (2, 1)):
    try:
      _env(dynamics.DeltaGlobal(), [actor(0)] * na,
           [{'mask': jnp.ones(N, bool), 'gain': 1.0}] * np_, True)
      ck.fail(f'mismatch/{na}/{np_}', 'accepted')
    except ValueError:
      ck.part('mismatched lists refused', 1)
  for mode in ('MODELED', 'VALID', 'NON_SDC'):
    try:
      wenv.PlanningAgentEnvironment(
          dynamics.DeltaGlobal(), wconfig.EnvironmentConfig(
              controlled_object=wconfig.ObjectType[mode]))
      ck.fail(f'non-ego control accepted/{mode}')
    except ValueError:
      ck.part('other control modes refused', 1)


def randomness(ck):
  """Each agent gets its own key, for the initial state and for each step."""
  def key_actor():
    init = lambda rng, state: jax.random.key_data(rng) if jnp.issubdtype(
        rng.dtype, jax.dtypes.prng_key) else rng
    def select(params, state, actor_state, rng):
      n = state.num_objects
      return agents.WaymaxActorOutput(
          actor_state=rng,
          action=datatypes.Action(data=jnp.zeros((n, 5)),
                                  valid=jnp.ones((n, 1), bool)),
          is_controlled=jnp.zeros((n,), bool))
    return agents.actor_core_factory(init, select)
  for k in (1, 2, 3):
    env = _env(dynamics.DeltaGlobal(), [key_actor() for _ in range(k)],
               [None] * k, True)
    st = scenes.state(scenes.traj(**layout((), 0)), scenes.metadata(N))
    seen = []
    for seed in (0, 1, 2):
      s = env.reset(st, jax.random.PRNGKey(seed))
      seen += [tuple(np.asarray(x).tolist()) for x in s.sim_agent_actor_states]
      again = env.reset(st, jax.random.PRNGKey(seed))
      ck.check(all(np.array_equal(a, b) for a, b in zip(
          s.sim_agent_actor_states, again.sim_agent_actor_states)),
               'keys/reset-not-deterministic')
      for step_seed in (10, 11):
        s2 = env.step(s, datatypes.Action(data=jnp.zeros(3),
                                          valid=jnp.ones((1,), bool)),
                      jax.random.PRNGKey(step_seed))
        ks = [tuple(np.asarray(x).tolist()) for x in s2.sim_agent_actor_states]
        ck.check(len(set(ks)) == k, f'keys/step/{k}', ks)
        ck.transitions += 1
    ck.check(len(set(seen)) == 3 * k, f'keys/reset/{k}', seen)
    ck.part('key splits', 3)


PARTS = [claims, counts_and_order, randomness]


def single_agent_dynamics(ck):
  """The environment's dynamics model applied directly to one action."""
  for name, (make, fn, ego_acts) in DYNS.items():
    for batch in ((), (2,)):
      log = scenes.log_traj(N, T, variant=1, batch=batch,
                            valid=[[1, 1, 0, 1, 1], [1, 0, 1, 1, 0], [1] * 5])
      sim0 = scenes.log_traj(N, T, variant=2, batch=batch,
                             valid=[[1, 1, 1, 1, 1], [1, 0, 0, 1, 0], [0] * 5])
      model = _env(make(), (), (), True).dynamics
      spec, inner = model.action_spec(), make().action_spec()
      ck.check(tuple(spec.shape) == tuple(inner.shape) and
               np.array_equal(spec.minimum, inner.minimum) and
               np.array_equal(spec.maximum, inner.maximum), f'model/{name}/spec')
      for inject, t, sdc in itertools.product((None, True, False), (0, 1, 3),
                                              range(N)):
        for a in ego_acts[:2]:
          act = datatypes.Action(
              data=jnp.broadcast_to(jnp.array(a, jnp.float32), batch + (len(a),)),
              valid=jnp.ones(batch + (1,), bool))
          ctrl = np.broadcast_to(np.arange(N) == sdc, batch + (N,))
          kw = (inject,) if inject is not None else ()
          out = model.forward(act, sim0, log, jnp.asarray(ctrl), t, *kw)
          s0, l0 = scenes.np_traj(sim0), scenes.np_traj(log)
          cur = {f: s0[f][..., t].astype(np.float64) for f in ref.POSE}
          upd = fn(cur, np.broadcast_to(np.asarray(a), batch + (N, len(a))))
          want = ref.step(s0, l0, t, ctrl, upd, inject is not False)
          tag = f'model/{name}/inject={inject}/t={t}'
          _same(ck, tag, scenes.np_traj(out), want, {'sdc': sdc})
          ck.transitions += 1
          ck.validated += 1
          ck.part('direct dynamics calls', 1)
        meta = scenes.metadata(N, sdc=sdc, batch=batch)
        one = model.inverse(log, meta, t)
        full = make().inverse(log, meta, t)
        ck.close(f'model/{name}/inverse', one.data,
                 np.asarray(full.data)[..., sdc, :], atol=1e-6)
        ck.close(f'model/{name}/inverse-valid', one.valid,
                 np.asarray(full.valid)[..., sdc, :])


PARTS.append(single_agent_dynamics)
