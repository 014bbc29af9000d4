"""C14: background traffic follows its logged path at the IDM speed."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import agents
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv

from wmc import core
from wmc import ref
from wmc import refidm
from wmc import scenes

LEVEL = 'model_checking'
PI = np.pi


def stack(states):
  return jax.tree_util.tree_map(lambda *x: jnp.stack(x), *states)


def run_batch(policy, logs, sims, t, n):
  """policy.select_action on many scenes (dicts with leading axis)."""
  def one(lg, sm):
    st = scenes.state(datatypes.Trajectory(**lg), scenes.metadata(n, sdc=0),
                      datatypes.Trajectory(**sm), t, rg=0)
    out = policy.select_action(None, st, policy.init(None, st), None)
    return out.action.data, out.action.valid
  conv = lambda d: {f: jnp.asarray(v) for f, v in d.items()}
  a, b = jax.jit(jax.vmap(one))(conv(logs), conv(sims))
  return np.asarray(a, np.float64), np.asarray(b)[..., 0]


def road(n, T, heading, spacing=1.5, kind='straight', shift=0.0):
  """Logs of n objects driving one behind the other along one line."""
  out = scenes.np_traj(scenes.log_traj(n, T))
  s = spacing * np.arange(T)[None] + shift + 0 * np.arange(n)[:, None]
  if kind == 'straight':
    x, y, yaw = s * np.cos(heading), s * np.sin(heading), heading + 0 * s
  elif kind == 'bend':
    r = 18.0
    x = r * (np.sin(heading + s / r) - np.sin(heading))
    y = -r * (np.cos(heading + s / r) - np.cos(heading))
    yaw = heading + s / r
  else:  # parks half way
    s = np.minimum(s, s[:, T // 2:T // 2 + 1])
    x, y, yaw = s * np.cos(heading), s * np.sin(heading), heading + 0 * s
  out['x'], out['y'] = x.astype(np.float32), y.astype(np.float32)
  out['yaw'] = ((yaw + PI) % (2 * PI) - PI).astype(np.float32)
  out['z'] = np.zeros((n, T), np.float32)
  out['length'] = np.full((n, T), 4.5, np.float32)
  out['width'] = np.full((n, T), 2.0, np.float32)
  out['valid'] = np.ones((n, T), bool)
  return out


def _collect(cases):
  return {f: np.stack([c[f] for c in cases]) for f in cases[0]}


def _judge(ck, tag, data, valid, want, details):
  """want: list of (pose dict (N,), valid (N,), sure (N,)) per scene."""
  wd = np.stack([np.stack([w[0][f] for f in ref.POSE], -1) for w in want])
  wv = np.stack([w[1] for w in want])
  sure = np.stack([w[2] for w in want])
  for i, f in enumerate(ref.POSE):
    err = np.abs(data[..., i] - wd[..., i])
    if f == 'yaw':
      err = np.minimum(err, np.abs(np.abs(data[..., i] - wd[..., i]) - 2 * PI))
    bad = sure & (err > 3e-3 + 2e-4 * np.abs(wd[..., i]))
    if bad.any():
      k = tuple(int(v) for v in np.argwhere(bad)[0])
      ck.fail(f'{tag}/{f}', {'got': data[k + (i,)], 'want': wd[k + (i,)],
                             'object': k[1], 'case': details(k[0])})
  bad = sure & (valid != wv)
  if bad.any():
    k = tuple(int(v) for v in np.argwhere(bad)[0])
    ck.fail(f'{tag}/valid', {'got': valid[k], 'want': wv[k], 'object': k[1],
                             'case': details(k[0])})
  ck.outcome('judged', sure.sum())
  ck.outcome('not judged', (~sure).sum())


CONFIGS = [
    {},
    dict(desired_vel=12.0, min_spacing=1.0, safe_time_headway=1.25, max_accel=1.5,
         max_decel=3.0, delta=2.0, additional_lookahead_points=6,
         additional_lookahead_distance=15.0, invalidate_on_end=True),
]


def following(ck):
  """A follower, a leader and a third object, on a grid of placements."""
  ck.rule = ('every (configuration, gap, lateral offset, relative heading, speeds, '
             'validity, third object) on a grid against a NumPy IDM')
  n, T, t = 3, 10, 2
  grid = list(itertools.product(
      (-7.1, 2.3, 4.9, 6.45, 9.35, 13.3, 16.7, 21.0), (0.0, 1.55, 2.6),
      (0.0, 0.55, PI / 2), (0.0, 2.0, 8.0, 16.0), (0.0, 3.0, 11.0),
      (0, 1, 2, 3)))
  if not ck.thorough:
    grid = [g for i, g in enumerate(grid) if (i // 4 + i) % 2 == 0]
  for ci, over in enumerate(CONFIGS):
    cfg = {**refidm.IDM, **over}
    policy = agents.IDMRoutePolicy(**over)
    for heading in (0.4, -2.9) if not ck.thorough else (0.0, 0.4, 1.9, 3.1, -2.9, -1.2):
      c, s = np.cos(heading), np.sin(heading)
      logs, sims = [], []
      for k, (gap, lat, rel, v, vl, mode) in enumerate(grid):
        lg = road(n, T, heading, 1.4, shift=-1.0)
        sm = {f: a.copy() for f, a in lg.items()}
        put = lambda o, x, y, yaw, sp: [
            sm[f].__setitem__((o, t), val) for f, val in dict(
                x=c * x - s * y, y=s * x + c * y, yaw=ref.wrap(heading + yaw),
                vel_x=sp * np.cos(heading + yaw),
                vel_y=sp * np.sin(heading + yaw)).items()]
        put(0, 0.37, 0.21 * (k % 3), 0.0, v)
        put(1, gap, lat, rel, vl)
        put(2, gap + 3.1 if k % 5 else -30.0, -lat, 0.3, 5.5)
        # modes: all there; leader gone; follower gone; third gone
        sm['valid'][:, t] = [mode != 2, mode != 1, mode != 3]
        # Logs of objects 1 and 2 run elsewhere; only the present counts.
        for o in (1, 2):
          lg['x'][o] += 50.0 * o
        lg['valid'][0, 7] = k % 2 == 0
        logs.append(lg)
        sims.append(sm)
      data, valid = run_batch(policy, _collect(logs), _collect(sims), t, n)
      want, led = [], 0
      for lg, sm in zip(logs, sims):
        cur = {f: sm[f][:, t].astype(np.float64) if sm[f].dtype != bool else
               sm[f][:, t] for f in sm}
        lg64 = {f: lg[f].astype(np.float64) if f != 'valid' else lg[f] for f in lg}
        pose, ok, _, sure, ld = refidm.idm_step(cur, lg64, cfg)
        want.append((pose, ok, sure))
        led += int(ld.sum())
      _judge(ck, f'following/config={ci}/heading={heading}', data, valid, want,
             lambda i: grid[i])
      ck.outcome('behind a leader', led)
      ck.part('placements', len(grid))
      ck.transitions += len(grid)
      ck.validated += len(grid)
      for g in grid:
        ck.state(repr((ci, heading, g)).encode())
  ck.sample({'gap': grid[5][0], 'lateral': grid[5][1], 'speeds': grid[5][3:5]})


class Given(agents.WaypointFollowingPolicy):
  """A waypoint follower told its speeds (read off the sizes, for the test)."""

  def update_speed(self, state, dt=0.1):
    cur = state.current_sim_trajectory
    return cur.height[..., 0], cur.z[..., 0] > 0


def waypoints(ck):
  """Every pose and speed around straight, bending and parking logs."""
  T, t = 9, 3
  poses = list(itertools.product((-6.0, -1.03, 0.4, 3.3, 7.7, 11.9, 14.1), (0.0, 0.9, -3.1, 5.4),
                                 (0.0, 0.7, -2.0), (0.0, 0.6, 7.0), (0.0, 0.8, 9.0),
                                 (True, False)))
  n = len(poses)
  for kind, heading, invalidate, hole in itertools.product(
      ('straight', 'bend', 'parks'), (0.5, -3.0), (False, True), (0, 1, 2, 3)):
    lg = road(n, T, heading, 1.7, kind)
    sm = {f: a.copy() for f, a in lg.items()}
    c, s = np.cos(heading), np.sin(heading)
    for o, (x, y, yaw, v0, v1, ok) in enumerate(poses):
      sm['x'][o, t], sm['y'][o, t] = c * x - s * y, s * x + c * y
      sm['yaw'][o, t] = ref.wrap(heading + yaw)
      sm['vel_x'][o, t] = v0 * np.cos(heading + yaw)
      sm['vel_y'][o, t] = v0 * np.sin(heading + yaw)
      sm['height'][o, t] = v1
      sm['z'][o, t] = 1.0 if ok else -1.0
      sm['valid'][o, t] = o % 11 != 3
    # The unused log steps carry far-off values.
    gone = {0: [], 1: [0, 1], 2: [T - 1, T - 2], 3: [2, 4, 6]}[hole]
    for k in gone:
      lg['valid'][:, k] = False
      lg['x'][:, k] = -1.0 if hole == 1 else sm['x'][:, t]
      lg['y'][:, k] = -1.0 if hole == 1 else sm['y'][:, t]
    policy = Given(invalidate_on_end=invalidate)
    data, valid = run_batch(policy, {f: a[None] for f, a in lg.items()},
                            {f: a[None] for f, a in sm.items()}, t, n)
    pose, ok, sure = {f: np.zeros(n) for f in ref.POSE}, np.zeros(n, bool), np.zeros(n, bool)
    for o in range(n):
      cur = {f: float(sm[f][o, t]) for f in ref.POSE}
      cur['valid'] = sm['valid'][o, t]
      p, ok[o], sure[o] = refidm.project(
          cur, {f: lg[f][o].astype(np.float64) for f in ('x', 'y', 'yaw')},
          lg['valid'][o], float(sm['height'][o, t]), sm['z'][o, t] > 0, invalidate)
      for f in ref.POSE:
        pose[f][o] = p[f]
    _judge(ck, f'waypoints/{kind}/{heading}/invalidate={invalidate}/hole={hole}',
           data, valid, [(pose, ok, sure)], lambda i: (kind, heading, hole))
    ck.outcome('ended', int((~ok).sum()))
    ck.part('waypoint poses', n)
    ck.transitions += n
    ck.validated += n
    for o in range(0, n, 7):
      ck.state(repr((kind, heading, invalidate, hole, o)).encode())


@core.sharded
def queues(ck):
  """Closed loop: queues of traffic behind a stopping ego, step by step."""
  n, T, init = 4, 60 if not ck.thorough else 91, 1
  for over in CONFIGS[:1] + ([CONFIGS[1]] if ck.thorough else []):
    cfg = {**refidm.IDM, **over}
    policy = agents.IDMRoutePolicy(lambda s: ~s.object_metadata.is_sdc, **over)
    env = wenv.PlanningAgentEnvironment(
        dynamics.StateDynamics(), wconfig.EnvironmentConfig(
            max_num_objects=n, init_steps=init,
            metrics=wconfig.MetricsConfig(metrics_to_run=('overlap',))),
        [policy], [None])
    for gap, v, ego_v, head in itertools.product(
        (8.0, 14.0, 30.0), (2.0, 6.0, 12.0), (0.0, 3.0), (0.6, -2.5)):
      if not ck.mine():
        continue
      c, s = np.cos(head), np.sin(head)
      lg = road(n, T, head, 2.5)
      for o in range(n):  # 0 leads, then 1, 2, 3 behind
        for k in range(T):
          d = -gap * o + 2.2 * k  # the path reaches past the ego
          lg['x'][o, k], lg['y'][o, k] = d * c, d * s
        lg['vel_x'][o], lg['vel_y'][o] = v * c, v * s
      st = scenes.state(scenes.traj(**lg), scenes.metadata(n, sdc=0), rg=0)

      ego = np.stack([np.array([0.1 * k * ego_v * c, 0.1 * k * ego_v * s, head,
                                ego_v * c, ego_v * s]) for k in range(1, T)])

      def body(cur, a):
        nxt = env.step(cur, datatypes.Action(data=a, valid=jnp.ones(1, bool)))
        return nxt, env.metrics(nxt)['overlap'].value
      fin, _ = jax.jit(lambda x, e: jax.lax.scan(body, env.reset(x), e))(
          st, jnp.asarray(ego, jnp.float32))
      sim = scenes.np_traj(fin.sim_trajectory)
      lg64 = {f: lg[f].astype(np.float64) if f != 'valid' else lg[f] for f in lg}
      tag = f'queue/gap={gap}/v={v}/ego={ego_v}/heading={head}'
      blocked = gap <= 4.5
      worst = 0.0
      for t in range(init - 1, T - 1):
        cur = {f: sim[f][:, t].astype(np.float64) if f != 'valid' else
               sim[f][:, t] for f in sim}
        pose, ok, sp, sure, _ = refidm.idm_step(cur, lg64, cfg)
        for o in range(1, n):
          if not sure[o] or blocked:
            continue
          for f in ref.POSE:
            g = float(sim[f][o, t + 1])
            good = (ref.ang_close(g, pose[f][o], 3e-3) if f == 'yaw' else
                    abs(g - pose[f][o]) <= 4e-3 + 2e-4 * abs(pose[f][o]))
            ck.check(good, f'{tag}/{f}', {'t': t, 'object': o, 'got': g,
                                          'want': pose[f][o]})
        ck.transitions += 1
        ck.state((sim['x'][:, t], sim['y'][:, t], sim['vel_x'][:, t]))
        # Safety: whoever started with room never drives into the one ahead.
        along = sim['x'][:, t + 1] * c + sim['y'][:, t + 1] * s
        worst = min(worst, float((along[:-1] - along[1:]).min()) - 4.5)
      if v * 1.0 + 4.5 <= gap or v <= 2.0:
        ck.check(worst > -1e-2, f'{tag}/collision', worst)
        ck.outcome('safety judged')
      ck.part('queue episodes', 1)
      ck.validated += 1


PARTS = [following, waypoints, queues]
