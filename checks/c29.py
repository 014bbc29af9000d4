"""C29: exporting a running simulation keeps its history."""
import itertools

import jax
import jax.numpy as jnp
from jax.experimental import checkify
import numpy as np
import tensorflow as tf
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv
from waymax import config as wconfig
from waymax.dataloader import womd_factories
from waymax.dataloader import womd_utils

from checks.c28 import equal
from wmc import core
from wmc import scenes

LEVEL = 'model_checking'
RG, TL = 6, 2
FIELDS = (('x', 'x'), ('y', 'y'), ('z', 'z'), ('vel_x', 'velocity_x'),
          ('vel_y', 'velocity_y'), ('yaw', 'bbox_yaw'), ('valid', 'valid'),
          ('timestamp_micros', 'timestamp_micros'), ('length', 'length'),
          ('width', 'width'), ('height', 'height'))


def description(n, history, future):
  """The WOMD description with other numbers of steps."""
  out = {}
  for k, f in womd_utils.get_features_description(
      max_num_objects=n, max_num_rg_points=RG, num_tls=TL).items():
    shape = list(f.shape)
    if '/past/' in k:
      shape = [history if d == 10 else d for d in shape]
    if '/future/' in k:
      shape = [future if d == 80 else d for d in shape]
    out[k] = tf.io.FixedLenFeature(shape, f.dtype)
  return out


def scene(n, steps, t, variant):
  """A state at time t whose simulation is not its log."""
  o, s = np.arange(n)[:, None], np.arange(steps)[None]
  valid = [(o + s) >= 0, ((o + s) % 3) != 1, (o != 1) & (s + o != 2),
           (o == 0) | (s > t)][variant % 4]
  log = scenes.log_traj(n, steps, valid, variant)
  shared = jnp.broadcast_to(scenes.MICROS * jnp.arange(steps) + 55,
                            (n, steps)).astype(jnp.int32)
  log = log.replace(timestamp_micros=shared)
  flip = np.asarray(valid) & ((o * 3 + s * 5 + variant) % 7 != 0)
  known = s <= t
  f = lambda x, d: jnp.where(known, x + d, 0).astype(x.dtype)
  sim = log.replace(
      x=f(log.x, 3.5), y=f(log.y, -1.25), z=f(log.z, 0.5),
      vel_x=f(log.vel_x, 0.125), vel_y=f(log.vel_y, -0.75),
      yaw=f(log.yaw, 0.0625), valid=jnp.asarray(flip & known),
      timestamp_micros=f(log.timestamp_micros, 0))
  ok = [np.ones(n, bool), np.arange(n) % 2 == 0, np.arange(n) != 1,
        np.arange(n) > 0][variant % 4]
  meta = scenes.metadata(n, sdc=variant % n, is_valid=ok,
                         modeled=(np.arange(n) + variant) % 2 == 0)
  return scenes.state(log, meta, sim, t, TL, RG)


def reference(state, h, fut):
  """The dictionary in numpy."""
  s = jax.tree_util.tree_map(np.asarray, state)
  t = int(s.timestep)
  out = {}
  traj = s.sim_trajectory
  for time, (a, b) in (('past', (t - h, t)), ('current', (t, t + 1))):
    cut = lambda x: x[..., a:b]
    for f, k in FIELDS:
      out[f'state/{time}/{k}'] = cut(getattr(traj, f))
    v = cut(traj.valid)
    vx, vy = cut(traj.vel_x), cut(traj.vel_y)
    out[f'state/{time}/speed'] = np.where(v, np.hypot(vx, vy), -1)
    out[f'state/{time}/vel_yaw'] = np.where(v, np.arctan2(vy, vx), -1)
    tl = s.log_traffic_light
    for f, k in (('x', 'x'), ('y', 'y'), ('z', 'z'), ('state', 'state'),
                 ('valid', 'valid'), ('lane_ids', 'id')):
      out[f'traffic_light_state/{time}/{k}'] = cut(getattr(tl, f)).T
    out[f'traffic_light_state/{time}/timestamp_micros'] = (
        cut(traj.timestamp_micros)[0])
  m = s.object_metadata
  for k, v in (('type', m.object_types), ('id', m.ids), ('is_sdc', m.is_sdc),
               ('objects_of_interest', m.objects_of_interest),
               ('tracks_to_predict', m.is_modeled)):
    out[f'state/{k}'] = np.where(m.is_valid, v.astype(np.int32), -1)
  rg = s.roadgraph_points
  out['roadgraph_samples/xyz'] = np.stack([rg.x, rg.y, rg.z], -1)
  out['roadgraph_samples/dir'] = np.stack([rg.dir_x, rg.dir_y, rg.dir_z], -1)
  for k, v in (('id', rg.ids), ('type', rg.types), ('valid', rg.valid)):
    out[f'roadgraph_samples/{k}'] = v[..., None]
  return out


def reimport(ck, tag, state, got, t, h, future, n):
  """Reading the export back gives the simulated history and nothing more."""
  traj = jax.tree_util.tree_map(np.asarray, state.sim_trajectory)
  ex = {k: np.asarray(v) for k, v in got.items()}
  for f, _ in FIELDS + (('speed', 0), ('vel_yaw', 0)):
    for k in ([k for _, k in FIELDS] + ['speed', 'vel_yaw']):
      pre = [f'state/{w}/{k}' for w in ('past', 'current', 'future')]
      ex[f'state/all/{k}'] = np.concatenate([ex[p] for p in pre], -1)
    break
  for k in ('x', 'y', 'z', 'state', 'valid', 'id'):
    pre = [f'traffic_light_state/{w}/{k}' for w in ('past', 'current', 'future')]
    ex[f'traffic_light_state/all/{k}'] = np.concatenate([ex[p] for p in pre], 0)
  for time, (a, b) in (('past', (t - h, t)), ('current', (t, t + 1)),
                       ('all', (t - h, t + 1))):
    back = womd_factories.simulator_state_from_womd_dict(ex, time_key=time)
    log = back.log_trajectory
    known = slice(0, b - a)
    valid = traj.valid[:, a:b]
    for f, _ in FIELDS:
      w = getattr(traj, f)[:, a:b]
      g = np.asarray(getattr(log, f))[:, known]
      if f in ('length', 'width', 'height'):
        ck.close(f'{tag}/reread/{time}/{f}', g, w,
                 mask=valid.any(-1, keepdims=True))
      else:
        equal(ck, f'{tag}/reread/{time}/{f}', g, w)
    if time == 'all':
      ck.check(not np.asarray(log.valid)[:, b - a:].any(),
               f'{tag}/reread/the future is invalid',
               {'valid': np.asarray(log.valid)})
      ck.check(not np.asarray(back.log_traffic_light.valid)[:, b - a:].any(),
               f'{tag}/reread/future lights are invalid')
    tl, was = back.log_traffic_light, state.log_traffic_light
    for f in ('x', 'y', 'z', 'state', 'lane_ids', 'valid'):
      equal(ck, f'{tag}/reread/{time}/lights {f}',
            np.asarray(getattr(tl, f))[:, known],
            np.asarray(getattr(was, f))[:, a:b])
    m, o = back.object_metadata, state.object_metadata
    ok = np.asarray(o.is_valid)
    for f in ('ids', 'object_types', 'is_sdc', 'is_modeled',
              'objects_of_interest', 'is_valid'):
      equal(ck, f'{tag}/reread/{time}/{f}', np.asarray(getattr(m, f))[ok],
            np.asarray(getattr(o, f))[ok])
    ck.check(not np.asarray(m.is_valid)[~ok].any(),
             f'{tag}/reread/{time}/invalid objects stay invalid')
    ck.check(bool(back.roadgraph_points == state.roadgraph_points),
             f'{tag}/reread/{time}/road')


def compare(ck, tag, got, state, h, future, desc):
  want = reference(state, h, future)
  ck.check(set(got) == set(desc), f'{tag}/keys', sorted(set(got) ^ set(desc)))
  for k, spec in desc.items():
    if k not in got:
      continue
    g = np.asarray(got[k])
    ck.check(list(g.shape) == list(spec.shape), f'{tag}/{k}/shape', g.shape)
    kind = 'f' if spec.dtype.is_floating else 'i'
    ck.check(g.dtype.kind == kind, f'{tag}/{k}/type', str(g.dtype))
    if '/future/' in k:
      if k.endswith('/valid'):
        ck.check((g <= 0).all(), f'{tag}/{k}/no future', g)
      elif k.startswith('state/'):
        ck.check((g == -1).all(), f'{tag}/{k}/no future', g)
      else:
        ck.check((g == -1).all(), f'{tag}/{k}/no future', g)
      continue
    w = want[k].reshape(g.shape)
    if k.endswith('speed') or k.endswith('vel_yaw'):
      ck.close(f'{tag}/{k}', g, w, atol=1e-4, rtol=1e-5)
    else:
      equal(ck, f'{tag}/{k}', g, w.astype(g.dtype))


@core.sharded
def export(ck):
  """Object count x history x time x validity."""
  for n, h, future, variant in itertools.product(
      (1, 3) if not ck.thorough else (1, 2, 3, 5), (1, 2, 4),
      (1, 3), range(4)):
    steps = h + 4
    if not ck.mine((n, h, future)):
      continue
    desc = description(n, h, future)
    fn = lambda s: womd_utils.simulator_state_to_womd_dict(s, desc)
    jfn = jax.jit(fn)
    for t in range(h, steps):
      tag = f'export/n={n}/history={h}/future={future}/t={t}/v={variant}'
      st = scene(n, steps, t, variant)
      got = jfn(st)
      compare(ck, tag, got, st, h, future, desc)
      reimport(ck, tag, st, got, t, h, future, n)
      ck.state(got)
      ck.transitions += 1
      ck.part('export')
      if t == h + variant % 2:
        plain = fn(st)
        compare(ck, f'{tag}/eager', plain, st, h, future, desc)
        tfd = womd_utils.simulator_state_to_womd_dict_tensorflow(st, desc)
        compare(ck, f'{tag}/tensorflow', {k: v.numpy() for k, v in tfd.items()},
                st, h, future, desc)
        ck.check(all(isinstance(v, tf.Tensor) for v in tfd.values()),
                 f'{tag}/tensors')
        # Only what is asked for.
        keep = ('state/past/bbox_yaw', 'state/id', 'state/future/valid',
                'traffic_light_state/current/x')
        few = {k: v for k, v in desc.items() if k in keep}
        sub = womd_utils.simulator_state_to_womd_dict(st, few)
        ck.check(set(sub) == set(keep), f'{tag}/only what is asked for',
                 sorted(sub))
        for k in keep:
          equal(ck, f'{tag}/subset/{k}', sub.get(k), got[k])
        ck.part('eager, tensorflow, subset', 3)


@core.sharded
def guard(ck):
  """validate=True accepts exactly the first moment with enough history."""
  n = 2
  for h in (1, 2, 3):
    if not ck.mine():
      continue
    desc = description(n, h, 1)
    fn = lambda s: womd_utils.simulator_state_to_womd_dict(s, desc,
                                                           validate=True)
    checked = jax.jit(checkify.checkify(fn))
    for t in range(0, h + 4):
      st = scene(n, h + 4, t, 0)
      err, got = checked(st)
      refused = err.get() is not None
      ck.check(refused == (t != h), f'guard/history={h}/t={t}',
               {'error': err.get()})
      if t == h:
        compare(ck, f'guard/history={h}/t={t}', got, st, h, 1, desc)
      ck.transitions += 1
      ck.part('guard')


@core.sharded
def running(ck):
  """The export of a state reached by stepping the environment."""
  n, steps, h = 3, 8, 2
  for variant, init in itertools.product(range(4), (1, 2, 3)):
    if not ck.mine():
      continue
    desc = description(n, h, 2)
    log = scenes.log_traj(n, steps, variant=variant)
    st = scenes.state(log, scenes.metadata(n, sdc=variant % n), timestep=-1,
                      tl=TL, rg=RG)
    st = st.replace(timestep=jnp.asarray(0))
    env = wenv.MultiAgentEnvironment(
        dynamics.DeltaGlobal(), wconfig.EnvironmentConfig(
            max_num_objects=n, init_steps=init))
    step = jax.jit(env.step)
    fn = jax.jit(lambda s: womd_utils.simulator_state_to_womd_dict(s, desc))
    st = jax.jit(env.reset)(st)
    while not bool(st.is_done):
      t = int(st.timestep)
      if t >= h:
        got = fn(st)
        tag = f'running/v={variant}/init={init}/t={t}'
        shared = st.replace()
        compare(ck, tag, got, shared, h, 2, desc)
        reimport(ck, tag, shared, got, t, h, 2, n)
        ck.state(got)
        ck.part('running')
      data = jnp.asarray(np.stack([
          0.3 * np.arange(n) - 0.2 * t, 0.1 * t - 0.2 * np.arange(n),
          0.05 * np.arange(n)], -1), jnp.float32)
      st = step(st, datatypes.Action(data=data, valid=jnp.ones((n, 1), bool)))
      ck.transitions += 1
  ck.rule = ('every number of objects, history length, export time and '
             'validity pattern: the dictionary equals the simulated history '
             'and reads back as it')


PARTS = [export, guard, running]
