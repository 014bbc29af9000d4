"""Small synthetic scenarios, built with the public data structures only."""
import numpy as np
import jax.numpy as jnp
from waymax import datatypes

MICROS = 100_000
PI = np.pi

TRAJ_FIELDS = ('x', 'y', 'z', 'vel_x', 'vel_y', 'yaw', 'valid',
               'timestamp_micros', 'length', 'width', 'height')
DTYPES = dict(valid=bool, timestamp_micros=np.int32)


def traj(**kw):
  """Trajectory from numpy arrays (all fields the same shape)."""
  shape = np.shape(kw['x'])
  out = {}
  for f in TRAJ_FIELDS:
    dt = DTYPES.get(f, np.float32)
    v = kw.get(f)
    if v is None:
      v = {'valid': np.ones(shape, bool)}.get(f, np.zeros(shape))
    out[f] = jnp.asarray(np.broadcast_to(np.asarray(v), shape).astype(dt))
  return datatypes.Trajectory(**out)


def np_traj(t):
  return {f: np.array(getattr(t, f)) for f in TRAJ_FIELDS}


def log_traj(num_objects, num_steps, valid=None, variant=0, batch=()):
  """A log in which every field of every (object, step) cell is distinct.

  Distinct values make any mix-up of object, step, field or source visible.
  variant shifts positions (origin / far from origin / negative), headings
  cover all quadrants and the +-pi seam.
  """
  shape = tuple(batch) + (num_objects, num_steps)
  nb = int(np.prod(batch)) if batch else 1
  b = np.arange(nb).reshape(tuple(batch) + (1, 1)) if batch else np.zeros((1, 1))
  o = np.arange(num_objects)[:, None]
  t = np.arange(num_steps)[None, :]
  off = [0.0, 2048.0, -517.5][variant % 3]
  yaw0 = np.array([0.0, 3.125, -3.125, 1.5, -1.625, 0.75, -0.5, 2.25])
  yaw = yaw0[(o + variant) % 8] + 0.03125 * (t - 2) + 0 * b
  yaw = (yaw + PI) % (2 * PI) - PI
  sgn = np.where(o % 2 == 0, 1.0, -1.0)
  speed = 2.0 + 3.0 * ((o + variant) % 4)
  x = off + 40.0 * o + 0.5 * (t + 1) * sgn + 100.0 * b + 0.015625 * t * t
  y = -off + 7.0 * o - 0.25 * (t + 1) + 3.0 * b * sgn
  z = 1.5 * o + 0.125 * t + b
  vx = speed * np.cos(yaw) + 0.0625 * t + 0 * b
  vy = speed * np.sin(yaw) - 0.03125 * t + 0 * b
  out = dict(
      x=x, y=y, z=z, vel_x=vx, vel_y=vy, yaw=yaw,
      timestamp_micros=MICROS * t + 7 * o + 1_000_000 * b,
      length=4.0 + 0.5 * o + 0.25 * b, width=1.75 + 0.125 * o + 0 * b,
      height=1.5 + 0.0625 * o + 0 * b)
  out = {k: np.broadcast_to(v, shape) for k, v in out.items()}
  if valid is None:
    valid = np.ones(shape, bool)
  valid = np.broadcast_to(np.asarray(valid, bool), shape)
  out['valid'] = valid
  return traj(**out)


def metadata(num_objects, sdc=0, modeled=None, is_valid=None, batch=(),
             types=None):
  shape = tuple(batch) + (num_objects,)
  o = np.broadcast_to(np.arange(num_objects), shape)
  sdc = np.asarray(sdc)
  is_sdc = o == (sdc[..., None] if sdc.ndim else sdc)
  if modeled is None:
    modeled = o % 2 == 1
  if is_valid is None:
    is_valid = np.ones(shape, bool)
  if types is None:
    types = 1 + o % 3
  bc = lambda v, dt: jnp.asarray(np.broadcast_to(np.asarray(v), shape).astype(dt))
  return datatypes.ObjectMetadata(
      ids=bc(101 + 3 * o, np.int32), object_types=bc(types, np.int32),
      is_sdc=bc(is_sdc, bool), is_modeled=bc(modeled, bool),
      is_valid=bc(is_valid, bool), objects_of_interest=bc(o % 3 == 1, bool),
      is_controlled=bc(o % 2 == 0, bool))


def traffic_lights(num_lights, num_steps, batch=()):
  shape = tuple(batch) + (num_lights, num_steps)
  l = np.arange(num_lights)[:, None]
  t = np.arange(num_steps)[None, :]
  bc = lambda v, dt: jnp.asarray(np.broadcast_to(v, shape).astype(dt))
  return datatypes.TrafficLights(
      x=bc(5.0 * l + 0.5 * t, np.float32), y=bc(-3.0 * l + 0.25 * t, np.float32),
      z=bc(1.0 * l + 0 * t, np.float32), state=bc((l + t) % 9, np.int32),
      lane_ids=bc(900 + l + 0 * t, np.int32), valid=bc((l + t) % 3 != 0, bool))


def roadgraph(num_points, batch=(), variant=0):
  """A wiggly line of road points; a third are road edges, some invalid."""
  shape = tuple(batch) + (num_points,)
  i = np.arange(num_points)
  bc = lambda v, dt: jnp.asarray(np.broadcast_to(v, shape).astype(dt))
  ang = 0.25 * i
  types = np.array([15, 2, 16, 6, 15, 1, 17, 18])[(i // 3 + variant) % 8]
  return datatypes.RoadgraphPoints(
      x=bc(1.5 * i - 4.0, np.float32), y=bc(2.0 * np.sin(0.5 * i) + 3, np.float32),
      z=bc(0.25 * i, np.float32), dir_x=bc(np.cos(ang), np.float32),
      dir_y=bc(np.sin(ang), np.float32), dir_z=bc(0 * i, np.float32),
      types=bc(types, np.int32), ids=bc(50 + i // 3, np.int32),
      valid=bc(i % 5 != 4, bool))


def paths(num_paths, num_points, batch=(), on_route=None, valid=None):
  shape = tuple(batch) + (num_paths, num_points)
  p = np.arange(num_paths)[:, None]
  i = np.arange(num_points)[None, :]
  bc = lambda v, dt, s=shape: jnp.asarray(np.broadcast_to(v, s).astype(dt))
  if on_route is None:
    on_route = (p % 2 == 0)
  if valid is None:
    valid = i >= 0
  return datatypes.Paths(
      x=bc(1.0 * i + 0.0 * p, np.float32), y=bc(2.0 * p + 0.0 * i, np.float32),
      z=bc(0.0 * i + 0.0 * p, np.float32), ids=bc(10 * p + i // 4, np.int32),
      valid=bc(valid, bool), arc_length=bc(1.0 * i + 0.0 * p, np.float32),
      on_route=bc(on_route, bool, tuple(batch) + (num_paths, 1)))


def state(log, meta=None, sim=None, timestep=0, tl=2, rg=12, sdc_paths=None):
  """SimulatorState around a log (sim defaults to the log itself)."""
  batch = log.shape[:-2]
  n, t = log.shape[-2:]
  if meta is None:
    meta = metadata(n, batch=batch)
  return datatypes.SimulatorState(
      sim_trajectory=sim if sim is not None else log,
      log_trajectory=log,
      log_traffic_light=traffic_lights(tl, t, batch),
      object_metadata=meta,
      timestep=jnp.asarray(timestep, jnp.int32),
      sdc_paths=sdc_paths,
      roadgraph_points=roadgraph(rg, batch) if rg else None)
