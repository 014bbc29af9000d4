"""Reference model in plain NumPy (float64): dynamics and the env transition.

Independent of the implementation: written from the documented behaviour, no
import of waymax.  Trajectories are dicts of arrays (..., objects, steps).
"""
import numpy as np

PI = np.pi
DT = 0.1
POSE = ('x', 'y', 'yaw', 'vel_x', 'vel_y')


def wrap(a):
  """Angle in [-pi, pi)."""
  return (np.asarray(a, np.float64) + PI) % (2 * PI) - PI


def ang_close(a, b, atol=1e-4):
  """Equality of headings modulo a full turn."""
  d = wrap(np.asarray(a, np.float64) - np.asarray(b, np.float64))
  return np.abs(d) <= atol


def delta_global(cur, act, dt=DT):
  return dict(x=cur['x'] + act[..., 0], y=cur['y'] + act[..., 1],
              yaw=cur['yaw'] + act[..., 2], vel_x=act[..., 0] / dt,
              vel_y=act[..., 1] / dt)


def delta_local(cur, act, dt=DT):
  c, s = np.cos(cur['yaw']), np.sin(cur['yaw'])
  g = np.stack([c * act[..., 0] - s * act[..., 1],
                s * act[..., 0] + c * act[..., 1], act[..., 2]], -1)
  return delta_global(cur, g, dt)


def bicycle(cur, act, dt=DT, max_accel=6.0, max_steering=0.3, normalize=False):
  if normalize:
    a = np.clip(act[..., 0], -1, 1) * max_accel
    k = np.clip(act[..., 1], -1, 1) * max_steering
  else:
    a = np.clip(act[..., 0], -max_accel, max_accel)
    k = np.clip(act[..., 1], -max_steering, max_steering)
  v = np.hypot(cur['vel_x'], cur['vel_y'])
  yaw = wrap(cur['yaw'] + k * (v * dt + 0.5 * a * dt**2))
  nv = v + a * dt
  return dict(
      x=cur['x'] + cur['vel_x'] * dt + 0.5 * a * np.cos(cur['yaw']) * dt**2,
      y=cur['y'] + cur['vel_y'] * dt + 0.5 * a * np.sin(cur['yaw']) * dt**2,
      yaw=yaw, vel_x=nv * np.cos(yaw), vel_y=nv * np.sin(yaw))


def state_dyn(cur, act):
  return {f: act[..., i] + 0 * cur['x'] for i, f in enumerate(POSE)}


def discrete_nd(idx, bins):
  """Mixed-radix digits of a flat index (last axis fastest)."""
  idx = np.asarray(idx)
  out = np.zeros(idx.shape + (len(bins),), np.int64)
  for i in reversed(range(len(bins))):
    out[..., i] = idx % (bins[i] + 1)
    idx = idx // (bins[i] + 1)
  return out


def discrete_value(idx, lo, hi, bins):
  d = discrete_nd(idx, bins)
  lo, hi, bins = (np.asarray(v, np.float64) for v in (lo, hi, bins))
  return lo + d * (hi - lo) / bins


def control_mask(meta, mode, sim_valid_init, inject):
  """meta: dict of bool arrays; mode: an ObjectType name."""
  if mode == 'SDC':
    return meta['is_sdc']
  if mode == 'MODELED':
    return meta['is_modeled']
  if mode == 'NON_SDC':
    return ~meta['is_sdc']
  return meta['is_valid'] if inject else sim_valid_init


def step(sim, log, t, controlled, update, inject):
  """One step.  Returns the new sim trajectory (only column t+1 differs)."""
  new = {f: np.array(v) for f, v in sim.items()}
  # An absent object has no pose to move from: unless it is given a valid update
  # (a pose of its own) it takes its logged one.
  takes = controlled & (sim['valid'][..., t] | update.get('valid', False))
  for f in POSE:
    new[f][..., t + 1] = np.where(takes, update[f], log[f][..., t + 1])
  for f in ('z', 'length', 'width', 'height'):
    new[f][..., t + 1] = sim[f][..., t]
  new['timestamp_micros'][..., t + 1] = log['timestamp_micros'][..., t + 1]
  cur_v = sim['valid'][..., t]
  log_v = log['valid'][..., t + 1]
  other = log_v if inject else (cur_v & log_v)
  new['valid'][..., t + 1] = np.where(controlled & cur_v, True, other)
  return new


def reset(log, init_steps):
  new = {}
  for f, v in log.items():
    fill = np.zeros_like(v) if v.dtype == bool else -np.ones_like(v)
    fill[..., :init_steps] = v[..., :init_steps]
    new[f] = fill
  return new


def corners(x, y, length, width, yaw):
  """(..., 4, 2): front right, front left, rear left, rear right."""
  c, s = np.cos(yaw), np.sin(yaw)
  out = []
  for a, b in ((1, -1), (1, 1), (-1, 1), (-1, -1)):
    dx, dy = a * length / 2, b * width / 2
    out.append(np.stack([x + c * dx - s * dy, y + s * dx + c * dy], -1))
  return np.stack(out, -2)


def rect_separation(p, q):
  """Signed separation of two convex quads by the separating-axis theorem.

  > 0: a gap of that size along some edge normal; < 0: penetration depth.
  p, q: (..., 4, 2).
  """
  best = np.full(p.shape[:-2], -np.inf)
  for a in (p, q):
    for i in range(4):
      e = a[..., (i + 1) % 4, :] - a[..., i, :]
      n = np.stack([e[..., 1], -e[..., 0]], -1)
      ln = np.linalg.norm(n, axis=-1, keepdims=True)
      n = np.divide(n, ln, out=np.zeros_like(n), where=ln > 0)
      pp = np.einsum('...ij,...j->...i', p, n)
      pq = np.einsum('...ij,...j->...i', q, n)
      gap = np.maximum(pp.min(-1) - pq.max(-1), pq.min(-1) - pp.max(-1))
      best = np.maximum(best, gap)
  return best
