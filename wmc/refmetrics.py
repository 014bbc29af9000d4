"""Reference metrics in plain NumPy, one unbatched scene at a time."""
import numpy as np

from wmc import ref

EDGE_TYPES = (15, 16)  # road edge boundary, road edge median


def log_divergence(sim, log, t):
  d = np.hypot(sim['x'][:, t].astype(float) - log['x'][:, t],
               sim['y'][:, t].astype(float) - log['y'][:, t])
  return d, sim['valid'][:, t] & log['valid'][:, t]


def overlap_margin(sim, t):
  """(n, n) signed separation of the boxes at step t; +inf on the diagonal."""
  f = {k: sim[k][:, t].astype(float) for k in ('x', 'y', 'length', 'width', 'yaw')}
  c = ref.corners(f['x'], f['y'], f['length'], f['width'], f['yaw'])
  m = ref.rect_separation(c[:, None], c[None, :])
  np.fill_diagonal(m, np.inf)
  return m


def overlap(sim, t, eps=1e-3):
  """(value, valid, sure): sure is False where boxes almost touch."""
  m = overlap_margin(sim, t)
  v = sim['valid'][:, t]
  hit = (m < 0) & v[:, None]
  near = (np.abs(m) <= eps) & v[:, None]
  return hit.any(0).astype(float), v, ~near.any(0)


def signed_distance(points, rg, z_stretch=2.0):
  """Signed distance of points (k, 3) to the road edges; margins of certainty.

  > 0: on the off-road side (right of the direction) of the nearest edge point.
  Returns (distance, sure).
  """
  ok = rg['valid'] & np.isin(rg['types'], EDGE_TYPES)
  xyz = np.stack([rg['x'], rg['y'], rg['z']], -1).astype(float)
  dirs = np.stack([rg['dir_x'], rg['dir_y']], -1).astype(float)
  out = np.zeros(len(points))
  sure = np.ones(len(points), bool)
  for k, p in enumerate(np.asarray(points, float)):
    d = xyz - p
    d2 = d[:, 0]**2 + d[:, 1]**2 + (z_stretch * d[:, 2])**2
    d2 = np.where(ok, d2, np.inf)
    if not ok.any():
      sure[k] = False
      continue
    order = np.argsort(d2, kind='stable')
    i = order[0]
    if len(order) > 1 and np.isfinite(d2[order[1]]) and (
        np.sqrt(d2[order[1]]) - np.sqrt(d2[i]) < 1e-3):
      sure[k] = False
    j = max(0, i - 1)
    v = p[:2] - xyz[i, :2]
    cr = v[0] * dirs[i, 1] - v[1] * dirs[i, 0]
    crp = v[0] * dirs[j, 1] - v[1] * dirs[j, 0]
    joined = rg['valid'][j] and rg['ids'][i] == rg['ids'][j]
    c = crp if joined and crp < cr else cr
    out[k] = np.hypot(*v) * np.sign(c)
    if abs(c) < 1e-3:
      sure[k] = False
  return out, sure


def offroad(sim, t, rg):
  f = {k: sim[k][:, t].astype(float) for k in
       ('x', 'y', 'length', 'width', 'yaw', 'z')}
  c = ref.corners(f['x'], f['y'], f['length'], f['width'], f['yaw'])
  n = len(f['x'])
  pts = np.concatenate([c, np.repeat(f['z'][:, None, None], 4, 1)], -1)
  d, sure = signed_distance(pts.reshape(-1, 3), rg)
  d, sure = d.reshape(n, 4), sure.reshape(n, 4)
  val = (d > 0).any(-1)
  # certain if a sure corner is off, or all corners are surely on
  certain = ((d > 0) & sure).any(-1) | sure.all(-1)
  return val.astype(float), np.ones(n, bool), certain


def path_dist(xy, paths):
  return np.hypot(paths['x'].astype(float) - xy[0], paths['y'].astype(float) - xy[1])


def wrongway(xy, paths, thres=3.5):
  d = path_dist(xy, paths)[paths['valid']]
  if d.size == 0:
    return 0.0, False, True
  m = d.min()
  return (0.0 if m < thres else m), True, abs(m - thres) > 1e-3


def progression(cur, cur_valid, start, end, paths):
  """(value, valid, sure)."""
  on = np.broadcast_to(paths['on_route'], paths['valid'].shape)
  use = paths['valid'] & on
  if not cur_valid or not use.any():
    return 0.0, False, True
  d = np.where(use, path_dist(cur, paths), np.inf)
  best = d.min(-1)
  k = int(best.argmin())
  s = np.sort(best)
  sure = not (len(s) > 1 and s[1] - s[0] < 1e-3)
  arcs = []
  for p in (start, end, cur):
    dd = np.where(paths['valid'][k], path_dist(p, paths)[k], np.inf)
    i = int(dd.argmin())
    so = np.sort(dd)
    sure &= not (len(so) > 1 and np.isfinite(so[1]) and so[1] - so[0] < 1e-3)
    arcs.append(float(paths['arc_length'][k, i]))
  if arcs[1] == arcs[0]:
    return 1.0, True, sure
  return (arcs[2] - arcs[0]) / (arcs[1] - arcs[0]), True, sure


def off_route(cur, cur_valid, paths, max_dist=5.0, max_rel=2.0):
  on = np.broadcast_to(paths['on_route'], paths['valid'].shape)
  if not cur_valid:
    return 0.0, False, True
  d = path_dist(cur, paths)
  don = d[paths['valid'] & on]
  doff = d[paths['valid'] & ~on]
  if don.size == 0:
    return 0.0, False, True
  a = don.min()
  b = doff.min() if doff.size else np.inf
  sure = abs(a - max_dist) > 1e-3 and abs(a - b - max_rel) > 1e-3
  if a > max_dist or a - b > max_rel:
    return a, True, sure
  return 0.0, True, sure


def kinematic_infeasibility(sim, t, max_acc=10.4, max_steering=0.3, eps=1e-3,
                            dt=0.1):
  """(value, valid, sure) of the transition t-1 -> t, for t >= 1."""
  p = {k: sim[k][:, t - 1].astype(float) for k in ref.POSE}
  q = {k: sim[k][:, t].astype(float) for k in ref.POSE}
  v0, v1 = np.hypot(p['vel_x'], p['vel_y']), np.hypot(q['vel_x'], q['vel_y'])
  acc = (v1 - v0) / dt
  slow = (v0 < 0.6) | (v1 < 0.6)
  heading = np.arctan2(q['vel_y'], q['vel_x'])
  turn = ref.wrap(heading - p['yaw'])
  path = v0 * dt + 0.5 * acc * dt**2
  with np.errstate(divide='ignore', invalid='ignore'):
    k = np.where(slow, 0.0, turn / path)
  valid = sim['valid'][:, t - 1] & sim['valid'][:, t]
  value = (np.abs(acc) > max_acc + eps) | (np.abs(k) > max_steering + eps)
  sure = ((np.abs(np.abs(acc) - max_acc - eps) > 5e-3) &
          (np.abs(np.abs(k) - max_steering - eps) > 2e-3) &
          (np.abs(v0 - 0.6) > 1e-3) & (np.abs(v1 - 0.6) > 1e-3) &
          (slow | (np.abs(np.abs(turn) - np.pi) > 1e-3)))
  sure |= ~valid
  return (value & valid).astype(float), valid, sure
