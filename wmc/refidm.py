"""NumPy reference of waypoint following and of the IDM agent (float64)."""
import numpy as np

from wmc import ref

IDM = dict(desired_vel=30.0, min_spacing=2.0, safe_time_headway=2.0, max_accel=2.0,
           max_decel=4.0, delta=4.0, additional_lookahead_points=10,
           additional_lookahead_distance=10.0, invalidate_on_end=False)


def project(cur, log, t_log_valid, speed, speed_ok, invalidate, dt=0.1):
  """One object: next pose of a waypoint follower.

  cur: dict of scalars (x, y, yaw, vel_x, vel_y, valid); log: dict of (T,).
  Returns (pose dict, valid, sure).
  """
  v0 = np.hypot(cur['vel_x'], cur['vel_y'])
  v1 = speed if speed_ok else v0
  d = 0.5 * (v0 + v1) * dt
  p = np.array([cur['x'] + d * np.cos(cur['yaw']), cur['y'] + d * np.sin(cur['yaw'])])
  pts = np.stack([log['x'], log['y']], -1)
  dist = np.where(t_log_valid, np.hypot(*(pts - p).T), np.inf)
  i = int(np.argmin(dist))
  sure = True
  near = np.flatnonzero(dist <= dist[i] + 1e-3)
  if any(np.hypot(*(pts[j] - pts[i])) > 0 or
         abs(log['yaw'][j] - log['yaw'][i]) > 1e-6 for j in near):
    sure = False
  src, yaw = pts[i], log['yaw'][i]
  last = pts[np.flatnonzero(t_log_valid)[-1]] if t_log_valid.any() else pts[0]
  gap = np.hypot(*(last - src))
  end = gap < 0.05 or dist[i] > 5.0
  if abs(gap - 0.05) < 1e-3 or abs(dist[i] - 5.0) < 1e-3:
    sure = False
  u = np.array([np.cos(yaw), np.sin(yaw)])
  q = src + u * (u @ (p - src)) if not (end and invalidate) else src
  if end:
    vx, vy = (0.0, 0.0) if invalidate else (cur['vel_x'], cur['vel_y'])
  else:
    vx, vy = v1 * np.cos(cur['yaw']), v1 * np.sin(cur['yaw'])
  ok = bool(speed_ok)
  if invalidate and end:
    if abs(v1 - 1.0) < 1e-3:
      sure = False
    ok = ok and not v1 > 1.0
  ok = ok and bool(cur['valid'])
  if not t_log_valid.any():
    sure = False
  if not ok:
    return dict(x=-1.0, y=-1.0, yaw=-1.0, vel_x=-1.0, vel_y=-1.0), False, sure
  return dict(x=q[0], y=q[1], yaw=yaw, vel_x=vx, vel_y=vy), True, sure


def accel(i, cur, cfg):
  """IDM acceleration of object i; cur: dict of (N,) arrays. (accel, sure)."""
  n = len(cur['x'])
  k = np.arange(cfg['additional_lookahead_points'] + 1)
  s = k * cfg['additional_lookahead_distance'] / cfg['additional_lookahead_points']
  fx = cur['x'][i] + s * np.cos(cur['yaw'][i])
  fy = cur['y'][i] + s * np.sin(cur['yaw'][i])
  speed = np.hypot(cur['vel_x'], cur['vel_y'])
  mine = ref.corners(fx, fy, cur['length'][i], cur['width'][i], cur['yaw'][i])
  sure = True
  hit = np.zeros((n, len(s)), bool)
  for j in range(n):
    if j == i or not (cur['valid'][i] and cur['valid'][j]):
      continue
    reach = s[-1] + 0.51 * sum(np.hypot(cur['length'][k], cur['width'][k])
                               for k in (i, j))
    if np.hypot(cur['x'][i] - cur['x'][j], cur['y'][i] - cur['y'][j]) > reach + 1:
      continue  # out of reach
    other = ref.corners(cur['x'][j], cur['y'][j], cur['length'][j],
                        cur['width'][j], cur['yaw'][j])
    sep = ref.rect_separation(mine, np.broadcast_to(other, mine.shape))
    if (np.abs(sep) < 1e-3).any():
      sure = False
    hit[j] = sep <= 0
  v = speed[i]
  free = cfg['max_accel'] * (1 - (v / cfg['desired_vel']) ** cfg['delta'])
  cols = np.flatnonzero(hit.any(0))
  if not len(cols):
    return free, sure, None
  lead_v = speed[hit[:, cols[0]]].min()
  lead_d = s[cols[0]]
  want = cfg['min_spacing'] + max(
      0.0, v * cfg['safe_time_headway'] + v * (v - lead_v) /
      (2 * np.sqrt(cfg['max_accel'] * cfg['max_decel'])))
  return free - cfg['max_accel'] * (want / max(lead_d, 1e-9 if lead_d else 0.1)) ** 2, sure, lead_d


def idm_step(cur, log, cfg, dt=0.1):
  """All objects. Returns (pose dict of (N,), valid (N,), speed (N,), sure (N,))."""
  n = len(cur['x'])
  out = {f: np.zeros(n) for f in ref.POSE}
  valid, sure, speeds, led = (np.zeros(n, bool), np.zeros(n, bool), np.zeros(n),
                              np.zeros(n, bool))
  for i in range(n):
    a, ok, lead = accel(i, cur, cfg)
    v = max(0.0, np.hypot(cur['vel_x'][i], cur['vel_y'][i]) + dt * a)
    one = {f: cur[f][i] for f in ref.POSE + ('valid',)}
    pose, valid[i], s2 = project(one, {f: log[f][i] for f in ('x', 'y', 'yaw')},
                                 log['valid'][i], v, True, cfg['invalidate_on_end'],
                                 dt)
    sure[i], speeds[i], led[i] = ok and s2, v, lead is not None
    for f in ref.POSE:
      out[f][i] = pose[f]
  return out, valid, speeds, sure, led
