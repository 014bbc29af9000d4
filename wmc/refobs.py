"""NumPy reference of observations."""
import numpy as np

from wmc import ref
from wmc import scenes


def to_frame(x, y, pose):
  """Coordinates of (x, y) seen from pose (x, y, yaw)."""
  dx, dy = x - pose[0], y - pose[1]
  c, s = np.cos(pose[2]), np.sin(pose[2])
  return c * dx + s * dy, -s * dx + c * dy


def turn(x, y, yaw):
  c, s = np.cos(yaw), np.sin(yaw)
  return c * x + s * y, -s * x + c * y


def history(a, t, k, fill):
  """Last k steps up to t along the last axis; earlier than 0 is `fill`."""
  idx = np.arange(t - k + 1, t + 1)
  out = a[..., np.maximum(idx, 0)].copy()
  out[..., idx < 0] = fill
  return out


def view(sim, tl, rg, pose, ok, t, k):
  """What one observer at `pose` (x, y, yaw; valid=ok) sees; no road selection.

  Returns dict(traj=..., tl=..., rg=...) of NumPy arrays in its frame, where the
  validity of steps before the log is False.
  """
  f64 = lambda d: {f: v.astype(np.float64) if v.dtype == np.float32 else v
                   for f, v in d.items()}
  tr = {f: history(v, t, k, False if v.dtype == bool else 0)
        for f, v in f64(sim).items()}
  tr['x'], tr['y'] = to_frame(tr['x'], tr['y'], pose)
  tr['vel_x'], tr['vel_y'] = turn(tr['vel_x'], tr['vel_y'], pose[2])
  tr['yaw'] = tr['yaw'] - pose[2]
  tr['valid'] = tr['valid'] & ok
  l = {f: history(v, t, k, False if v.dtype == bool else 0)
       for f, v in f64(tl).items()}
  l['x'], l['y'] = to_frame(l['x'], l['y'], pose)
  l['valid'] = l['valid'] & ok
  r = f64(rg)
  r = dict(r)
  r['x'], r['y'] = to_frame(r['x'], r['y'], pose)
  r['dir_x'], r['dir_y'] = turn(r['dir_x'], r['dir_y'], pose[2])
  r['valid'] = r['valid'] & ok
  return dict(traj=tr, tl=l, rg=r)


TL_FIELDS = ('x', 'y', 'z', 'state', 'lane_ids', 'valid')
RG_FIELDS = ('x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z', 'types', 'ids', 'valid')


def np_fields(x, fields):
  return {f: np.array(getattr(x, f)) for f in fields}


def same(got, want, rows, tol=2e-3):
  """First differing field, or None; yaw modulo a turn; rows: cells that count
  (pre-log cells are not judged except for validity)."""
  for f, w in want.items():
    g = np.asarray(got[f])
    if g.shape != w.shape:
      return f + ' shape', g.shape, w.shape
    if f == 'valid':
      bad = g != w
    elif f == 'yaw':
      bad = ~ref.ang_close(g, w, tol) & rows
    elif w.dtype.kind in 'iu':
      bad = (g != w) & rows
    else:
      bad = (np.abs(g - w) > tol + 1e-6 * np.abs(w)) & rows
    if bad.any():
      i = tuple(int(v) for v in np.argwhere(bad)[0])
      return f, i, g[i], w[i]
  return None


def nearest(rg, xy, k):
  """Ids-rows of the k nearest valid points to xy, and whether that is certain."""
  d = np.where(rg['valid'], np.hypot(rg['x'] - xy[0], rg['y'] - xy[1]), np.inf)
  order = np.argsort(d, kind='stable')
  keep = [int(i) for i in order[:k] if np.isfinite(d[i])]
  sure = True
  if k < len(d) and np.isfinite(d[order[k - 1]]) and np.isfinite(d[order[k]]):
    sure = d[order[k]] - d[order[k - 1]] > 1e-4 + 1e-6 * d[order[k]]
  return keep, sure
