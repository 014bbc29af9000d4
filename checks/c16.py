"""C16: off-road and wrong-way metrics."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import datatypes
from waymax import metrics

from wmc import refmetrics
from wmc import scenes

LEVEL = 'model_checking'
OFF = wconfig.MetricsConfig(metrics_to_run=('offroad',))
WRONG = wconfig.MetricsConfig(metrics_to_run=('sdc_wrongway',))
RG = ('x', 'y', 'z', 'dir_x', 'dir_y', 'types', 'ids', 'valid')


def polyline(pts, z=0.0, rid=1, kind=15, reverse=False):
  """Points with the direction to the following one (last repeats)."""
  pts = np.asarray(pts, float)
  if reverse:
    pts = pts[::-1]
  d = np.diff(pts, axis=0)
  d = np.concatenate([d, d[-1:]], 0)
  d /= np.linalg.norm(d, axis=-1, keepdims=True)
  n = len(pts)
  return dict(x=pts[:, 0], y=pts[:, 1], z=np.full(n, z), dir_x=d[:, 0],
              dir_y=d[:, 1], types=np.full(n, kind), ids=np.full(n, rid),
              valid=np.ones(n, bool))


def join(*parts):
  return {k: np.concatenate([p[k] for p in parts]) for k in parts[0]}


def roads():
  """Named road layouts."""
  line = [(x, 0.0) for x in np.arange(-12, 12.1, 1.5)]
  bend = [(x, 0.0) for x in np.arange(-12, 0.1, 1.5)] + [
      (1.5 * k * 0.6, 1.5 * k * 0.8) for k in range(1, 8)]
  sharp = [(x, 0.0) for x in np.arange(-12, 0.1, 1.5)] + [
      (-1.5 * k * 0.7, 1.5 * k * 0.7) for k in range(1, 8)]
  up = [(x, 6.0) for x in np.arange(-12, 12.1, 1.5)]
  out = {}
  for rev in (False, True):
    r = 'rev' if rev else 'fwd'
    out[f'straight/{r}'] = polyline(line, reverse=rev)
    out[f'bend/{r}'] = polyline(bend, reverse=rev)
    out[f'sharp/{r}'] = polyline(sharp, reverse=rev)
    out[f'two/{r}'] = join(polyline(line, rid=1, reverse=rev),
                           polyline(up, rid=2, kind=16, reverse=not rev))
    # the neighbour in the array belongs to another curve
    out[f'cut/{r}'] = join(
        polyline([(-4.0, -6.0), (-4.0, -3.0)], rid=7, reverse=rev),
        polyline(line[8:], rid=8, reverse=rev))
    # a bridge above: the far-below edge must win or lose by stretched height
    out[f'bridge/{r}'] = join(polyline(line, rid=1, reverse=rev),
                              polyline(up, z=3.0, rid=2, reverse=rev))
    # nearer points that do not count
    inv = polyline(up, rid=3, reverse=not rev)
    inv['valid'] = np.zeros(len(inv['x']), bool)
    out[f'invalid-nearer/{r}'] = join(polyline(line, reverse=rev), inv)
    for kind in (1, 2, 6, 14, 17, 18, 19):
      out[f'type-{kind}-nearer/{r}'] = join(
          polyline(line, reverse=rev), polyline(up, rid=3, kind=kind,
                                                reverse=not rev))
    half = polyline(line, reverse=rev)
    half['valid'] = np.arange(len(line)) % 3 != 1
    out[f'gaps/{r}'] = half
    # the point before the nearest one is absent, also at corners
    for name, shape in (('bend', bend), ('sharp', sharp)):
      for k in range(3):
        some = polyline(shape, reverse=rev)
        some['valid'] = np.arange(len(shape)) % 3 != k
        out[f'gaps-{name}-{k}/{r}'] = some
  return out


def offroad(ck):
  """Every position and heading on a grid around every layout."""
  ck.rule = ('every (layout, position, heading, size, height) on a grid, '
             'compared with a per-corner reference')
  g = np.array([-7.3, -5.2, -3.4, -1.9, -0.6, 0.8, 2.2, 3.7, 5.4, 7.1])
  rows = np.array(list(itertools.product(g, g, (0.0, 0.9, 2.4, -1.3))))
  n, T = len(rows), 3
  fn = jax.jit(lambda s: metrics.run_metrics(s, OFF)['offroad'])
  for li, (name, rg) in enumerate(roads().items()):
    for zi, (z, L, W) in enumerate(((0.0, 4.0, 2.0), (2.2, 1.0, 0.5),
                                    (0.0, 0.0, 0.0))):
      if zi == 2 and li % 4:
        continue
      t = (li + zi) % T
      pad = 40 - len(rg['x'])
      rgp = {k: np.concatenate([v, np.zeros(pad, v.dtype)]) for k, v in rg.items()}
      points = datatypes.RoadgraphPoints(
          x=rgp['x'].astype(np.float32), y=rgp['y'].astype(np.float32),
          z=rgp['z'].astype(np.float32), dir_x=rgp['dir_x'].astype(np.float32),
          dir_y=rgp['dir_y'].astype(np.float32),
          dir_z=np.zeros(40, np.float32), types=rgp['types'].astype(np.int32),
          ids=rgp['ids'].astype(np.int32), valid=rgp['valid'])
      points = jax.tree_util.tree_map(jnp.asarray, points)
      f = {k: np.zeros((n, T)) - 200.0 for k in ('x', 'y', 'z')}
      f['yaw'] = np.zeros((n, T))
      f['x'][:, t], f['y'][:, t] = rows[:, 0], rows[:, 1]
      f['yaw'][:, t], f['z'][:, t] = rows[:, 2], z
      # validity must not matter: the metric is defined for every object
      valid = (np.arange(n)[:, None] + np.arange(T)) % 3 != 1
      sim = scenes.traj(length=np.full((n, T), L), width=np.full((n, T), W),
                        valid=valid, **f)
      log = scenes.traj(**{k: np.full((n, T), 90.0) for k in ('x', 'y')})
      st = scenes.state(log, scenes.metadata(n), sim, t, rg=0)
      st = st.replace(roadgraph_points=points)
      out = fn(st)
      want, v, sure = refmetrics.offroad(scenes.np_traj(sim), t, {
          k: np.asarray(getattr(points, k)) for k in RG})
      ck.close(f'offroad/{name}/size{zi}', out.value, want, atol=0, mask=sure)
      ck.close(f'offroad/{name}/valid', out.valid, v)
      ck.part('offroad placements', n)
      ck.transitions += n
      ck.validated += int(sure.sum())
      ck.outcome('off road', int(want.sum()))
      ck.outcome('on road', int((1 - want).sum()))
      for i in range(n):
        ck.state(repr((name, zi, i)).encode())
  ck.sample({'layouts': sorted(roads()), 'placements': n})


def offroad_batched(ck):
  """A batch of scenes is the scenes one by one."""
  names = list(roads().items())
  n, T = 5, 2
  for shape in ((2,), (3,), (2, 2)):
    B = int(np.prod(shape))
    rgs, sims = [], []
    for b in range(B):
      rg = names[(3 * b) % len(names)][1]
      pad = 40 - len(rg['x'])
      rgp = {k: np.concatenate([v, np.zeros(pad, v.dtype)]) for k, v in rg.items()}
      rgs.append(rgp)
      sims.append(dict(x=np.arange(n)[:, None] * 2.3 - 5 + b + np.zeros((n, T)),
                       y=np.sin(np.arange(n) + b)[:, None] * 4 + np.zeros((n, T)),
                       yaw=np.full((n, T), 0.3 * b)))
    st = lambda k, a, dt: jnp.asarray(np.stack([x[k] for x in a]).reshape(
        shape + a[0][k].shape).astype(dt))
    points = datatypes.RoadgraphPoints(
        **{k: st(k, rgs, np.float32) for k in ('x', 'y', 'z', 'dir_x', 'dir_y')},
        dir_z=jnp.zeros(shape + (40,)), types=st('types', rgs, np.int32),
        ids=st('ids', rgs, np.int32), valid=st('valid', rgs, bool))
    sim = scenes.traj(length=np.full(shape + (n, T), 4.0),
                      width=np.full(shape + (n, T), 2.0),
                      **{k: np.asarray(st(k, sims, np.float32)) for k in sims[0]})
    s = scenes.state(sim, scenes.metadata(n, batch=shape), sim, 1, rg=0)
    out = metrics.run_metrics(s.replace(roadgraph_points=points), OFF)['offroad']
    simn = scenes.np_traj(sim)
    for ix in np.ndindex(*shape):
      want, v, sure = refmetrics.offroad(
          {k: a[ix] for k, a in simn.items()}, 1,
          {k: np.asarray(getattr(points, k))[ix] for k in RG})
      ck.close(f'offroad/batch{shape}', out.value[ix], want, atol=0, mask=sure)
      ck.close(f'offroad/batch{shape}/valid', out.valid[ix], v)
      ck.part('offroad batches', 1)
      ck.transitions += n


def wrongway(ck):
  """Every ego position around every validity pattern of small paths."""
  P, K = 2, 3
  pats = np.array(list(itertools.product((0, 1), repeat=P * K)), bool)
  g = (-9.0, -4.2, -2.6, 0.4, 1.9, 5.1, 8.7)
  pos = np.array(list(itertools.product(g, g)))
  n, T = 3, 4
  fn = jax.jit(lambda s: metrics.run_metrics(s, WRONG)['sdc_wrongway'])
  B = len(pos)
  for i, pat in enumerate(pats):
    sdc, t = i % n, (i // 2) % T
    x = np.full((B, n, T), 3.0) + np.arange(n)[:, None]
    y = np.full((B, n, T), 1.0)
    x[:, sdc, :] = 77.0
    x[:, sdc, t], y[:, sdc, t] = pos[:, 0], pos[:, 1]
    sim = scenes.traj(x=x, y=y)
    log = scenes.traj(x=x * 0, y=y * 0)
    paths = scenes.paths(P, K, batch=(B,), valid=pat.reshape(P, K))
    paths = paths.replace(x=paths.x * 3.0, y=paths.y * 2.0)
    st = scenes.state(log, scenes.metadata(n, sdc=sdc, batch=(B,)), sim, t,
                      rg=0, sdc_paths=paths)
    out = fn(st)
    one = {'x': np.asarray(paths.x[0]), 'y': np.asarray(paths.y[0]),
           'valid': np.asarray(paths.valid[0])}
    for b in range(B):
      val, vd, sure = refmetrics.wrongway(pos[b], one)
      if sure:
        ck.close('wrongway/value', out.value[b], val, atol=1e-3,
                 detail={'ego': pos[b], 'valid': pat, 'sdc': sdc, 't': t})
      ck.check(bool(out.valid[b]) == vd, 'wrongway/valid', {'valid': pat})
      ck.state(repr((i, b)).encode())
      ck.outcome('wrong way' if val else 'right way or unknown')
    ck.part('wrong-way placements', B)
    ck.transitions += B
    ck.validated += B


PARTS = [offroad, offroad_batched, wrongway]
