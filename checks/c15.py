"""C15: log divergence and overlap metrics."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import metrics

from wmc import ref
from wmc import refmetrics
from wmc import scenes

LEVEL = 'model_checking'
CFG = wconfig.MetricsConfig(metrics_to_run=('log_divergence', 'overlap'))


def run(st):
  return metrics.run_metrics(st, CFG)


def pairs(ck):
  """Two boxes: every relative placement, heading pair and size pair."""
  ck.rule = ('every placement of two boxes on a grid of offsets, headings and '
             'sizes, compared with a separating-axis reference')
  g = (-6.1, -4.3, -3.2, -2.1, -0.9, 0.0, 0.7, 1.8, 2.6, 3.4, 4.7)
  yaws = (0.0, 0.4, np.pi / 2, 1.9, np.pi - 0.01, -np.pi, -2.3, -0.7)
  dims = (((4.8, 2.1), (4.8, 2.1)), ((9.0, 2.5), (0.9, 0.8)),
          ((0.0, 0.0), (4.0, 2.0)), ((2.0, 2.0), (1.0, 5.0)))
  origins = ((0.0, 0.0), (-1500.0, 900.0))
  for origin, d in itertools.product(origins, dims):
    rows = np.array(list(itertools.product(g, g, yaws, yaws)))
    B = len(rows)
    f = {}
    z = np.zeros((B, 2, 3))
    x, y, yaw = z.copy(), z.copy(), z.copy()
    x[:, 0, 1], y[:, 0, 1] = origin
    x[:, 1, 1] = origin[0] + rows[:, 0]
    y[:, 1, 1] = origin[1] + rows[:, 1]
    yaw[:, 0, 1], yaw[:, 1, 1] = rows[:, 2], rows[:, 3]
    # other steps are overlapping: reading the wrong step shows
    L = np.broadcast_to(np.array([d[0][0], d[1][0]])[None, :, None], x.shape)
    W = np.broadcast_to(np.array([d[0][1], d[1][1]])[None, :, None], x.shape)
    sim = scenes.traj(x=x, y=y, yaw=yaw, length=L, width=W)
    log = scenes.traj(x=z, y=z, yaw=z, length=L, width=W)
    st = scenes.state(log, scenes.metadata(2, batch=(B,)), sim, 1, rg=0)
    out = run(st)['overlap']
    xf = np.asarray(sim.x[:, :, 1], float)
    yf = np.asarray(sim.y[:, :, 1], float)
    c = ref.corners(xf, yf, L[..., 1], W[..., 1], yaw[..., 1])
    m = ref.rect_separation(c[:, 0], c[:, 1])
    sure = np.abs(m) > 5e-3
    want = np.repeat((m < 0)[:, None], 2, 1).astype(float)
    tag = f'pairs/{d}/{origin}'
    ck.close(f'{tag}/value', out.value, want, atol=0,
             mask=np.repeat(sure[:, None], 2, 1),
             detail=lambda: {'sizes': d})
    ck.check(np.asarray(out.valid).all(), f'{tag}/valid')
    ck.part('placements', B)
    ck.transitions += B
    ck.validated += int(sure.sum())
    ck.outcome('overlapping', int((m < 0).sum()))
    ck.outcome('apart', int((m > 0).sum()))
    for r in range(B):
      ck.state(repr((origin, d, r)).encode())
  ck.sample({'offset grid': g, 'headings': yaws, 'sizes': dims})


def crowds(ck):
  """Up to four objects: every validity combination and clock value."""
  n, T = 4, 4
  spots = np.array([[0, 0], [3, 0.5], [6, 1.0], [30, 30]], float)
  for perm in itertools.permutations(range(n)):
    if perm[0] > 1 and not ck.thorough:
      continue
    vs = np.array(list(itertools.product((0, 1), repeat=n)), bool)
    B = len(vs) * T
    v = np.repeat(vs, T, 0)
    t_of = np.tile(np.arange(T), len(vs))
    for t in range(T):
      sub = vs
      x = np.zeros((len(sub), n, T))
      y = np.zeros((len(sub), n, T))
      yaw = np.full((len(sub), n, T), 0.3)
      for tt in range(T):
        pos = spots[list(perm)] + (tt * 0.5)
        if tt != t:
          pos = pos[::-1] + 2.0 * np.arange(n)[:, None]
        x[:, :, tt], y[:, :, tt] = pos[:, 0], pos[:, 1]
      valid = np.ones((len(sub), n, T), bool)
      valid[:, :, t] = sub
      sim = scenes.traj(x=x, y=y, yaw=yaw, valid=valid,
                        length=np.full(x.shape, 4.0), width=np.full(x.shape, 2.0))
      lx, ly = x + 3.0 * np.arange(1, n + 1)[:, None], y - 4.0 * np.arange(
          1, n + 1)[:, None]
      lvalid = valid[::-1].copy()
      log = scenes.traj(x=lx, y=ly, yaw=yaw, valid=lvalid,
                        length=np.full(x.shape, 4.0), width=np.full(x.shape, 2.0))
      st = scenes.state(log, scenes.metadata(n, batch=(len(sub),)), sim, t, rg=0)
      res = run(st)
      for i in range(len(sub)):
        s = {f: a[i] for f, a in scenes.np_traj(sim).items()}
        l = {f: a[i] for f, a in scenes.np_traj(log).items()}
        ov, vv, sure = refmetrics.overlap(s, t)
        d = {'objects': perm, 'valid': sub[i], 't': t}
        ck.close('crowd/overlap', res['overlap'].value[i], ov, mask=sure, detail=d)
        ck.close('crowd/overlap-valid', res['overlap'].valid[i], vv, detail=d)
        dv, dvv = refmetrics.log_divergence(s, l, t)
        ck.close('crowd/divergence', res['log_divergence'].value[i], dv,
                 atol=1e-3, detail=d)
        ck.close('crowd/divergence-valid', res['log_divergence'].valid[i], dvv,
                 detail=d)
        ck.state(repr((perm, t, i)).encode())
      ck.part('crowds', len(sub))
      ck.transitions += 2 * len(sub)
      ck.validated += len(sub)


def distances(ck):
  """Divergence over a grid of displacements, and every step of an episode."""
  g = np.array([-1e4, -350.0, -3.0, -0.25, 0.0, 0.125, 4.0, 71.5, 2e4])
  rows = np.array(list(itertools.product(g, g, (0.0, -800.0, 5000.0))))
  B = len(rows)
  x = np.zeros((B, 1, 2)); y = np.zeros((B, 1, 2))
  x[:, 0, 0] = rows[:, 2]
  log = scenes.traj(x=x, y=y)
  sx, sy = x.copy(), y.copy()
  sx[:, 0, 0] += rows[:, 0]
  sy[:, 0, 0] += rows[:, 1]
  sim = scenes.traj(x=sx, y=sy, z=np.full(x.shape, 55.0))
  st = scenes.state(log, scenes.metadata(1, batch=(B,)), sim, 0, rg=0)
  out = run(st)['log_divergence']
  ck.close('distance', out.value[:, 0], np.hypot(rows[:, 0], rows[:, 1]),
           atol=2e-2, rtol=1e-5)
  ck.part('displacements', B)
  ck.transitions += B
  n, T = 8, 91
  v1 = ((np.arange(n)[:, None] + np.arange(T)) % 5) != 1
  v2 = ((np.arange(n)[:, None] + 2 * np.arange(T)) % 7) != 2
  log = scenes.log_traj(n, T, v1, variant=0)
  sim = scenes.log_traj(n, T, v2, variant=1)
  fn = jax.jit(run)
  for t in range(T):
    res = fn(scenes.state(log, scenes.metadata(n), sim, t, rg=0))
    s, l = scenes.np_traj(sim), scenes.np_traj(log)
    dv, dvv = refmetrics.log_divergence(s, l, t)
    ck.close('episode/divergence', res['log_divergence'].value, dv, atol=1e-2)
    ck.close('episode/divergence-valid', res['log_divergence'].valid, dvv)
    ov, vv, sure = refmetrics.overlap(s, t)
    ck.close('episode/overlap', res['overlap'].value, ov, mask=sure)
    ck.close('episode/overlap-valid', res['overlap'].valid, vv)
    ck.part('episode steps', 1)
    ck.transitions += 1
    ck.validated += 1


PARTS = [pairs, crowds, distances]
