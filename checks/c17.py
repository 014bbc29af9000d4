"""C17: route progression and off-route metrics of the ego."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import datatypes
from waymax import metrics

from wmc import refmetrics
from wmc import scenes

LEVEL = 'model_checking'
CFG = wconfig.MetricsConfig(metrics_to_run=('sdc_progression', 'sdc_off_route'))
FN = jax.jit(lambda s: metrics.run_metrics(s, CFG))


def make_paths(geo, on_route, valid):
  """geo: list of (K, 2) polylines."""
  xy = np.stack([np.asarray(p, float) for p in geo])
  seg = np.linalg.norm(np.diff(xy, axis=1), axis=-1)
  arc = np.concatenate([np.zeros((len(geo), 1)), np.cumsum(seg, 1)], 1)
  P, K = xy.shape[:2]
  return dict(x=xy[..., 0].astype(np.float32), y=xy[..., 1].astype(np.float32),
              z=np.zeros((P, K), np.float32), ids=np.ones((P, K), np.int32),
              arc_length=arc.astype(np.float32),
              valid=np.broadcast_to(valid, (P, K)).astype(bool),
              on_route=np.broadcast_to(np.asarray(on_route), (P,))[:, None].astype(bool))


GEO = {
    'parallel': [[(0, 0), (10, 0), (20, 0), (30, 0)],
                 [(0, 6), (10, 6), (20, 6), (30, 6)],
                 [(0, -4), (10, -4), (20, -4), (30, -4)]],
    'fork': [[(0, 0), (10, 0.5), (20, 4), (30, 9)],
             [(0, 1), (10, 0), (20, -4.5), (30, -9)],
             [(30, 12), (20, 11), (10, 13), (0, 12.5)]],
}


def batch_states(paths, cur, cur_valid, start, end, sdc, t, n=3, T=4):
  """One state per row: ego at cur now, at start/end in the log."""
  B = len(cur)
  x = np.full((B, n, T), 4.0) + np.arange(n)[:, None]
  y = np.full((B, n, T), 2.0) - np.arange(n)[:, None]
  v = np.ones((B, n, T), bool)
  x[:, sdc], y[:, sdc] = 55.0, -44.0
  x[:, sdc, t], y[:, sdc, t] = cur[:, 0], cur[:, 1]
  v[:, :, t] = ~cur_valid[:, None]  # others carry the opposite flag
  v[:, sdc, t] = cur_valid
  v[:, sdc, (t + 1) % T] = ~cur_valid
  sim = scenes.traj(x=x, y=y, valid=v)
  lx, ly = np.full((B, n, T), 21.0), np.full((B, n, T), -13.0)
  lx[:, sdc, 0], ly[:, sdc, 0] = start[:, 0], start[:, 1]
  lx[:, sdc, -1], ly[:, sdc, -1] = end[:, 0], end[:, 1]
  log = scenes.traj(x=lx, y=ly)
  bp = datatypes.Paths(**{k: jnp.asarray(np.broadcast_to(a, (B,) + a.shape[-2:])
                                         if a.ndim == 2 else a)
                          for k, a in paths.items()})
  return scenes.state(log, scenes.metadata(n, sdc=sdc, batch=(B,)), sim, t,
                      rg=0, sdc_paths=bp)


def compare(ck, tag, st, paths, cur, cur_valid, start, end):
  out = FN(st)
  p, o = out['sdc_progression'], out['sdc_off_route']
  for b in range(len(cur)):
    one = {k: (a if a.ndim == 2 else a[b]) for k, a in paths.items()}
    d = {'ego': cur[b], 'ego_valid': cur_valid[b], 'start': start[b],
         'end': end[b], 'valid': one['valid'], 'on_route': one['on_route'][:, 0]}
    val, vd, sure = refmetrics.progression(cur[b], cur_valid[b], start[b], end[b], one)
    ck.check(bool(p.valid[b]) == vd, f'{tag}/progression-valid', d)
    if sure:
      ck.close(f'{tag}/progression', p.value[b], val, atol=1e-4, detail=d)
      ck.outcome('progress 0' if val == 0 else 'progress other')
    val, vd, sure = refmetrics.off_route(cur[b], cur_valid[b], one)
    if sure:
      ck.close(f'{tag}/off-route', o.value[b], val, atol=1e-3, detail=d)
      ck.check(bool(o.valid[b]) == vd, f'{tag}/off-route-valid', d)
      ck.outcome('off route' if val else 'on route')
  ck.transitions += 2 * len(cur)
  ck.validated += len(cur)


def positions(ck):
  """Every ego position x endpoints x on-route assignment x layout."""
  ck.rule = ('every (layout, on-route assignment, ego position, log endpoints, '
             'path validity, ego validity) in bounds')
  gx = (-6.3, 1.4, 8.7, 16.1, 23.9, 37.2)
  gy = (-17.0, -6.7, -2.6, 0.4, 2.7, 4.6, 9.3, 21.7)
  ends = [((1.0, 0.2), (29.0, 0.3)), ((18.8, 1.0), (9.0, -1.0)),
          ((11.0, 0.0), (11.5, 0.4)), ((-9.0, 4.0), (21.0, -8.0))]
  for name, geo in GEO.items():
    for on in itertools.product((False, True), repeat=3):
      for sdc, t in (((0, 1), (2, 3)) if ck.thorough else ((sum(on) % 3, 2),)):
        rows = list(itertools.product(gx, gy, ends, (True, False)))
        if not ck.thorough:
          rows = [r for r in rows if r[3] or r[0] == gx[1]]
        cur = np.array([(r[0], r[1]) for r in rows])
        cv = np.array([r[3] for r in rows])
        st_, en_ = (np.array([r[2][i] for r in rows]) for i in (0, 1))
        paths = make_paths(geo, on, True)
        st = batch_states(paths, cur, cv, st_, en_, sdc, t)
        compare(ck, f'positions/{name}', st, paths, cur, cv, st_, en_)
        ck.part('positions', len(rows))
        for i in range(len(rows)):
          ck.state(repr((name, on, sdc, i)).encode())
  ck.sample({'layouts': sorted(GEO), 'ego_x': gx, 'ego_y': gy, 'ends': ends})


def validity(ck):
  """Every validity pattern of the path points."""
  for name, geo in GEO.items():
    geo = [g for g in geo[:2]]
    pats = np.array(list(itertools.product((0, 1), repeat=8)), bool).reshape(-1, 2, 4)
    for on in itertools.product((False, True), repeat=2):
      for cur in ((12.3, 1.1), (27.0, 4.9)):
        B = len(pats)
        base = make_paths(geo, on, True)
        paths = {k: np.broadcast_to(a, (B,) + a.shape).copy()
                 for k, a in base.items()}
        paths['valid'] = pats
        c = np.repeat(np.array([cur]), B, 0)
        s = np.repeat(np.array([(1.0, 0.2)]), B, 0)
        e = np.repeat(np.array([(28.0, 1.4)]), B, 0)
        cv = np.ones(B, bool)
        st = batch_states(paths, c, cv, s, e, 1, 2)
        compare(ck, f'validity/{name}', st, paths, c, cv, s, e)
        ck.part('validity patterns', B)
        for i in range(B):
          ck.state(repr((name, on, cur, i, 'v')).encode())


def thresholds(ck):
  """Off-route decisions just inside and outside both limits."""
  for a, diff in itertools.product((0.5, 3.0, 4.98, 5.02, 6.0, 40.0),
                                   (-8.0, 0.0, 1.5, 1.98, 2.02, 4.0)):
    b = a - diff
    if b < 0:
      continue
    geo = [[(0, a), (10, a + 30), (20, a + 30), (30, a + 30)],
           [(0, -b), (10, -b - 30), (20, -b - 30), (30, -b - 30)]]
    for on in ((True, False), (False, True)):
      g = geo if on[0] else geo[::-1]
      cur = np.zeros((1, 2))
      paths = make_paths(g, on, True)
      st = batch_states(paths, cur, np.array([True]), cur, cur + 1, 0, 1)
      compare(ck, f'thresholds/{a}/{diff}', st, paths, cur, np.array([True]),
              cur, cur + 1)
      ck.part('thresholds', 1)
      ck.state(repr((a, diff, on)).encode())
  # no routes at all is refused rather than scored
  st = scenes.state(scenes.log_traj(2, 3), scenes.metadata(2))
  for m in ('sdc_progression', 'sdc_off_route'):
    try:
      metrics.run_metrics(st, wconfig.MetricsConfig(metrics_to_run=(m,)))
      ck.fail(f'no-paths/{m}')
    except ValueError:
      ck.part('missing routes refused', 1)


def unbatched(ck):
  """Unbatched states and two batch axes give the same numbers."""
  paths = make_paths(GEO['fork'], (True, False, True), True)
  cur = np.array([(8.0, 2.7), (21.0, -3.0), (5.0, 12.0), (3.0, -20.0)])
  s, e = np.repeat([[1.0, 0.2]], 4, 0), np.repeat([[29.0, 8.3]], 4, 0)
  cv = np.array([True, True, True, True])
  st = batch_states(paths, cur, cv, s, e, 1, 2)
  base = FN(st)
  for b in range(4):
    one = jax.tree_util.tree_map(
        lambda x: x[b] if getattr(x, 'ndim', 0) else x, st)
    out = metrics.run_metrics(one, CFG)
    for k in out:
      ck.check(np.shape(out[k].value) == (), f'unbatched/{k}/shape')
      ck.close(f'unbatched/{k}', out[k].value, base[k].value[b], atol=1e-5)
      ck.close(f'unbatched/{k}/valid', out[k].valid, base[k].valid[b])
  two = jax.tree_util.tree_map(
      lambda x: x.reshape((2, 2) + x.shape[1:]) if getattr(x, 'ndim', 0) else x, st)
  out = metrics.run_metrics(two, CFG)
  for k in out:
    ck.close(f'two-axes/{k}', np.asarray(out[k].value).ravel(), base[k].value,
             atol=1e-5)
  ck.part('batch layouts', 6)


PARTS = [positions, validity, thresholds, unbatched]
