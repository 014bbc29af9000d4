"""C23: the ego's own observation."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import datatypes
from waymax.datatypes import observation

from checks import c21
from wmc import core
from wmc import ref
from wmc import refobs
from wmc import scenes

LEVEL = 'model_checking'
FRAMES = wconfig.CoordinateFrame
N, T, P = c21.N, c21.T, c21.P
PATH_FIELDS = ('x', 'y', 'z', 'ids', 'valid', 'arc_length', 'on_route')


def with_ego(st, sdc, batch, paths=True):
  md = scenes.metadata(N, sdc=sdc, batch=batch)
  p = None
  if paths:
    p = scenes.paths(3, 5, batch=batch, valid=(np.arange(5)[None] +
                                               np.arange(3)[:, None]) % 4 != 3)
    p = p.replace(y=p.y + 0.25 * p.x)
  return st.replace(object_metadata=md, sdc_paths=p)


def compare(ck, tag, got, want, skip=()):
  """Every field of two observations (or None); headings modulo a turn."""
  for part in ('trajectory', 'metadata', 'roadgraph_static_points',
               'traffic_lights', 'pose2d'):
    for f, x in getattr(got, part).items():
      y = np.asarray(getattr(want, part)[f])
      x = np.asarray(x)
      good = x.shape == y.shape and bool(np.all(
          ref.ang_close(x, y, 2e-3) if 'yaw' in f else
          np.isclose(x.astype(float), y.astype(float), atol=2e-3, rtol=1e-6)))
      ck.check(good, f'{tag}/{part}/{f}')
  ck.close(f'{tag}/is_ego', got.is_ego, want.is_ego)


_FN = {}


def fns(k, topk, frame):
  key = (k, topk, frame)
  if key not in _FN:
    _FN[key] = (
        jax.jit(lambda s: datatypes.sdc_observation_from_state(
            s, obs_num_steps=k, roadgraph_top_k=topk, coordinate_frame=frame)),
        jax.jit(lambda s: datatypes.observation_from_state(
            s, obs_num_steps=k, roadgraph_top_k=topk,
            coordinate_frame=FRAMES.GLOBAL if frame == FRAMES.GLOBAL
            else FRAMES.OBJECT)))
  return _FN[key]


@core.sharded
def ego_views(ck):
  """Every ego index, clock, history, frame: equal to its multi-agent view."""
  ck.rule = ('every (ego index, clock, history length, frame, batch, routes or '
             'not): the ego view is its entry of the multi-agent one, plus routes')
  for sdc, t, k, frame, batch in itertools.product(
      range(N), range(T), (1, 3, 5), FRAMES, ((), (2,), (2, 2))):
    if len(batch) == 2 and k != 3:
      continue
    if batch and (sdc + t + k) % 4 and not ck.thorough:
      continue
    if not batch and (sdc + t + k) % 2 and not ck.thorough:
      continue
    if not ck.mine((k, frame, batch)):
      continue
    topk = {1: 2, 3: P, 5: 5}[k]
    nb = int(np.prod(batch))
    idx = (np.arange(nb).reshape(batch) + sdc) % N if batch else sdc
    st = with_ego(c21.scene((sdc + t) % 3, t, batch), idx, batch,
                  paths=(sdc + t) % 5 != 0)
    one, many = fns(k, topk, frame)
    got, full = one(st), many(st)
    tag = f'ego/{frame.name}/t={t}/history={k}/batch={batch}'
    pick = np.broadcast_to(np.asarray(idx), batch)[..., None]

    def take(x):
      x = np.asarray(x)
      i = pick.reshape(pick.shape + (1,) * (x.ndim - len(batch) - 1))
      return np.take_along_axis(x, i, len(batch))
    want = jax.tree_util.tree_map(take, full.replace(sdc_paths=None))
    ck.check(got.shape == batch + (1,), f'{tag}/shape', got.shape)
    compare(ck, tag, got, want)
    ck.close(f'{tag}/ego-flag', np.asarray(got.is_ego)[..., 0, :],
             np.arange(N) == pick)
    # Routes, from first principles.
    if st.sdc_paths is not None:
      sim = scenes.np_traj(st.sim_trajectory)
      p = {f: np.asarray(getattr(st.sdc_paths, f)) for f in PATH_FIELDS}
      g = {f: np.asarray(getattr(got.sdc_paths, f)) for f in PATH_FIELDS}
      for i in np.ndindex(*batch):
        e = int(pick[i][0])
        pose = tuple(float(sim[f][i][e, t]) for f in ('x', 'y', 'yaw'))
        ok = bool(sim['valid'][i][e, t])
        if frame == FRAMES.GLOBAL:
          pose, ok = (0.0, 0.0, 0.0), True
        wx, wy = refobs.to_frame(p['x'][i].astype(float), p['y'][i].astype(float),
                                 pose)
        ck.close(f'{tag}/routes', g['x'][i][0], wx, atol=2e-3)
        ck.close(f'{tag}/routes', g['y'][i][0], wy, atol=2e-3)
        ck.close(f'{tag}/routes/valid', g['valid'][i][0], p['valid'][i] & ok)
        for f in ('z', 'ids', 'arc_length', 'on_route'):
          ck.close(f'{tag}/routes/{f}', g[f][i][0], p[f][i])
      ck.outcome('with routes')
    ck.part('ego views', max(nb, 1))
    ck.transitions += 1
    ck.validated += 1
    ck.state(repr((sdc, t, k, frame, batch)).encode())
  ck.sample({'objects': N, 'clock values': T})


@core.sharded
def for_object(ck):
  """Asking an observation for one observer gives that observer's part."""
  for batch in ((), (2,), (3, 2)):
    st = c21.scene(1, 3, batch)
    for frame in FRAMES:
      if not ck.mine(batch):
        continue
      obs = datatypes.observation_from_state(st, 2, 4, frame)
      for i in range(N):
        got = obs.for_obj(i)
        ck.check(got.shape == batch + (1,), f'for_obj/{batch}/shape', got.shape)
        same = jax.tree_util.tree_map(
            lambda x, y: np.array_equal(np.asarray(x),
                                        np.take(np.asarray(y), [i], len(batch))),
            got, obs)
        ck.check(jax.tree_util.tree_all(same), f'for_obj/{batch}/{frame.name}')
        ck.part('single observers', 1)
        ck.transitions += 1


@core.sharded
def global_views(ck):
  """The frame-free observation, tiled for any number of observers."""
  for n, k, t in itertools.product((1, 2, 5), (1, 2, 4), (0, 2, 5)):
    for batch in ((), (2,)):
      if not ck.mine((n, k, batch)):
        continue
      st = c21.scene(2, t, batch)
      obs = observation.global_observation_from_state(st, k, n)
      tag = f'global/n={n}/history={k}/t={t}'
      ck.check(obs.shape == batch + (n,), f'{tag}/shape')
      past = np.arange(t - k + 1, t + 1) >= 0
      traj = scenes.np_traj(obs.trajectory)
      sim = scenes.np_traj(st.sim_trajectory)
      for o in range(n):
        want = {f: refobs.history(a, t, k, False if a.dtype == bool else 0)
                for f, a in sim.items()}
        got = {f: np.take(a, o, len(batch)) for f, a in traj.items()}
        d = refobs.same(got, want, past, 0)
        ck.check(d is None, tag, d)
      ck.check(not np.any(np.asarray(obs.is_ego)), f'{tag}/is_ego')
      ck.part('global views', n)
      ck.transitions += 1


PARTS = [ego_views, for_object, global_views]
