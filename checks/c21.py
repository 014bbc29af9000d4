"""C21: multi-agent observations: frames, history, ego flags."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import datatypes

from wmc import ref
from wmc import refobs
from wmc import scenes

LEVEL = 'model_checking'
FRAMES = wconfig.CoordinateFrame
N, T, P = 4, 6, 9


def scene(v, t, batch=()):
  """A state at clock t; later simulated steps are unfilled."""
  val = ((np.arange(N)[:, None] * 5 + np.arange(T)[None] * 3 + v) % 7) != 2
  log = scenes.log_traj(N, T, val, variant=v, batch=batch)
  sim = scenes.np_traj(scenes.log_traj(N, T, val, variant=v + 1, batch=batch))
  for f, a in sim.items():
    a[..., t + 1:] = False if a.dtype == bool else -1
  if batch:
    nb = int(np.prod(batch))
    sim['yaw'] = ref.wrap(sim['yaw'] + 0.9 * np.arange(nb).reshape(batch + (1, 1))
                          ).astype(np.float32)
  st = scenes.state(log, scenes.metadata(N, sdc=(v + 2) % N, batch=batch),
                    scenes.traj(**sim), t, tl=3, rg=P)
  if batch:
    rg = st.roadgraph_points
    b = jnp.arange(int(np.prod(batch)), dtype=jnp.float32).reshape(batch + (1,))
    st = st.replace(roadgraph_points=rg.replace(x=rg.x + 3.0 * b, y=rg.y - b))
  return st


def unbatch(tree, i):
  return jax.tree_util.tree_map(lambda x: np.asarray(x)[i], tree)


def check_view(ck, tag, obs, st, frame, k, topk, observers=None):
  """obs of one (unbatched) state; all observers, or the given ones."""
  n = st.num_objects
  observers = range(n) if observers is None else observers
  sim = scenes.np_traj(st.sim_trajectory)
  tl = refobs.np_fields(st.log_traffic_light, refobs.TL_FIELDS)
  rg = refobs.np_fields(st.roadgraph_points, refobs.RG_FIELDS)
  t = int(st.timestep)
  sdc = int(np.argmax(np.asarray(st.object_metadata.is_sdc)))
  traj = scenes.np_traj(obs.trajectory)
  otl = refobs.np_fields(obs.traffic_lights, refobs.TL_FIELDS)
  org = refobs.np_fields(obs.roadgraph_static_points, refobs.RG_FIELDS)
  past = np.arange(t - k + 1, t + 1) >= 0
  for o in observers:
    who = {FRAMES.OBJECT: o, FRAMES.SDC: sdc}.get(frame)
    pose, ok = (0.0, 0.0, 0.0), True
    if who is not None:
      pose = tuple(float(sim[f][who, t]) for f in ('x', 'y', 'yaw'))
      ok = bool(sim['valid'][who, t])
    want = refobs.view(sim, tl, rg, pose, ok, t, k)
    d = refobs.same({f: a[o] for f, a in traj.items()}, want['traj'], past[None])
    ck.check(d is None, f'{tag}/objects', lambda: {'observer': o, 'diff': d})
    d = refobs.same({f: a[o] for f, a in otl.items()}, want['tl'], past[None])
    ck.check(d is None, f'{tag}/lights', lambda: {'observer': o, 'diff': d})
    keep, sure = refobs.nearest(rg, (sim['x'][o, t], sim['y'][o, t]), topk)
    mine = {f: a[o] for f, a in org.items()}
    ck.check(len(mine['x']) == topk, f'{tag}/road-count')
    if sure:
      # As a set of rows: which points, and each one's data in the frame.
      order = np.lexsort((mine['x'], mine['ids'], ~mine['valid']))
      w = {f: a[keep] for f, a in want['rg'].items()}
      worder = np.lexsort((w['x'], w['ids'], ~w['valid']))
      g = {f: a[order][:len(keep)] for f, a in mine.items()} if ok else mine
      if ok:
        d = refobs.same(g, {f: a[worder] for f, a in w.items()}, np.array(True))
        ck.check(d is None and int(mine['valid'].sum()) == len(keep),
                 f'{tag}/road', lambda: {'observer': o, 'diff': d})
      else:
        ck.check(not mine['valid'].any(), f'{tag}/road-invalid')
      ck.outcome('road judged')
    ck.check(bool(np.asarray(obs.pose2d.valid)[o]) == ok, f'{tag}/pose-valid')
    ck.close(f'{tag}/pose', np.asarray(obs.pose2d.original_xy)[o], pose[:2])
    ck.check(bool(ref.ang_close(np.asarray(obs.pose2d.original_yaw)[o], pose[2])),
             f'{tag}/pose-yaw')
    for f in ('ids', 'object_types', 'is_sdc', 'is_modeled', 'is_valid',
              'objects_of_interest', 'is_controlled'):
      ck.close(f'{tag}/metadata', np.asarray(getattr(obs.metadata, f))[o],
               np.asarray(getattr(st.object_metadata, f)))
  ck.close(f'{tag}/is_ego', obs.is_ego, np.eye(n, dtype=bool))
  ck.transitions += len(observers)
  ck.part('observers', len(observers))


_FN = {}


def observe(k, topk, frame):
  key = (k, topk, frame)
  if key not in _FN:
    _FN[key] = jax.jit(lambda s: datatypes.observation_from_state(
        s, obs_num_steps=k, roadgraph_top_k=topk, coordinate_frame=frame))
  return _FN[key]


def views(ck):
  """Every clock value, history length, frame and scene."""
  ck.rule = ('every (clock, history length, frame, road points kept, scene): the '
             'view of every observer against a NumPy reference')
  for v, t, k, frame in itertools.product(range(3), range(T), range(1, T + 1),
                                          FRAMES):
    if not ck.thorough and (v + t + k) % 3 == 2:
      continue
    topk = 1 + (k * 2) % P if k != 3 else P
    st = scene(v, t)
    obs = observe(k, topk, frame)(st)
    check_view(ck, f'view/{frame.name}/t={t}/history={k}', obs, st, frame, k, topk)
    ck.check(obs.shape == (N,) and obs.trajectory.shape == (N, N, k), 'view/shape')
    ck.state(repr((v, t, k, frame)).encode())
    ck.validated += 1
  ck.sample({'objects': N, 'steps': T, 'history': 'every length at every clock'})


def batches(ck):
  """Batched states give the views of each state; the clock may differ."""
  for batch in ((2,), (2, 2)):
    for frame in FRAMES:
      for t, k in ((3, 2), (1, 3), (5, 5)):
        st = scene(1, t, batch)
        obs = observe(k, 4, frame)(st)
        ck.check(obs.shape == batch + (N,), 'batch/shape')
        for i in np.ndindex(*batch):
          one = unbatch(obs, i)
          s1 = jax.tree_util.tree_map(
              lambda x: x[i] if np.ndim(x) >= len(batch) + 1 else x, st)
          check_view(ck, f'batch/{batch}/{frame.name}/t={t}/history={k}', one,
                     s1, frame, k, 4)
        ck.validated += 1
        ck.state(repr((batch, frame, t, k)).encode())


def composed(ck):
  """Going through any intermediate frame ends in the same view."""
  st = scene(2, 4)
  glob = datatypes.observation_from_state(st, 3, 5, FRAMES.GLOBAL)
  obs_mod = __import__('waymax.datatypes.observation', fromlist=['x'])
  poses = [(0.0, 0.0, 0.0), (5.0, -3.0, 1.2), (-400.0, 90.0, -3.0), (2.0, 2.0, 3.1),
           (0.0, 7.5, -1.6)]

  def pose(i, shift=0):
    p = np.array([poses[(i + o * shift) % len(poses)] for o in range(N)], np.float32)
    return datatypes.ObjectPose2D.from_center_and_yaw(
        jnp.asarray(p[:, :2]), jnp.asarray(p[:, 2]))

  for i, j, sh in itertools.product(range(len(poses)), range(len(poses)), (0, 1)):
    a = obs_mod.transform_observation(
        obs_mod.transform_observation(glob, pose(i, sh)), pose(j, sh))
    b = obs_mod.transform_observation(glob, pose(j, sh))
    for part in ('trajectory', 'roadgraph_static_points', 'traffic_lights'):
      for f, x in getattr(a, part).items():
        y = np.asarray(getattr(b, part)[f])
        good = (ref.ang_close(x, y, 3e-3) if f == 'yaw' else
                np.isclose(np.asarray(x, float), np.asarray(y, float), atol=5e-3,
                           rtol=1e-5))
        ck.check(bool(np.all(good)), f'composed/{part}/{f}', {'via': i, 'to': j})
    ck.part('compositions', 1)
    ck.transitions += 2
    # Both ways of describing a pose agree.
    p = pose(i, 1)
    q = datatypes.ObjectPose2D.from_transformation(p.matrix, p.delta_yaw, p.valid)
    ck.close('composed/pose-xy', q.original_xy, p.original_xy, atol=2e-3)
    ck.check(bool(np.all(ref.ang_close(q.original_yaw, p.original_yaw))),
             'composed/pose-yaw')
    # Undoing a frame change.
    c = obs_mod.combine_two_object_pose_2d(src_pose=p, dst_pose=p)
    ck.close('composed/identity', c.matrix,
             np.broadcast_to(np.eye(3), (N, 3, 3)), atol=2e-3)


PARTS = [views, batches, composed]
