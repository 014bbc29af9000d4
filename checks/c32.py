"""C32: planar geometry: frames, boxes, overlap, angles."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
import tensorflow as tf
from waymax import datatypes
from waymax.datatypes import observation as wobs
from waymax.utils import geometry

from wmc import core
from wmc import ref
from wmc import refobs
from wmc import scenes

LEVEL = 'model_checking'
PI = np.pi


def angles(thorough):
  k = 24 if thorough else 12
  a = np.arange(-2 * k, 2 * k + 1) * PI / k
  return np.concatenate([a, [1e-4, -1e-4, 3.1415, -3.1415, 10.0, -77.5]])


POS = np.asarray(list(itertools.product((0.0, 1.5, -40.0, 2048.0),
                                        (0.0, -2.25, 517.0))))
PTS = np.asarray([(0, 0), (1, 0), (0, 1), (-3, 4.5), (100, -250), (0.125, -8)],
                 np.float64)


def rot(a):
  a = np.asarray(a, np.float64)
  c, s = np.cos(a), np.sin(a)
  return np.stack([np.stack([c, -s], -1), np.stack([s, c], -1)], -2)


@core.sharded
def rotations(ck):
  """Rotation matrices and rotated points, with any prefix shape."""
  a = angles(ck.thorough).astype(np.float32)
  for prefix in ((), (1,), (3,), (2, 3), (1, 2, 2)):
    if not ck.mine():
      continue
    n = int(np.prod(prefix)) if prefix else 1
    groups = [a[i:i + n] for i in range(0, len(a) - n + 1, n)] or [a[:n]]
    f = jax.jit(geometry.rotation_matrix_2d)
    for tail in ((), (4,), (2, 3)):
      g = jax.jit(geometry.rotate_points)
      for grp in groups:
        ang = grp.reshape(prefix)
        tag = f'rotation/prefix={prefix}/tail={tail}/{grp.tolist()[:3]}'
        m = f(ang)
        ck.close(f'{tag}/matrix', m, rot(ang), atol=1e-5)
        size = int(np.prod(prefix + tail)) if prefix + tail else 1
        pts = PTS[np.arange(size) % len(PTS)].reshape(prefix + tail + (2,))
        want = np.einsum('...ab,...b->...a', rot(ang).reshape(
            prefix + (1,) * len(tail) + (2, 2)), pts)
        ck.close(f'{tag}/points', g(m, jnp.asarray(pts, jnp.float32)), want,
                 atol=1e-3, rtol=1e-5)
        ck.state(np.asarray(m))
        ck.part('rotations')
    if not prefix:
      for x in (0.5, 1, -2.0):
        ck.close(f'rotation/python number {x}', geometry.rotation_matrix_2d(x),
                 rot(x), atol=1e-5)


@core.sharded
def frames(ck):
  """A pose maps itself to the origin facing +x, keeping shape and size."""
  a = angles(ck.thorough)
  for k, prefix in enumerate(((), (1,), (4,), (2, 3))):
    n = int(np.prod(prefix)) if prefix else 1
    poses = [(x, y, w) for (x, y), w in itertools.product(POS, a)]
    poses = poses[::1 if ck.thorough else max(1, 4 - k)]
    if prefix and len(poses) % n:
      poses += poses[:n - len(poses) % n]
    fpose = geometry.pose_from_xy_yaw
    fpts = jax.jit(geometry.transform_points)
    fdir = jax.jit(geometry.transform_direction)
    ftraj = jax.jit(geometry.transform_trajectories)
    for tail in ((), (6,), (2, 3)):
      if not ck.mine():
        continue
      size = int(np.prod(prefix + tail)) if prefix + tail else 1
      for i in range(0, len(poses), n):
        p = np.asarray(poses[i:i + n], np.float32).astype(np.float64).reshape(
            prefix + (3,))
        tag = f'frames/prefix={prefix}/tail={tail}/pose {poses[i]}'
        m, dyaw = fpose(jnp.asarray(p[..., :2], jnp.float32),
                        jnp.asarray(p[..., 2], jnp.float32))
        ck.check(m.shape == prefix + (3, 3), f'{tag}/shape', m.shape)
        ex = tuple(p[..., j].reshape(prefix + (1,) * len(tail))
                   for j in range(3))
        off = PTS[np.arange(size) % len(PTS)].reshape(prefix + tail + (2,))
        pts = (off + np.stack([ex[0] + 0 * off[..., 0], ex[1] + 0 * off[..., 1]],
                              -1)).astype(np.float32)
        # float32 at 2 km resolves about 1e-3 m after the rotation.
        tol = 2e-3
        want = np.stack(refobs.to_frame(pts[..., 0].astype(np.float64),
                                        pts[..., 1].astype(np.float64), ex), -1)
        ck.close(f'{tag}/points', fpts(m, pts), want, atol=tol, rtol=1e-5)
        wdir = np.stack(refobs.turn(off[..., 0], off[..., 1], ex[2]), -1)
        ck.close(f'{tag}/directions', fdir(m, jnp.asarray(off, jnp.float32)),
                 wdir, atol=1e-3, rtol=1e-5)
        ck.close(f'{tag}/yaw', geometry.transform_yaw(
            dyaw, jnp.asarray(p[..., 2], jnp.float32)), np.zeros(prefix),
                 atol=1e-4)
        for dof in (5, 7):
          j = np.arange(size).reshape(prefix + tail)
          cols = [pts[..., 0], pts[..., 1], 4 + 0.5 * j, 2 + 0.25 * j,
                  0.3 * j - 1, 3.0 - j, 0.5 * j][:dof]
          tr = np.stack(np.broadcast_arrays(*cols), -1).astype(np.float32)
          w = tr.astype(np.float64).copy()
          w[..., :2] = want
          w[..., 4] -= ex[2]
          if dof == 7:
            w[..., 5:] = np.stack(refobs.turn(
                tr[..., 5].astype(np.float64), tr[..., 6].astype(np.float64),
                ex[2]), -1)
          got = ftraj(jnp.asarray(tr), m, dyaw)
          ck.close(f'{tag}/trajectory of {dof}', got, w, atol=tol, rtol=1e-5)
        ck.transitions += 1
        ck.state(np.asarray(m))
        ck.part('frames')
  if ck.mine():
    m, d = geometry.pose_from_xy_yaw(jnp.zeros(2), jnp.zeros(()))
    for dof in (4, 6, 8):
      try:
        geometry.transform_trajectories(jnp.zeros((3, dof)), m, d)
        ck.fail(f'frames/trajectory of {dof} accepted')
      except ValueError:
        pass


@core.sharded
def chains(ck):
  """Going through an intermediate frame is the same as going directly."""
  a = angles(False)[::5]
  t, n = 3, 2
  log = scenes.log_traj(n, t, np.asarray([[1, 1, 0], [0, 1, 1]], bool))
  few = POS[:8]
  combine = jax.jit(wobs.combine_two_object_pose_2d)
  tr = jax.jit(wobs.transform_trajectory)
  rg = jax.jit(wobs.transform_roadgraph_points)
  tl = jax.jit(wobs.transform_traffic_lights)
  pa = jax.jit(wobs.transform_paths)
  make = lambda xy, yaw, ok: datatypes.ObjectPose2D.from_center_and_yaw(
      jnp.asarray([xy], jnp.float32), jnp.asarray([yaw], jnp.float32),
      jnp.asarray([ok]))
  stack = lambda x: jax.tree_util.tree_map(lambda l: l[None], x)
  road, lights, paths = (scenes.roadgraph(6), scenes.traffic_lights(2, t),
                         scenes.paths(2, 4))
  tol = 5e-3
  for (i, p), q in itertools.product(enumerate(few), few[::2]):
    for u, v in itertools.product(a[::2], a[::3]):
      if not ck.mine():
        continue
      ok1, ok2 = (i % 3 != 0), (int(abs(u * 10)) % 4 != 1)
      one, two = make(p, u, ok1), make(q, v, ok2)
      tag = f'chain/{p.tolist()},{u:.3f} -> {q.tolist()},{v:.3f}'
      both = combine(one, two)
      ck.check(bool(np.asarray(both.valid)[0]) == (ok1 and ok2),
               f'{tag}/validity')
      # The combined pose is two seen from one.
      want_xy = np.stack(refobs.to_frame(*q, (p[0], p[1], u)))
      ck.close(f'{tag}/origin', both.original_xy[0], want_xy, atol=tol,
               rtol=1e-5)
      ck.check(ref.ang_close(both.original_yaw[0], v - u, 1e-4).all(),
               f'{tag}/heading', both.original_yaw[0])
      ck.check(ref.ang_close(both.delta_yaw[0], u - v, 1e-4).all(),
               f'{tag}/turn')
      ck.close(f'{tag}/rotation', both.rotation_matrix[0], rot(u - v),
               atol=1e-4)
      for name, f, x in (('trajectory', tr, log), ('road', rg, road),
                         ('lights', tl, lights), ('paths', pa, paths)):
        x = stack(x)
        direct, via = f(x, two), f(f(x, one), both)
        for fld in x.keys():
          g = np.asarray(getattr(via, fld))
          if fld == 'valid':
            w = np.asarray(x.valid) & ok1 & ok2
            ck.check(np.array_equal(g, w), f'{tag}/{name}/valid')
            ck.check(np.array_equal(np.asarray(direct.valid),
                                    np.asarray(x.valid) & ok2),
                     f'{tag}/{name}/direct valid')
            continue
          w = np.asarray(getattr(direct, fld), np.float64)
          if fld == 'yaw':
            ck.check(ref.ang_close(g, w, 1e-3).all(), f'{tag}/{name}/yaw')
          else:
            ck.close(f'{tag}/{name}/{fld}', g, w, atol=tol, rtol=1e-5)
          if fld in ('x', 'y'):
            wx = refobs.to_frame(np.asarray(x.x, np.float64),
                                 np.asarray(x.y, np.float64), (q[0], q[1], v))
            ck.close(f'{tag}/{name}/{fld} directly', w, wx['xy'.index(fld)],
                     atol=tol, rtol=1e-5)
          elif fld in ('vel_x', 'vel_y', 'dir_x', 'dir_y'):
            pre = fld[:4]
            wx = refobs.turn(np.asarray(getattr(x, pre + 'x'), np.float64),
                             np.asarray(getattr(x, pre + 'y'), np.float64), v)
            ck.close(f'{tag}/{name}/{fld} directly', w, wx['xy'.index(fld[4])],
                     atol=1e-3, rtol=1e-5)
          elif fld != 'yaw':
            ck.check(np.array_equal(w, np.asarray(getattr(x, fld))),
                     f'{tag}/{name}/{fld} unchanged')
      ck.state(both)
      ck.transitions += 2
      ck.part('chains')


SIZES = ((4.0, 2.0), (1.0, 1.0), (0.5, 3.0), (12.0, 2.5))


@core.sharded
def corners(ck):
  """Box corners: front right first, then counter-clockwise."""
  f = jax.jit(geometry.corners_from_bboxes)
  for (l, w), prefix in itertools.product(SIZES, ((), (1,), (5,), (2, 3))):
    if not ck.mine():
      continue
    n = int(np.prod(prefix)) if prefix else 1
    rows = [(x, y, l, w, a) for (x, y), a in itertools.product(
        POS, angles(ck.thorough))]
    rows += rows[:-len(rows) % n]
    for i in range(0, len(rows), n):
      b = np.asarray(rows[i:i + n], np.float32).reshape(prefix + (5,))
      want = ref.corners(*np.moveaxis(b.astype(np.float64), -1, 0))
      tag = f'corners/{prefix}/{rows[i]}'
      ck.close(tag, f(b), want, atol=1e-3, rtol=1e-5)
      if not prefix:
        ck.close(f'{tag}/single', geometry.corners_from_bbox(jnp.asarray(b)),
                 want, atol=1e-3, rtol=1e-5)
      ck.part('corners')
  if ck.mine():
    for batch in ((), (2,), (2, 2)):
      log = scenes.log_traj(3, 4, variant=1, batch=batch)
      a = {k: v.astype(np.float64) for k, v in scenes.np_traj(log).items()}
      ck.close(f'corners/trajectory/{batch}', log.bbox_corners, ref.corners(
          a['x'], a['y'], a['length'], a['width'], a['yaw']), atol=2e-3)
      ck.part('corners of a trajectory')


def box_pairs(thorough):
  """Two boxes: sizes x relative position x headings."""
  offs = np.asarray([-6.5, -3.25, -1.5, -0.25, 0.0, 0.75, 2.25, 4.5, 8.0])
  a = np.arange(0, 24, 1 if thorough else 2) * PI / 12 - PI
  return offs, a


@core.sharded
def overlap(ck):
  """Two boxes overlap iff no line separates them; symmetric; frame-free."""
  offs, a = box_pairs(ck.thorough)
  f = jax.jit(geometry.has_overlap)
  grid = np.asarray(list(itertools.product(offs, offs, a)))
  for (s1, s2), a1, at in itertools.product(
      itertools.product(SIZES, SIZES), a[::3], ((0.0, 0.0), (-40.0, 517.0))):
    if not ck.mine():
      continue
    n = len(grid)
    b1 = np.broadcast_to([at[0], at[1], s1[0], s1[1], a1], (n, 5)).astype(
        np.float32)
    b2 = np.stack([grid[:, 0] + at[0], grid[:, 1] + at[1],
                   np.full(n, s2[0]), np.full(n, s2[1]), grid[:, 2]],
                  -1).astype(np.float32)
    tag = f'overlap/{s1}/{s2}/{a1:.3f}/{at}'
    q1 = ref.corners(*np.moveaxis(b1.astype(np.float64), -1, 0))
    q2 = ref.corners(*np.moveaxis(b2.astype(np.float64), -1, 0))
    sep = ref.rect_separation(q1, q2)
    sure = np.abs(sep) > 1e-3
    got = np.asarray(f(b1, b2))
    back = np.asarray(f(b2, b1))
    for g, name in ((got, ''), (back, '/other way round')):
      bad = sure & (g != (sep < 0))
      ck.check(not bad.any(), tag + name, lambda: {
          'first': b1[bad][0], 'second': b2[bad][0], 'separation': sep[bad][0]})
    ck.transitions += n
    ck.outcome('overlapping', int((sep < 0)[sure].sum()))
    ck.outcome('apart', int((sep > 0)[sure].sum()))
    ck.part('overlap', int(sure.sum()), int(((sep < 0) & sure).sum()))
    # Seen from another frame.
    m, d = geometry.pose_from_xy_yaw(jnp.asarray([3.0, -7.0]),
                                     jnp.asarray(1.1 + a1))
    c1 = geometry.transform_trajectories(jnp.asarray(b1), m, d)
    c2 = geometry.transform_trajectories(jnp.asarray(b2), m, d)
    again = np.asarray(f(c1, c2))
    ck.check(not (sure & (again != got)).any(), f'{tag}/in another frame')
    ck.state(np.concatenate([b1[:1].ravel(), got.astype(np.float32)]))


@core.sharded
def pairwise(ck):
  """The pairwise matrix: symmetric, no self overlap, pair by pair."""
  offs, a = box_pairs(False)
  f = jax.jit(geometry.compute_pairwise_overlaps)
  for batch, n in itertools.product(((), (2,), (2, 3)), (1, 2, 3, 5)):
    if not ck.mine():
      continue
    total = (int(np.prod(batch)) if batch else 1) * n
    for k in range(60 if not ck.thorough else 400):
      j = np.arange(total) * 7 + k * 13
      rows = np.stack([offs[j % len(offs)], offs[(j // 3) % len(offs)],
                       1.0 + j % 4, 1.0 + j % 3 * 0.5,
                       a[(j // 2) % len(a)]], -1)
      b = rows.reshape(batch + (n, 5)).astype(np.float32)
      q = ref.corners(*np.moveaxis(b.astype(np.float64), -1, 0))
      sep = ref.rect_separation(q[..., :, None, :, :], q[..., None, :, :, :])
      want = (sep < 0) & ~np.eye(n, dtype=bool)
      sure = (np.abs(sep) > 1e-3) | np.eye(n, dtype=bool)
      got = np.asarray(f(b))
      tag = f'pairwise/{batch}/{n}/{k}'
      if not ck.check(got.shape == want.shape, f'{tag}/shape', got.shape):
        break
      ck.check(not (sure & (got != want)).any(), tag,
               lambda: {'boxes': b, 'got': got, 'want': want})
      ck.state(b)
      ck.part('pairwise', 1, bool(want.any()))


def yaws(ck):
  """Wrapping keeps the direction and lands in [-pi, pi]."""
  k = np.arange(-400, 401) * (PI / 40)
  a = np.concatenate([k, k + 1e-3, k - 1e-3, [1e3, -1e3]]).astype(np.float32)
  for name, got in (('jax', geometry.wrap_yaws(jnp.asarray(a))),
                    ('compiled', jax.jit(geometry.wrap_yaws)(a)),
                    ('tensorflow', geometry.wrap_yaws(tf.constant(a)).numpy()),
                    ('shaped', np.asarray(geometry.wrap_yaws(
                        jnp.asarray(a[:800].reshape(4, 20, 10)))).ravel())):
    got = np.asarray(got, np.float64)
    x = a[:len(got)].astype(np.float64)
    tol = 1e-6 * np.maximum(np.abs(x), 4)
    bad = (np.abs(ref.wrap(got - x)) > tol) | (np.abs(got) > PI + 1e-5)
    ck.check(not bad.any(), f'wrap/{name}', lambda: {
        'angle': x[bad][:3], 'got': got[bad][:3]})
    inside = np.abs(x) < PI - 1e-4
    ck.check((np.abs(got - x)[inside] < 1e-5).all(), f'wrap/{name}/inside')
    ck.part('wrap', len(got))
    ck.state(got)
  ck.rule = ('every pose, point, box pair and angle of a grid over the plane, '
             'with every prefix shape, against double precision')


PARTS = [rotations, frames, chains, corners, overlap, pairwise, yaws]
