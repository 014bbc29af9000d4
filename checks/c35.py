"""C35: moving the whole scene moves everything in it and changes nothing else."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from wmc import core
from wmc import worlds

LEVEL = 'model_checking'


class Motion:
  """A rotation by `angle` about the origin followed by a shift.

  A heading is told up to full turns; by default as one from -pi to pi, with
  `turns` as the recorded one plus the angle and that many turns.
  """

  def __init__(self, angle, dx, dy, dz, turns=None):
    self.angle, self.d, self.dz, self.turns = angle, (dx, dy), dz, turns
    self.c, self.s = np.cos(angle), np.sin(angle)

  def turn(self, x, y):
    x, y = np.asarray(x, np.float64), np.asarray(y, np.float64)
    return self.c * x - self.s * y, self.s * x + self.c * y

  def place(self, x, y):
    x, y = self.turn(x, y)
    return x + self.d[0], y + self.d[1]

  def head(self, yaw):
    a = np.asarray(yaw, np.float64) + self.angle
    if self.turns is not None:
      return a + 2 * np.pi * self.turns
    return (a + np.pi) % (2 * np.pi) - np.pi

  def tree(self, t):
    """A datatype with x, y, z and possibly headings, speeds, directions."""
    j = lambda v: jnp.asarray(np.asarray(v, np.float32))
    x, y = self.place(t.x, t.y)
    new = dict(x=j(x), y=j(y), z=j(np.asarray(t.z, np.float64) + self.dz))
    if hasattr(t, 'vel_x'):
      vx, vy = self.turn(t.vel_x, t.vel_y)
      new.update(vel_x=j(vx), vel_y=j(vy), yaw=j(self.head(t.yaw)))
    if hasattr(t, 'dir_x'):
      ux, uy = self.turn(t.dir_x, t.dir_y)
      new.update(dir_x=j(ux), dir_y=j(uy))
    return t.replace(**new)

  def scene(self, st):
    return st.replace(
        log_trajectory=self.tree(st.log_trajectory),
        sim_trajectory=self.tree(st.sim_trajectory),
        log_traffic_light=self.tree(st.log_traffic_light),
        roadgraph_points=self.tree(st.roadgraph_points),
        sdc_paths=self.tree(st.sdc_paths))

  def update(self, a):
    """Actions that name poses: (x, y, yaw, vel_x, vel_y)."""
    x, y = self.place(a[..., 0], a[..., 1])
    vx, vy = self.turn(a[..., 3], a[..., 4])
    return np.stack([x, y, self.head(a[..., 2]), vx, vy], -1)

  def shift(self, a):
    """Actions that name displacements in the world frame."""
    x, y = self.turn(a[..., 0], a[..., 1])
    return np.stack([x, y, np.asarray(a[..., 2], np.float64)], -1)

  def actions(self, w, acts):
    fn = {'State': self.update, 'DeltaGlobal': self.shift}.get(w.dyn)
    if fn is None:
      return acts
    return acts.replace(data=jnp.asarray(fn(np.asarray(acts.data)).astype(np.float32)))


def split(out):
  d = dict(out)
  groups = {}
  for k in d:
    if '.' in k and not k.startswith("['metrics']"):
      head, f = k.rsplit('.', 1)
      groups.setdefault(head, {})[f] = d[k]
  return d, groups


def expected(m, w, out):
  """What the run of the moved scene must show, from the original's run.

  Returns (values, masks): entries under a False mask are not compared.
  """
  d, groups = split(out)
  val, mask = dict(d), {}
  s = {k[9:-2]: v for k, v in d.items() if k.startswith("['sim']")}
  ok = s['valid']
  x, y = m.place(s['x'], s['y'])
  vx, vy = m.turn(s['vel_x'], s['vel_y'])
  new = dict(x=x, y=y, z=s['z'] + m.dz, yaw=m.head(s['yaw']), vel_x=vx, vel_y=vy)
  for f, v in new.items():
    val[f"['sim']['{f}']"] = v
    mask[f"['sim']['{f}']"] = ok
  for i in range(len(w.others)):
    k = f"['agents'][{i}]['data']"
    val[k] = (m.shift if d[k].shape[-1] == 3 else m.update)(d[k])
    mask[k] = d[f"['agents'][{i}]['valid']"]
    if d[k].shape[-1] == 3:
      # Displacements are limited per world axis: compare those within limits.
      mask[k] = mask[k] & (np.hypot(d[k][..., 0], d[k][..., 1]) < 5.99)[..., None]
  for head, g in groups.items():
    if 'pose2d' in head:
      # The reference pose itself is part of the world, not of the view.
      for f in g:
        mask[f'{head}.{f}'] = np.zeros(g[f].shape, bool)
      if 'GLOBAL' not in head:
        x, y = m.place(g['original_xy'][..., 0], g['original_xy'][..., 1])
        val[f'{head}.original_xy'] = np.stack([x, y], -1)
        mask[f'{head}.original_xy'] = g['valid'][..., None] & np.ones(2, bool)
        val[f'{head}.original_yaw'] = m.head(g['original_yaw'])
        mask[f'{head}.original_yaw'] = g['valid']
      mask.pop(f'{head}.valid', None)
      continue
    v = g.get('valid')
    if v is None or 'x' not in g:
      continue
    for f in g:
      if g[f].shape == v.shape and f != 'valid':
        mask[f'{head}.{f}'] = v
    val[f'{head}.z'] = g['z'] + m.dz
    if 'GLOBAL' in head:
      val[f'{head}.x'], val[f'{head}.y'] = m.place(g['x'], g['y'])
      if 'vel_x' in g:
        val[f'{head}.vel_x'], val[f'{head}.vel_y'] = m.turn(g['vel_x'], g['vel_y'])
        val[f'{head}.yaw'] = m.head(g['yaw'])
      if 'dir_x' in g:
        val[f'{head}.dir_x'], val[f'{head}.dir_y'] = m.turn(g['dir_x'], g['dir_y'])
  return val, mask


def unfit(v):
  return np.where(np.isfinite(v), v, 0)


ANGLES = (0.0, np.pi / 2, np.pi, -np.pi / 2, 0.7, -2.3)
SHIFTS = ((0.0, 0.0, 0.0), (64.0, -32.0, 3.0), (-700.5, 412.25, -20.0))


@core.sharded
def motions(ck):
  ck.rule = ('every (world, scene, action word, rotation, shift): the moved episode '
             'is the episode, moved')
  shifts = SHIFTS if not ck.thorough else SHIFTS + ((2000.0, 1500.0, 100.0),)
  angles = ANGLES if not ck.thorough else ANGLES + (0.001, 1.3, 2.9, -0.4)
  ms = [Motion(a, *d) for a, d in itertools.product(angles, shifts)]
  ms += [Motion(a, 0.0, 0.0, 0.0, turns) for a, turns in
         ((0.0, 1), (0.0, -1), (2.3, 0), (-2.3, 0), (1.9, -2))]
  for name in worlds.NAMES:
    if not ck.mine():
      continue
    w = worlds.world(name)
    words = w.actions(2 if not ck.thorough else 3)
    fn = jax.jit(jax.vmap(lambda st, a: w.go(w.begin(st), a)))
    for v in range(4 if not ck.thorough else 8):
      for k in (v % len(words), 3 - v % 4) if not ck.thorough else range(len(words)):
        st = worlds.scene(v)
        out = worlds.flat(fn(worlds.stack([m.scene(st) for m in ms]),
                             worlds.stack([m.actions(w, words[k]) for m in ms])))
        base = [(n, x[0]) for n, x in out]
        for i, m in enumerate(ms):
          if not i:
            continue
          val, mask = expected(m, w, base)
          far = max(abs(m.d[0]), abs(m.d[1]))
          key = f'motion/{name}/scene {v}/word {k}/turn {m.angle:.2f}/to {m.d}/turns {m.turns}'
          for n, x in out:
            got, want = x[i], val[n]
            if want.dtype.kind == 'f':
              if 'yaw' in n and got.shape == want.shape:
                got = want + (got - want + np.pi) % (2 * np.pi) - np.pi
              if n.endswith("['data']") and want.shape[-1] >= 3 and (
                  got.shape == want.shape):
                a = 2
                got = got.copy()
                got[..., a] = want[..., a] + (
                    got[..., a] - want[..., a] + np.pi) % (2 * np.pi) - np.pi
              got, want = unfit(got), unfit(want)
            ck.close(f'{key}/{n}', got, want, atol=4e-3 + 3e-5 * far, rtol=1e-4,
                     mask=mask.get(n))
          ck.state(repr((name, v, k, i)).encode())
        ck.part('moved episodes', len(ms) - 1)
        ck.transitions += len(ms) * 2
        ck.validated += len(ms)
  ck.sample({'angles': angles, 'shifts': shifts})


PARTS = [motions]
