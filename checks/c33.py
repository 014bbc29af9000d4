"""C33: rendered images show the scene they were asked to show."""
import itertools

import jax
import jax.numpy as jnp
import matplotlib
matplotlib.use('Agg')
from matplotlib import collections as mcoll
from matplotlib import colors as mcolors
from matplotlib import lines as mlines
from matplotlib import patches as mpatches
from matplotlib.backends import backend_agg
import numpy as np
from waymax import config as wconfig
from waymax import datatypes
from waymax.env.wrappers import brax_wrapper
from waymax.metrics import abstract_metric
from waymax.visualization import color
from waymax.visualization import viz

from wmc import core
from wmc import ref
from wmc import scenes

LEVEL = 'model_checking'
ROLE = {k: np.asarray(v, float) for k, v in color.COLOR_DICT.items()}
SHOWN = (1, 2, 3, 15, 16, 17, 18, 19)
OT = wconfig.ObjectType


class Drawn:
  """What the figures drawn during a call contain, as coloured primitives."""

  def __enter__(self):
    self.figs = []
    self.old = backend_agg.FigureCanvasAgg.draw
    seen = self.figs
    old = self.old

    def draw(canvas, *a, **k):
      if not any(f is canvas.figure for f in seen):
        seen.append(canvas.figure)
      return old(canvas, *a, **k)
    backend_agg.FigureCanvasAgg.draw = draw
    return self

  def __exit__(self, *a):
    backend_agg.FigureCanvasAgg.draw = self.old

  def read(self):
    """segments (n, 4 + 3), points (n, 2 + 3), texts, (xlim, ylim), axes."""
    segs, pts, texts = [], [], []
    if len(self.figs) != 1:
      raise AssertionError(f'{len(self.figs)} figures were drawn')
    axes = [a for a in self.figs[0].axes if a.get_visible()]
    ax = axes[0]

    def add_path(xy, rgb):
      xy = np.asarray(xy, float)
      for p, q in zip(xy[:-1], xy[1:]):
        if np.isfinite(p).all() and np.isfinite(q).all() and (p != q).any():
          segs.append((*p, *q, *rgb))

    for a in ax.get_children():
      if not a.get_visible():
        continue
      if isinstance(a, mlines.Line2D):
        xy = np.stack([np.asarray(a.get_xdata(), float).ravel(),
                       np.asarray(a.get_ydata(), float).ravel()], -1)
        rgb = mcolors.to_rgb(a.get_color())
        if a.get_linestyle() not in ('None', '', ' ', None):
          add_path(xy, rgb)
        if a.get_marker() not in ('None', '', ' ', None):
          mrgb = a.get_markerfacecolor()
          mrgb = rgb if isinstance(mrgb, str) and mrgb == 'auto' else (
              mcolors.to_rgb(mrgb))
          pts += [(*p, *mrgb) for p in xy if np.isfinite(p).all()]
      elif isinstance(a, mpatches.Patch):
        if a is ax.patch:
          continue
        rgb = a.get_edgecolor() if a.get_edgecolor()[3] > 0 else a.get_facecolor()
        for poly in a.get_transform().transform_path(a.get_path()).to_polygons(
            closed_only=False):
          add_path(ax.transData.inverted().transform(poly), rgb[:3])
      elif isinstance(a, mcoll.Collection):
        offs = np.asarray(a.get_offsets(), float).reshape(-1, 2)
        if isinstance(a, (mcoll.PathCollection, mcoll.RegularPolyCollection)):
          cols = a.get_facecolors()
          for i, p in enumerate(offs):
            if np.isfinite(p).all():
              pts.append((*p, *cols[i % len(cols)][:3]))
        else:
          cols = a.get_edgecolors()
          if not len(cols):
            cols = a.get_facecolors()
          for i, path in enumerate(a.get_paths()):
            for poly in path.to_polygons(closed_only=False):
              add_path(poly, cols[i % len(cols)][:3])
    for a in ax.texts:
      if a.get_visible():
        texts.append((str(a.get_text()), *(float(v) for v in a.get_position())))
    return (np.array(segs, float).reshape(-1, 7),
            np.array(pts, float).reshape(-1, 5), texts,
            (*ax.get_xlim(), *ax.get_ylim()), ax)


def of(rows, rgb):
  return rows[np.abs(rows[:, -3:] - rgb).max(-1) < 0.02][:, :-3]


def has_point(rows, xy, tol=1e-3):
  return len(rows) and (np.abs(rows - xy).max(-1) < tol).any()


def has_segment(rows, p, q, tol=1e-3):
  if not len(rows):
    return False
  a = np.concatenate([p, q])
  b = np.concatenate([q, p])
  return ((np.abs(rows - a).max(-1) < tol) |
          (np.abs(rows - b).max(-1) < tol)).any()


def corners(x, y, l, w, yaw):
  c, s = np.cos(yaw), np.sin(yaw)
  u, v = np.array([c, s]), np.array([-s, c])
  o = np.array([x, y])
  return [o + l / 2 * u + w / 2 * v, o + l / 2 * u - w / 2 * v,
          o - l / 2 * u - w / 2 * v, o - l / 2 * u + w / 2 * v]


def inside(p, x, y, l, w, yaw, eps=1e-2):
  """Whether points p (n, 2) lie in the (slightly inflated) box."""
  d = p - np.array([x, y])
  c, s = np.cos(yaw), np.sin(yaw)
  return (np.abs(d[:, 0] * c + d[:, 1] * s) <= l / 2 + eps) & (
      np.abs(-d[:, 0] * s + d[:, 1] * c) <= w / 2 + eps)


def make(n, steps, valid, near=(), variant=0, off=(0.0, 0.0), batch=()):
  """A log whose boxes are far apart, except objects moved onto another.

  near: pairs (i, j): object i lies half a box from object j at every step.
  """
  o = np.arange(n)[:, None]
  t = np.arange(steps)[None, :]
  x = off[0] + 13.0 * t - 20.0 + 0.25 * o
  y = off[1] + 14.0 * o - 15.0 + 0.5 * t
  for i, j in near:
    x[i] = x[j] + 1.5
    y[i] = y[j] + 0.75
  yaw = np.array([0.25, 2.0, -2.5, 3.0, -0.75])[(o + variant) % 5] + 0.05 * t
  yaw = np.broadcast_to(yaw, x.shape).copy()
  f = dict(x=x, y=y, z=0 * x, yaw=yaw, vel_x=1 + 0 * x, vel_y=0 * x,
           length=4.0 + 0.5 * o + 0 * x, width=1.75 + 0.25 * o + 0 * x,
           height=1.5 + 0 * x, timestamp_micros=100_000 * t + 0 * x)
  f['valid'] = np.broadcast_to(np.asarray(valid, bool), x.shape)
  if batch:
    f = {k: np.broadcast_to(v, tuple(batch) + v.shape) for k, v in f.items()}
  return scenes.traj(**f)


def overlapping(f, t):
  """Currently valid objects whose box meets another currently valid box."""
  n = f['x'].shape[0]
  out = np.zeros(n, bool)
  box = [(f['x'][i, t], f['y'][i, t], f['length'][i, t], f['width'][i, t],
          f['yaw'][i, t]) for i in range(n)]
  for i in range(n):
    for j in range(n):
      if i != j and f['valid'][i, t] and f['valid'][j, t]:
        # Scenes are built so that boxes are far apart or clearly overlapping.
        d = np.hypot(box[i][0] - box[j][0], box[i][1] - box[j][1])
        out[i] |= d < 3.0
  return out


def scenery(rg, tl, t):
  return np.concatenate([
      np.stack([np.asarray(rg.x), np.asarray(rg.y)], -1),
      np.stack([np.asarray(tl.x)[:, t], np.asarray(tl.y)[:, t]], -1)])


def check_boxes(ck, key, segs, pts, f, t, controlled, extra=()):
  """Boxes, history and future marks, by role colour.

  extra: where map points and lights are (which may have a role's colour).
  """
  n, steps = f['x'].shape
  extra = np.asarray(extra, float).reshape(-1, 2)
  pts = np.array([q for q in pts if not has_point(extra, q[:2], 2e-3)],
                 float).reshape(-1, 5)
  over = overlapping(f, t)
  own = {}
  for i in range(n):
    if f['valid'][i, t]:
      own.setdefault('controlled' if controlled[i] else 'context', []).append(i)
      if over[i]:
        own.setdefault('overlap', []).append(i)
  for role in ('controlled', 'context', 'overlap'):
    rows = of(segs, ROLE[role])
    left = np.ones(len(rows), bool)
    for i in own.get(role, ()):
      box = tuple(float(f[k][i, t]) for k in ('x', 'y', 'length', 'width', 'yaw'))
      c = corners(*box)
      for p, q in zip(c, c[1:] + c[:1]):
        ck.check(has_segment(rows, p, q), f'{key}/{role} box edge of {i}',
                 lambda: {'edge': [p, q], 'drawn': rows[:12]})
      # The heading: something of the box's colour points to its front.
      front = (c[0] + c[1]) / 2
      back = (c[2] + c[3]) / 2
      ends = rows.reshape(-1, 2)
      ck.check(has_point(ends, front), f'{key}/{role} heading of {i}',
               lambda: {'front': front, 'drawn': rows[:12]})
      ck.check(not has_point(ends, back) or has_point(ends, front),
               f'{key}/{role} heading reversed of {i}')
      ck.check(not has_point(ends, back), f'{key}/{role} heading back of {i}',
               lambda: {'back': back})
      left &= ~(inside(rows[:, :2], *box) & inside(rows[:, 2:], *box))
    rest = rows[left]
    # Of this colour there may further be small marks of later valid steps.
    ok = np.zeros(len(rest), bool)
    mid = (rest[:, :2] + rest[:, 2:]) / 2
    for i in range(n):
      if role == 'overlap' or (role == 'controlled') != bool(controlled[i]):
        continue
      for s in range(t + 1, steps):
        if f['valid'][i, s]:
          box = tuple(float(f[k][i, s]) for k in ('x', 'y', 'length', 'width', 'yaw'))
          small = box[:2] + (box[2] * 0.5, box[3] * 0.5, box[4])
          hit = inside(mid, *small)
          ok |= hit
          mark = hit.any() or inside(of(pts, ROLE[role]), *small).any()
          ck.check(mark, f'{key}/{role} later step {s} of {i} not marked')
    ck.check(ok.all(), f'{key}/{role} drawn where no valid object is',
             lambda: {'strays': rest[~ok][:6]})
  # History: one point per earlier valid step, none else.
  hist = of(pts, ROLE['history'])
  want = [(f['x'][i, s], f['y'][i, s]) for i in range(n) for s in range(t)
          if f['valid'][i, s]]
  match_points(ck, f'{key}/history', hist, want)
  for role in ('controlled', 'context', 'overlap'):
    p = of(pts, ROLE[role])
    if role != 'overlap':
      keep = np.ones(len(p), bool)
      for i in range(n):
        for s in range(t, steps):
          if f['valid'][i, s] and (role == 'controlled') == bool(controlled[i]):
            keep &= ~inside(p, *(float(f[k][i, s]) for k in (
                'x', 'y', 'length', 'width', 'yaw')))
      p = p[keep]
    ck.check(not len(p), f'{key}/{role} points where no valid object is',
             lambda: {'points': p[:6]})


def match_points(ck, key, got, want, tol=2e-3):
  want = np.asarray(want, float).reshape(-1, 2)
  for w in want:
    if not ck.check(has_point(got, w, tol), f'{key} point missing',
                    lambda: {'point': w, 'drawn': got[:12]}):
      return
  for g in got:
    if not ck.check(has_point(want, g, tol), f'{key} point not in the scene',
                    lambda: {'point': g, 'want': want[:12]}):
      return


def check_ids(ck, key, texts, f, t, show):
  ids = {}
  for s, x, y in texts:
    ids.setdefault(s, []).append((x, y))
  for i in range(f['x'].shape[0]):
    want = show and bool(f['valid'][i, t])
    here = ids.pop(str(i), [])
    ck.check((len(here) == 1) == want and len(here) <= 1,
             f'{key}/label of object {i}', {'drawn': here, 'wanted': want})
    for x, y in here:
      ck.check(np.hypot(x - f['x'][i, t], y - f['y'][i, t]) < 5,
               f'{key}/label of object {i} elsewhere', {'at': (x, y)})
  return ids


def check_map(ck, key, pts, rg, tl_xy, f):
  """Road points of the shown types; lights and objects are checked apart."""
  cars = np.stack([f['x'], f['y']], -1).reshape(-1, 2)
  pts = np.array([q for q in pts if not has_point(cars, q[:2], 2e-3)],
                 float).reshape(-1, 5)
  want = {}
  if rg is not None:
    types, valid = np.asarray(rg.types), np.asarray(rg.valid)
    xy = np.stack([np.asarray(rg.x), np.asarray(rg.y)], -1)
    for i in range(len(types)):
      if valid[i] and int(types[i]) in SHOWN:
        rgb = tuple(np.round(np.asarray(
            color.ROAD_GRAPH_COLORS[int(types[i])], float), 4))
        want.setdefault(rgb, []).append(xy[i])
  palette = {tuple(np.round(np.asarray(c, float), 4))
             for c in color.ROAD_GRAPH_COLORS.values()} | {(0.9, 0.9, 0.9)}
  for rgb in sorted(palette):
    got = of(pts, np.array(rgb))
    # Points of lights and boxes may have the same colour as a road feature.
    keep = np.ones(len(got), bool)
    for p in tl_xy:
      keep &= np.abs(got - p).max(-1) > 2e-3
    wanted = [w for c, ws in want.items()
              if np.abs(np.array(c) - rgb).max() < 0.02 for w in ws]
    match_points(ck, f'{key}/road colour {rgb}', got[keep], wanted)


STOP, CAUTION, GO = (1., 0, 0), (1., 1, 0), (0, 1., 0)
LIGHT = {1: STOP, 4: STOP, 2: CAUTION, 5: CAUTION, 3: GO, 6: GO}


def check_lights(ck, key, pts, tl, t):
  n = np.asarray(tl.x).shape[0]
  for i in range(n):
    xy = np.array([float(tl.x[i, t]), float(tl.y[i, t])])
    at = pts[np.abs(pts[:, :2] - xy).max(-1) < 2e-3] if len(pts) else pts
    if not bool(tl.valid[i, t]):
      ck.check(not len(at), f'{key}/invalid light {i} drawn')
      continue
    state = int(tl.state[i, t])
    rgb = np.array(LIGHT.get(state, color.TRAFFIC_LIGHT_COLORS[state]), float)
    ck.check(len(at) == 1 and np.abs(at[0, 2:] - rgb).max() < 0.02,
             f'{key}/light {i} of state {state}', {'drawn': at, 'colour': rgb})
  # Other steps of the lights are at other places.
  for i in range(n):
    for s in range(np.asarray(tl.x).shape[1]):
      xy = np.array([float(tl.x[i, s]), float(tl.y[i, s])])
      if s != t and len(pts):
        ck.check(not (np.abs(pts[:, :2] - xy).max(-1) < 2e-3).any(),
                 f'{key}/light {i} drawn as of step {s} at step {t}')


def check_view(ck, key, img, lim, centre, cfg):
  fx, bx, fy, by = (cfg.get(k, 75.0) for k in
                    ('front_x', 'back_x', 'front_y', 'back_y'))
  ppm = cfg.get('px_per_meter', 4.0)
  want = (centre[0] - bx, centre[0] + fx, centre[1] - by, centre[1] + fy)
  ck.close(f'{key}/limits of the view', np.array(lim), np.array(want), atol=1e-2)
  ck.check(isinstance(img, np.ndarray) and img.dtype == np.uint8 and img.shape ==
           (round((fy + by) * ppm), round((fx + bx) * ppm), 3),
           f'{key}/image', {'shape': getattr(img, 'shape', None),
                            'dtype': str(getattr(img, 'dtype', None))})


def pixel(img, ax, xy, r=1):
  """The (2r+1)^2 image patch at data coordinates, as rgb in [0, 1]."""
  col, row = ax.transData.transform(np.asarray(xy, float))
  i, j = int(round(img.shape[0] - 0.5 - row)), int(round(col - 0.5))
  return img[max(i - r, 0):i + r + 1, max(j - r, 0):j + r + 1].reshape(-1, 3) / 255.0


def lights(n, steps, states, valid, off=(0.0, 0.0)):
  l = np.arange(n)[:, None]
  t = np.arange(steps)[None, :]
  bc = lambda v, dt: jnp.asarray(np.broadcast_to(v, (n, steps)).astype(dt))
  return datatypes.TrafficLights(
      x=bc(off[0] + 6.0 * l - 30.0 + 0.75 * t, np.float32),
      y=bc(off[1] - 40.0 + 2.0 * t + 0 * l, np.float32), z=bc(0 * l + 0 * t, np.float32),
      state=bc(states, np.int32), lane_ids=bc(900 + l + 0 * t, np.int32),
      valid=bc(valid, bool))


def road(types, valid, off=(0.0, 0.0)):
  k = len(types)
  i = np.arange(k)
  j = lambda v, dt=np.float32: jnp.asarray(np.asarray(v).astype(dt))
  return datatypes.RoadgraphPoints(
      x=j(off[0] + 3.0 * i - 30.0), y=j(off[1] + 50.0 + 0.5 * i), z=j(0 * i),
      dir_x=j(1 + 0 * i), dir_y=j(0 * i), dir_z=j(0 * i),
      types=j(types, np.int32), ids=j(i, np.int32), valid=j(valid, bool))


def scene(n=3, steps=4, valid=True, near=(), variant=0, t=1, sdc=0, off=(0., 0.),
          states=0, tl_valid=True, tl=2, types=None, rg_valid=True, paths=None,
          modeled=None):
  log = make(n, steps, valid, near, variant, off)
  # The simulation went elsewhere (so that using the wrong one shows).
  sim = log.replace(x=log.x + 2.5, y=log.y - 3.25)
  types = np.array([2, 15, 6, 17]) if types is None else np.asarray(types)
  return datatypes.SimulatorState(
      sim_trajectory=sim, log_trajectory=log,
      log_traffic_light=lights(tl, steps, states, tl_valid, off),
      object_metadata=scenes.metadata(n, sdc=sdc, modeled=modeled),
      timestep=jnp.asarray(t, jnp.int32), sdc_paths=paths,
      roadgraph_points=road(types, np.broadcast_to(rg_valid, types.shape), off))


def control(meta, kind):
  m = {k: np.asarray(getattr(meta, k)) for k in ('is_sdc', 'is_modeled', 'is_valid')}
  return {OT.SDC: m['is_sdc'], OT.MODELED: m['is_modeled'],
          OT.VALID: m['is_valid'], OT.NON_SDC: ~m['is_sdc']}[kind]


SMALL = dict(px_per_meter=1.0)


def one(ck, key, st, use_log=True, cfg=None, highlight=OT.SDC, batch_idx=-1,
        full=None):
  """Renders st (full: the batched state to hand over) and compares."""
  cfg = dict(SMALL, **(cfg or {}))
  given = st if full is None else full
  before = core.digest(given)
  with Drawn() as d:
    img = viz.plot_simulator_state(
        given, use_log_traj=use_log, viz_config=cfg, batch_idx=batch_idx,
        highlight_obj=highlight)
    segs, pts, texts, lim, ax = d.read()
  ck.check(core.digest(given) == before, f'{key}/the state was changed')
  f = scenes.np_traj(st.log_trajectory if use_log else st.sim_trajectory)
  t = int(st.timestep)
  controlled = control(st.object_metadata, highlight)
  check_boxes(ck, key, segs, pts, f, t, controlled,
              scenery(st.roadgraph_points, st.log_traffic_light, t))
  left = check_ids(ck, key, texts, f, t, cfg.get('show_agent_id', True))
  ck.check(not left, f'{key}/labels of no object', {'texts': left})
  tl = st.log_traffic_light
  tlxy = [np.array([float(tl.x[i, t]), float(tl.y[i, t])])
          for i in range(tl.x.shape[0]) if bool(tl.valid[i, t])]
  check_map(ck, key, pts, st.roadgraph_points, tlxy, f)
  check_lights(ck, key, pts, tl, t)
  who = cfg.get('center_agent_idx', -1)
  if who == -1:
    who = int(np.argmax(np.asarray(st.object_metadata.is_sdc)))
  check_view(ck, key, img, lim, (f['x'][who, t], f['y'][who, t]), cfg)
  ck.state([np.asarray(x) for x in jax.tree_util.tree_leaves(st)] +
           [np.array([use_log, highlight.value, t, who])])
  ck.transitions += 1
  ck.validated += 1
  return img, ax


@core.sharded
def validity(ck):
  """Every validity pattern of three objects over past, current and future."""
  cases = 0
  for bits in itertools.product((False, True), repeat=9):
    if not ck.mine():
      continue
    v = np.array(bits).reshape(3, 3)
    if not v[:, 1].any() and bits[0]:
      continue
    use_log = bool(sum(bits) % 2)
    kind = (OT.SDC, OT.MODELED, OT.NON_SDC, OT.VALID)[sum(
        b * (i + 1) for i, b in enumerate(bits)) % 4]
    st = scene(3, 3, v, t=1, sdc=sum(bits) % 3,
               near=((2, 1),) if bits[0] ^ bits[4] else ())
    one(ck, f'validity {np.array(bits).astype(int)}', st, use_log, highlight=kind)
    cases += 1
  ck.part('every validity of 3 objects at the past, current and next step', cases)


@core.sharded
def roles(ck):
  """Roles, current step, SDC, overlap structure and trajectory source."""
  nears = ((), ((1, 0),), ((2, 1),), ((1, 0), (2, 0)))
  cases = 0
  for kind in (OT.SDC, OT.MODELED, OT.VALID, OT.NON_SDC):
    for near in nears:
      for t in range(4):
        for use_log in (True, False):
          if not ck.mine():
            continue
          k = cases + t
          v = np.ones((4, 4), bool)
          if k % 3 == 1:
            v[1, t] = False
          st = scene(4, 4, v, t=t, sdc=k % 4, near=near, variant=k % 5,
                     off=((0., 0.), (1500.0, -900.0))[k % 2],
                     modeled=np.array([k & 1, 1, 0, k & 2], bool))
          one(ck, f'{kind.name}/near {near}/step {t}/log {use_log}', st, use_log,
              highlight=kind, cfg=dict(show_agent_id=bool((k + t) % 2)))
          cases += 1
  ck.part('role x overlap structure x step x trajectory source', cases)


@core.sharded
def maps(ck):
  """Road point types and validity; light states, validity and step."""
  cases = 0
  for t in range(3):
    for s in range(9):
      if not ck.mine():
        continue
      states = (s + np.arange(2)[:, None] + 2 * np.arange(3)[None, :]) % 9
      tv = ((s + np.arange(2)[:, None] + np.arange(3)[None, :]) % 3) != 0
      types = (np.arange(10) + 2 * s + t) % 21
      rv = (np.arange(10) + s) % 4 != 1
      st = scene(2, 3, True, t=t, states=states, tl_valid=tv, types=types,
                 rg_valid=rv, off=((0., 0.), (-700.0, 1200.0))[s % 2])
      one(ck, f'map/states from {s}/step {t}', st)
      cases += 1
  for name, kw in (('no valid light', dict(tl_valid=False)),
                   ('no valid road point', dict(rg_valid=False)),
                   ('neither', dict(tl_valid=False, rg_valid=False))):
    if ck.mine():
      one(ck, f'map/{name}', scene(2, 3, True, t=1, **kw))
      cases += 1
  ck.part('light states and validity x step, road point types and validity', cases)


@core.sharded
def views(ck):
  """Centre, extent and scale of the view."""
  cases = 0
  extents = (dict(), dict(front_x=30.0, back_x=10.0, front_y=20.0, back_y=50.0),
             dict(front_x=10.0, back_x=60.0, front_y=40.0, back_y=5.0,
                  px_per_meter=3.0))
  for cfg in extents:
    for who in (-1, 0, 1, 2):
      for sdc in (0, 2):
        for use_log in (True, False):
          if not ck.mine():
            continue
          st = scene(3, 3, True, t=1, sdc=sdc, off=(100.0 * sdc, -40.0))
          c = dict(cfg)
          if who != -1:
            c['center_agent_idx'] = who
          one(ck, f'view {sorted(c.items())}/sdc {sdc}/log {use_log}', st,
              use_log, cfg=c)
          cases += 1
  ck.part('extent x centre x SDC x source', cases)


@core.sharded
def pixels(ck):
  """The pixels of the image agree with what was asked to be drawn."""
  cases = 0
  for t, near, use_log in itertools.product(
      (0, 1, 2), ((), ((1, 0),)), (True, False)):
    if not ck.mine():
      continue
    st = scene(2, 3, True, t=t, near=near, states=(
        1 + np.arange(3)[:, None] + 0 * np.arange(3)[None, :]), tl=3)
    key = f'pixels/step {t}/near {near}/log {use_log}'
    img, ax = one(ck, key, st, use_log, cfg=dict(px_per_meter=6.0))
    f = scenes.np_traj(st.log_trajectory if use_log else st.sim_trajectory)
    over = overlapping(f, t)
    for i in range(2):
      box = tuple(float(f[k][i, t]) for k in ('x', 'y', 'length', 'width', 'yaw'))
      c = corners(*box)
      role = 'overlap' if over[i] else ('controlled' if i == 0 else 'context')
      mid = (c[2] + c[3]) / 2
      px = pixel(img, ax, mid)
      dist = {r: np.abs(px - ROLE[r]).max(-1).min() for r in
              ('overlap', 'controlled', 'context')}
      ck.check(dist[role] < 0.25 and min(dist, key=dist.get) == role,
               f'{key}/object {i} does not look {role}', dist)
    tl = st.log_traffic_light
    for i in range(3):
      px = pixel(img, ax, (float(tl.x[i, t]), float(tl.y[i, t])), 0)
      rgb = LIGHT[i + 1]
      ck.check(np.abs(px - np.array(rgb)).max() < 0.25,
               f'{key}/light {i} does not look {rgb}', {'pixel': px})
    cases += 1
  ck.part('pixels of boxes and lights', cases)


@core.sharded
def batches(ck):
  cases = 0
  for b in range(3):
    for k, highlight in enumerate((OT.SDC, OT.MODELED)):
      if not ck.mine():
        continue
      sts = [scene(3, 3, np.arange(9).reshape(3, 3) % 4 != i, t=1, sdc=i,
                   off=(50.0 * i, -30.0 * i), variant=i, states=i) for i in range(3)]
      full = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *sts)
      # Environments keep one step count for the whole batch.
      full = full.replace(timestep=jnp.asarray(1, jnp.int32))
      one(ck, f'batch element {b}/{highlight.name}', sts[b], bool(k),
          highlight=highlight, batch_idx=b, full=full)
      cases += 1
  sts = [scene(2, 3, True, t=1), scene(2, 3, True, t=1)]
  full = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *sts)
  full = full.replace(timestep=jnp.asarray(1, jnp.int32))
  bad = [(lambda: viz.plot_simulator_state(full, viz_config=SMALL), 'batched, no index'),
         (lambda: viz.plot_simulator_state(sts[0], viz_config=SMALL, batch_idx=0),
          'index, not batched'),
         (lambda: viz.plot_single_agent_brax_timestep(
             ts_of(full, {}), viz_config=SMALL), 'brax batched, no index'),
         (lambda: viz.plot_single_agent_brax_timestep(
             ts_of(sts[0], {}), viz_config=SMALL, batch_idx=0),
          'brax index, not batched')]
  for fn, name in bad:
    if not ck.mine():
      continue
    try:
      fn()
      ok = False
    except ValueError:
      ok = True
    ck.check(ok, f'refusal/{name}')
    cases += 1
  ck.part('batch elements, and refusals of other shapes', cases)


def ts_of(st, metrics):
  z = jnp.zeros(())
  return brax_wrapper.TimeStep(
      state=st, observation=z, reward=z, done=jnp.asarray(False), metrics=metrics,
      discount=z)


@core.sharded
def observations(ck):
  """plot_observation shows what that object's observation holds."""
  cases = 0
  FR = wconfig.CoordinateFrame
  frames = (FR.GLOBAL, FR.OBJECT, FR.SDC)
  for frame, t, who, steps in itertools.product(frames, (0, 2, 3), (0, 1, 2), (1, 3)):
    if not ck.mine((frame, steps)):
      continue
    v = np.ones((3, 4), bool)
    v[(who + 1) % 3, t] = t != 2
    v[2, max(t - 1, 0)] = who == 2 or t == 0
    st = scene(3, 4, v, t=t, sdc=1, near=((2, 0),) if t == 3 else (),
               states=np.arange(8).reshape(2, 4) % 9, variant=who)
    obs = datatypes.observation_from_state(
        st, obs_num_steps=steps, roadgraph_top_k=3, coordinate_frame=frame)
    key = f'observation/{frame.name}/step {t}/of object {who}/{steps} steps'
    before = core.digest(obs)
    cfg = dict(SMALL)
    if who == 2 and t != 2:
      cfg['center_agent_idx'] = 0
    kind = (OT.SDC, OT.MODELED)[(who + t) % 2]
    with Drawn() as d:
      img = viz.plot_observation(obs, who, viz_config=cfg, highlight_obj=kind)
      segs, pts, texts, lim, ax = d.read()
    ck.check(core.digest(obs) == before, f'{key}/the observation was changed')
    mine = jax.tree_util.tree_map(lambda x, who=who: np.asarray(x)[who], obs)
    f = scenes.np_traj(mine.trajectory)
    cur = f['x'].shape[1] - 1
    check_boxes(ck, key, segs, pts, f, cur, control(mine.metadata, kind),
                scenery(mine.roadgraph_static_points, mine.traffic_lights, cur))
    left = check_ids(ck, key, texts, f, cur, True)
    ck.check(not left, f'{key}/labels of no object', {'texts': left})
    tl = mine.traffic_lights
    tlxy = [np.array([tl.x[i, cur], tl.y[i, cur]]) for i in range(2) if tl.valid[i, cur]]
    check_map(ck, key, pts, mine.roadgraph_static_points, tlxy, f)
    check_lights(ck, key, pts, tl, cur)
    c = cfg.get('center_agent_idx', int(np.argmax(mine.metadata.is_sdc)))
    check_view(ck, key, img, lim, (f['x'][c, cur], f['y'][c, cur]), cfg)
    ck.transitions += 1
    ck.validated += 1
    cases += 1
    # The same through a batch of observations.
    both = jax.tree_util.tree_map(lambda x: jnp.stack([x[::-1], x]), obs)
    with Drawn() as d:
      img2 = viz.plot_observation(both, who, viz_config=cfg, batch_idx=1,
                                  highlight_obj=kind)
    ck.check(np.array_equal(img, img2), f'{key}/batched observation looks otherwise')
  ck.part('frame x step x observer x history length', cases)


@core.sharded
def brax(ck):
  """Brax time steps: simulated scene, path points and valid metrics."""
  cases = 0
  M = abstract_metric.MetricResult
  for k, (t, routes) in enumerate(itertools.product(
      (0, 1, 2), (None, (True, False), (False, True), (True, True)))):
    if not ck.mine():
      continue
    if routes is None:
      paths = None
    else:
      pv = np.array([[1, 1, 1, 1, 0], [1, 1, 0, 0, 0]], bool)
      paths = scenes.paths(3, 5, on_route=np.array([[routes[0]], [routes[1]], [True]]),
                           valid=np.concatenate([pv, np.zeros((1, 5), bool)]))
      paths = paths.replace(x=paths.x + 0.375, y=paths.y + 61.0)
    for use_log in (False, True):
      st = scene(3, 3, np.arange(9).reshape(3, 3) % 4 != k % 4, t=t, sdc=k % 3,
                 paths=paths, near=((1, 0),) if k % 2 else ())
      metrics = {name: M(value=jnp.asarray(v, jnp.float32), valid=jnp.asarray(b))
                 for name, v, b in (('overlap', 1.0, True), ('offroad', 0.25, k % 2 == 0),
                                    ('progress', -3.125, k % 3 == 0))}
      key = f'brax/step {t}/routes {routes}/log {use_log}'
      ts = ts_of(st, metrics)
      given, idx = ts, -1
      if k % 2:
        two = jax.tree_util.tree_map(lambda x: jnp.stack([jnp.zeros_like(x), x]), ts)
        given = two.replace(state=two.state.replace(timestep=st.timestep))
        idx = 1
      before = core.digest(given)
      with Drawn() as d:
        img = viz.plot_single_agent_brax_timestep(
            given, use_log_traj=use_log, viz_config=SMALL, batch_idx=idx)
        segs, pts, texts, lim, ax = d.read()
      ck.check(core.digest(given) == before, f'{key}/the time step was changed')
      f = scenes.np_traj(st.log_trajectory if use_log else st.sim_trajectory)
      check_boxes(ck, key, segs, pts, f, t, control(st.object_metadata, OT.SDC),
                  scenery(st.roadgraph_points, st.log_traffic_light, t))
      left = check_ids(ck, key, texts, f, t, True)
      alltext = ' '.join(left)
      for name, m in metrics.items():
        if bool(m.valid):
          mine = [s for s in left if name in s]
          ck.check(any(f'{float(m.value):.2f}' in s for s in mine),
                   f'{key}/metric {name} not shown', {'texts': left})
        else:
          ck.check(name not in alltext, f'{key}/invalid metric {name} shown',
                   {'texts': left})
      tl = st.log_traffic_light
      tlxy = [np.array([float(tl.x[i, t]), float(tl.y[i, t])]) for i in range(2)]
      check_map(ck, key, pts, st.roadgraph_points, tlxy, f)
      check_lights(ck, key, pts, tl, t)
      sdc = int(np.argmax(np.asarray(st.object_metadata.is_sdc)))
      check_view(ck, key, img, lim, (f['x'][sdc, t], f['y'][sdc, t]), SMALL)
      for on, rgb in ((True, mcolors.to_rgb('c')), (False, mcolors.to_rgb('g'))):
        got = of(pts, np.array(rgb))
        want = [] if paths is None else [
            (float(paths.x[p, i]), float(paths.y[p, i])) for p in range(3)
            for i in range(5) if bool(paths.valid[p, i])
            and bool(paths.on_route[p, 0]) == on]
        match_points(ck, f'{key}/paths {"on" if on else "off"} route', got, want)
      ck.transitions += 1
      ck.validated += 1
      cases += 1
  ck.part('step x routes x source, metrics and batch index', cases)


PARTS = [validity, roles, maps, views, pixels, batches, observations, brax]
