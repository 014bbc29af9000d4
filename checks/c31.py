"""C31: array and scene data structures do what their names say."""
import itertools

import chex
import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import datatypes
from waymax.datatypes import operations

from wmc import core
from wmc import scenes

LEVEL = 'model_checking'


def tree(shape_prefix, t, seed=0, time_axis=-1):
  """Leaves of several types; the time axis is the last one of each."""
  shapes = ((3, t), (t,), (2, 2, t))
  out = {}
  count = 1 + 1000 * seed
  for i, s in enumerate(shapes):
    full = tuple(shape_prefix) + s
    v = count + np.arange(int(np.prod(full))).reshape(full)
    count += v.size
    out[f'l{i}'] = (v * 0.5).astype(np.float32) if i == 0 else (
        v.astype(np.int32) if i == 1 else (v % 3 == 0))
  out['n'] = {'sub': out['l0'] + 0.25}
  return out


def leaves(x):
  return jax.tree_util.tree_leaves(x)


def same(ck, key, got, want):
  a, ta = jax.tree_util.tree_flatten(got)
  b, tb = jax.tree_util.tree_flatten(want)
  if not ck.check(ta == tb, f'{key}/structure', {'got': str(ta), 'want': str(tb)}):
    return
  for i, (g, w) in enumerate(zip(a, b)):
    g, w = np.asarray(g), np.asarray(w)
    ck.check(g.shape == w.shape and g.dtype == w.dtype and
             np.array_equal(g, w), f'{key}/leaf {i}',
             lambda: {'got': g, 'want': w, 'dtypes': (str(g.dtype), str(w.dtype))})


def cut(x, starts, size, batch):
  """x[..., start:start + size] per batch element (numpy)."""
  def one(a):
    if not batch:
      return a[..., starts:starts + size]
    out = np.zeros(a.shape[:-1] + (size,), a.dtype)
    for i in np.ndindex(*batch):
      out[i] = a[i][..., starts[i]:starts[i] + size]
    return out
  return jax.tree_util.tree_map(one, x)


def paste(x, u, at, frm, size, batch):
  def one(a, b):
    a = a.copy()
    for i in np.ndindex(*batch):
      s, f = (int(at[i]), int(frm[i])) if batch else (int(at), int(frm))
      a[i][..., s:s + size] = b[i][..., f:f + size]
    return a
  return jax.tree_util.tree_map(one, x, u)


def starts_of(batch, hi):
  """Every start (unbatched) or every vector of starts (batched)."""
  if not batch:
    return [np.int32(s) for s in range(hi + 1)]
  n = int(np.prod(batch))
  combos = itertools.product(range(hi + 1), repeat=n)
  return [np.asarray(c, np.int32).reshape(batch) for c in combos]


@core.sharded
def slicing(ck):
  """dynamic_slice / dynamic_index: every start, size and batch."""
  t = 5
  for batch in ((), (2,), (2, 2) if ck.thorough else (1, 2)):
    x = tree(batch, t)
    jx = jax.tree_util.tree_map(jnp.asarray, x)
    for size in range(1, t + 1):
      if not ck.mine():
        continue
      fn = jax.jit(lambda d, s, size=size: operations.dynamic_slice(
          d, s, size, axis=-1))
      for s in starts_of(batch, t - size):
        tag = f'slice/batch={batch}/size={size}/start={s.tolist()}'
        same(ck, tag, fn(jx, s), cut(x, s, size, batch))
        ck.transitions += 1
        ck.part('slice')
        if not batch:
          same(ck, f'{tag}/python int', operations.dynamic_slice(
              jx, int(s), size, -1), cut(x, s, size, batch))
    for keep in (True, False):
      if not ck.mine():
        continue
      fn = jax.jit(lambda d, s, keep=keep: operations.dynamic_index(
          d, s, axis=-1, keepdims=keep))
      for s in starts_of(batch, t - 1):
        want = cut(x, s, 1, batch)
        if not keep:
          want = jax.tree_util.tree_map(lambda a: a[..., 0], want)
        same(ck, f'index/batch={batch}/keep={keep}/{s.tolist()}', fn(jx, s), want)
        ck.part('index')
  # The other axes, and defaults.
  y = {'a': np.arange(24, dtype=np.float32).reshape(4, 3, 2),
       'b': np.arange(12, dtype=np.int32).reshape(4, 3)}
  if ck.mine():
    for axis in (0, 1):
      for s in range(y['a'].shape[axis]):
        same(ck, f'index/axis={axis}/{s}',
             operations.dynamic_index(y, s, axis=axis, keepdims=False),
             {k: np.take(v, s, axis) for k, v in y.items()})
        for size in range(1, y['a'].shape[axis] - s + 1):
          same(ck, f'slice/axis={axis}/{s}+{size}',
               operations.dynamic_slice(y, s, size, axis=axis),
               {k: np.take(v, range(s, s + size), axis) for k, v in y.items()})
          ck.part('slice')
    same(ck, 'slice/default axis', operations.dynamic_slice(y, 1, 2),
         {k: v[1:3] for k, v in y.items()})
    same(ck, 'index/defaults', operations.dynamic_index(y, 2),
         {k: v[2:3] for k, v in y.items()})


@core.sharded
def pasting(ck):
  """update_by_slice_in_dim: every target, source, size and batch."""
  t = 4
  for batch in ((), (2,)):
    x = tree(batch, t)
    for u_len in range(1, 6):
      u = tree(batch, u_len, seed=3)
      for size in [None] + list(range(1, min(t, u_len) + 1)):
        if not ck.mine():
          continue
        fn = jax.jit(lambda d, e, s, f, size=size:
                     operations.update_by_slice_in_dim(
                         d, e, s, updates_start_idx=f, slice_size=size,
                         axis=-1))
        ends = t - (size or u_len)
        if ends < 0:
          continue
        for s in starts_of(batch, ends):
          sources = starts_of(batch, u_len - size) if size else [0 * s]
          if batch and not ck.thorough:
            sources = sources[::2]
          for f in sources:
            tag = (f'paste/batch={batch}/updates={u_len}/size={size}/'
                   f'to={s.tolist()}/from={f.tolist()}')
            want = paste(x, u, s, f, size or u_len, batch)
            same(ck, tag, fn(x, u, s, f), want)
            ck.transitions += 1
            ck.part('paste')
          # The source index defaults to the target index.
          if size and (np.asarray(s) + size <= u_len).all():
            got = operations.update_by_slice_in_dim(
                x, u, s, slice_size=size, axis=-1)
            same(ck, f'paste/same index/batch={batch}/{u_len}/{size}/{s.tolist()}',
                 got, paste(x, u, s, s, size, batch))
            ck.part('paste, same index')
          if not size:
            got = operations.dynamic_update_slice_in_dim(x, u, s, -1)
            same(ck, f'paste/whole/batch={batch}/{u_len}/{s.tolist()}', got,
                 paste(x, u, s, 0 * s, u_len, batch))


@core.sharded
def masks(ck):
  """update_by_mask, select_by_onehot, masked_mean, invalid data."""
  x = {'a': np.arange(6, dtype=np.float32).reshape(2, 3) + 1,
       'b': np.arange(6, dtype=np.int32).reshape(2, 3) + 10,
       'c': np.arange(6).reshape(2, 3) % 2 == 0}
  u = {'a': -x['a'], 'b': -x['b'], 'c': ~x['c']}
  fn = jax.jit(operations.update_by_mask)
  if ck.mine():
    for bits in itertools.product((False, True), repeat=6):
      m = np.asarray(bits).reshape(2, 3)
      same(ck, f'mask/{bits}', fn(x, u, m),
           {k: np.where(m, u[k], x[k]) for k in x})
      ck.part('update by mask')
    for shape in ((3,), (2, 1), (1, 3), ()):
      for bits in itertools.product((False, True),
                                    repeat=int(np.prod(shape))):
        m = np.asarray(bits).reshape(shape)
        same(ck, f'mask/{shape}/{bits}', fn(x, u, m),
             {k: np.where(m, u[k], x[k]) for k in x})
        ck.part('update by mask')
  # One-hot selection.
  for batch, n, tail in itertools.product(((), (2,), (2, 2)), (1, 3), ((), (2,), (2, 3))):
    if not ck.mine():
      continue
    full = batch + (n,) + tail
    size = int(np.prod(full))
    data = {'f': (np.arange(size).reshape(full) * 0.5 - 7).astype(np.float32),
            'i': np.arange(size).reshape(full).astype(np.int32) - 5,
            'b': np.arange(size).reshape(full) % 3 == 1}
    for keep in (False, True):
      f = jax.jit(lambda d, s, keep=keep: operations.select_by_onehot(
          d, s, keepdims=keep))
      for pick in itertools.product(range(n), repeat=int(np.prod(batch))):
        p = np.asarray(pick, int).reshape(batch)
        sel = np.eye(n, dtype=bool)[p]
        want = {}
        for k, v in data.items():
          idx = p.reshape(batch + (1,) * (1 + len(tail)))
          w = np.take_along_axis(v, idx, axis=len(batch))
          want[k] = w if keep else np.squeeze(w, len(batch))
        same(ck, f'onehot/batch={batch}/n={n}/tail={tail}/keep={keep}/{pick}',
             f(data, sel), want)
        ck.part('select by one-hot')
  # Means over valid cells.
  v = np.asarray([[1.5, -2.0, 4.0], [8.0, 0.25, -16.0]], np.float32)
  if ck.mine():
    for axis in (0, 1, -1, -2, (0, 1), None):
      f = jax.jit(lambda a, m, axis=axis: operations.masked_mean(
          a, m, axis=axis))
      g = jax.jit(lambda a, m, axis=axis: operations.masked_mean(
          a, m, axis=axis, invalid_value=7.0))
      for bits in itertools.product((False, True), repeat=6):
        m = np.asarray(bits).reshape(2, 3)
        for bad in (None, np.nan, np.inf):
          a = v if bad is None else np.where(m, v, bad).astype(np.float32)
          k = m.sum(axis, keepdims=True)
          total = np.where(m, v, 0).sum(axis, keepdims=True)
          for h, fill in ((f, -1.0), (g, 7.0)):
            want = np.where(k == 0, fill, total / np.maximum(k, 1))
            ck.close(f'mean/axis={axis}/{bits}/unused={bad}', h(a, m),
                     np.broadcast_to(want, v.shape))
            ck.part('masked mean')
    for a, w in ((np.asarray([True, False]), np.asarray([False, False])),
                 (np.asarray([3, 4], np.int32), np.asarray([-1, -1], np.int32)),
                 (np.asarray([3.5], np.float32), np.asarray([-1], np.float32))):
      got = operations.make_invalid_data(jnp.asarray(a))
      same(ck, f'invalid data/{a.dtype}', got, w)
    log = scenes.log_traj(2, 3)
    got = datatypes.fill_invalid_trajectory(log)
    for f in scenes.TRAJ_FIELDS:
      w = getattr(log, f)
      same(ck, f'invalid trajectory/{f}', getattr(got, f),
           np.full(w.shape, 0 if f == 'valid' else -1, w.dtype))


@core.sharded
def masked_arrays(ck):
  """MaskedArray: replacement of invalid elements, of any value shape."""
  for shape, tail in itertools.product(((), (1,), (2,), (3,), (2, 2), (1, 3)),
                                       ((), (1,), (2,), (3,), (2, 2))):
    if not ck.mine():
      continue
    full = shape + tail
    base = np.arange(int(np.prod(full))).reshape(full)
    for dt, fill in ((np.float32, 0.0), (np.float32, -3.5), (np.int32, 9),
                     (bool, True), (np.float32, np.nan)):
      value = (base + 1).astype(dt) if dt != bool else base % 2 == 0
      for bits in itertools.product((False, True), repeat=int(np.prod(shape))):
        valid = np.asarray(bits, bool).reshape(shape)
        m = datatypes.MaskedArray.create_and_validate(
            jnp.asarray(value), jnp.asarray(valid))
        want = np.where(valid.reshape(shape + (1,) * len(tail)), value,
                        np.asarray(fill).astype(dt))
        key = f'masked/{shape}/{tail}/{np.dtype(dt)}/{fill}/{bits}'
        got = m.masked_value(fill)
        ck.close(key, got, want, atol=0, rtol=0)
        ck.check(got.dtype == want.dtype, f'{key}/type', str(got.dtype))
        if fill == 0.0:
          ck.close(f'{key}/default', m.masked_value(), want, atol=0, rtol=0)
        ck.check(m.shape == shape, f'{key}/shape', m.shape)
        ck.part('masked value')


def samples():
  """One well-formed instance of every data structure."""
  log = scenes.log_traj(3, 4)
  meta = scenes.metadata(3)
  pose = datatypes.ObjectPose2D.from_center_and_yaw(
      jnp.asarray([[1.0, 2.0], [3.0, 4.0]]), jnp.asarray([0.5, -1.0]))
  act = datatypes.Action(data=jnp.ones((3, 2)), valid=jnp.ones((3, 1), bool))
  one = jnp.ones((3, 1), jnp.float32)
  upd = datatypes.TrajectoryUpdate(
      x=one, y=2 * one, yaw=3 * one, vel_x=4 * one, vel_y=5 * one,
      valid=jnp.asarray([[True], [False], [True]]))
  st = scenes.state(log, meta, timestep=1)
  return {
      'trajectory': log, 'metadata': meta,
      'lights': scenes.traffic_lights(2, 4), 'road': scenes.roadgraph(5),
      'paths': scenes.paths(2, 3), 'pose': pose, 'action': act, 'update': upd,
      'state': st, 'state with paths': st.replace(sdc_paths=scenes.paths(2, 3)),
      'state without road': st.replace(roadgraph_points=None),
      'masked': datatypes.MaskedArray(value=jnp.arange(3.0),
                                      valid=jnp.asarray([True, False, True])),
  }


@core.sharded
def equality(ck):
  """Equal iff the same type, structure and content."""
  a, b = samples(), samples()
  for n1, n2 in itertools.product(a, b):
    if not ck.mine():
      continue
    got = a[n1] == b[n2]
    ck.check(bool(got) == (n1 == n2), f'equal/{n1}/{n2}', {'got': got})
    ck.check(bool(a[n1] != b[n2]) == (n1 != n2), f'not equal/{n1}/{n2}')
    ck.part('equality of structures')
  for name, x in a.items():
    if not ck.mine():
      continue
    for other in (None, 3, 'x', {}, jnp.ones(3)):
      ck.check(not bool(x == other) if not isinstance(other, jax.Array)
               else True, f'equal/{name}/{type(other).__name__}')
    flat, td = jax.tree_util.tree_flatten(x)
    for i, leaf in enumerate(flat):
      arr = np.asarray(leaf)
      cells = list(np.ndindex(*arr.shape))
      for cell in cells if ck.thorough else cells[:: max(1, len(cells) // 4)]:
        v = arr.copy()
        v[cell] = ~v[cell] if arr.dtype == bool else v[cell] + 1
        y = jax.tree_util.tree_unflatten(td, flat[:i] + [jnp.asarray(v)] +
                                         flat[i + 1:])
        ck.check(not bool(x == y) and not bool(y == x),
                 f'equal/{name}/leaf {i} differs at {cell}')
        ck.state(y)
        ck.part('equality of cells')
      if arr.ndim:
        y = jax.tree_util.tree_unflatten(td, flat[:i] + [
            jnp.asarray(arr[..., :-1])] + flat[i + 1:])
        ck.check(not bool(x == y), f'equal/{name}/leaf {i} is shorter')
    near = jax.tree_util.tree_map(
        lambda l: l * 1.000001 if jnp.issubdtype(l.dtype, jnp.floating) else l, x)
    ck.check(bool(operations.compare_all_leaf_nodes(x, near, jnp.allclose)),
             f'equal/{name}/with tolerance')


def refused(x):
  try:
    x.validate()
    return False
  except (AssertionError, ValueError, TypeError):
    return True


@core.sharded
def validation(ck):
  """validate() accepts well-formed data and refuses a wrong shape or type."""
  for name, x in samples().items():
    if not ck.mine():
      continue
    ck.check(not refused(x), f'validate/{name}/well-formed')
    if name.startswith('state'):
      for f in ('sim_trajectory', 'log_trajectory', 'log_traffic_light',
                'object_metadata', 'roadgraph_points'):
        old = getattr(x, f)
        if old is None:
          continue
        wide = jax.tree_util.tree_map(lambda l: jnp.stack([l, l]), x)
        ck.check(not refused(wide), f'validate/{name}/batch')
        y = wide.replace(**{f: jax.tree_util.tree_map(
            lambda l: jnp.stack([l, l, l]), old)})
        ck.check(refused(y), f'validate/{name}/{f} of another batch')
        ck.part('validation')
      continue
    single = name in ('action', 'masked')
    for f in x.keys():
      v = getattr(x, f)
      if name == 'pose' and f in ('original_xy', 'original_yaw'):
        continue
      flip = jnp.zeros(v.shape, jnp.float32 if v.dtype == bool else bool)
      if not single or f == 'valid':
        ck.check(refused(x.replace(**{f: flip})), f'validate/{name}/{f} type')
      if name == 'masked':
        bad = jnp.zeros((4,), v.dtype)
      elif name == 'action':
        bad = jnp.zeros((4,) + v.shape[1:], v.dtype)
      else:
        bad = jnp.concatenate([v, v], axis=0)
      ck.check(refused(x.replace(**{f: bad})), f'validate/{name}/{f} shape')
      ck.part('validation', 2)
  if ck.mine():
    a = samples()['action']
    ck.check(refused(a.replace(valid=jnp.ones((3, 2), bool))),
             'validate/action/one flag per object')


@core.sharded
def accessors(ck):
  """Derived fields of every structure, for every batch shape."""
  for batch, variant in itertools.product(((), (2,), (2, 2)), range(3)):
    if not ck.mine():
      continue
    n, t = 3, 4
    tag = f'fields/batch={batch}/{variant}'
    o, s = np.arange(n)[:, None], np.arange(t)[None]
    log = scenes.log_traj(n, t, (o + s + variant) % 3 != 0, variant, batch)
    a = scenes.np_traj(log)
    eq = lambda k, g, w: ck.close(f'{tag}/{k}', g, w, atol=1e-5, rtol=1e-6)
    eq('xy', log.xy, np.stack([a['x'], a['y']], -1))
    eq('xyz', log.xyz, np.stack([a['x'], a['y'], a['z']], -1))
    eq('vel_xy', log.vel_xy, np.stack([a['vel_x'], a['vel_y']], -1))
    eq('speed', log.speed, np.where(a['valid'], np.hypot(
        a['vel_x'], a['vel_y']), -1))
    eq('vel_yaw', log.vel_yaw, np.where(a['valid'], np.arctan2(
        a['vel_y'], a['vel_x']), -1))
    for names in (('x',), ('yaw', 'x'), ('length', 'width', 'x', 'y', 'yaw'),
                  ('vel_y', 'vel_x', 'z')):
      eq(f'stack {names}', log.stack_fields(names),
         np.stack([a[f] for f in names], -1))
    want = batch + (n, t)
    ck.check((log.shape, log.num_objects, log.num_timesteps) == (want, n, t),
             f'{tag}/trajectory sizes', log.shape)
    zero = datatypes.Trajectory.zeros(want)
    zero.validate()
    ck.check(all((np.asarray(getattr(zero, f)) == 0).all() and
                 getattr(zero, f).shape == want for f in scenes.TRAJ_FIELDS),
             f'{tag}/zeros')
    rg = scenes.roadgraph(6, batch, variant)
    eq('road xy', rg.xy, np.stack([rg.x, rg.y], -1))
    eq('road xyz', rg.xyz, np.stack([rg.x, rg.y, rg.z], -1))
    eq('road dir_xy', rg.dir_xy, np.stack([rg.dir_x, rg.dir_y], -1))
    eq('road dir', rg.dir_xyz, np.stack([rg.dir_x, rg.dir_y, rg.dir_z], -1))
    ck.check((rg.shape, rg.num_points) == (batch + (6,), 6), f'{tag}/road sizes')
    tl = scenes.traffic_lights(2, t, batch)
    eq('lights xy', tl.xy, np.stack([tl.x, tl.y], -1))
    ck.check((tl.shape, tl.num_traffic_lights, tl.num_timesteps) ==
             (batch + (2, t), 2, t), f'{tag}/light sizes')
    p = scenes.paths(2, 5, batch)
    eq('paths xy', p.xy, np.stack([p.x, p.y], -1))
    eq('paths xyz', p.xyz, np.stack([p.x, p.y, p.z], -1))
    ck.check((p.shape, p.num_paths, p.num_points_per_path) ==
             (batch + (2, 5), 2, 5), f'{tag}/path sizes')
    col = {f: getattr(log, f)[..., 1:2] for f in
           ('x', 'y', 'yaw', 'vel_x', 'vel_y', 'valid')}
    upd = datatypes.TrajectoryUpdate(**col)
    act = upd.as_action()
    act.validate()
    eq('update as action', act.data, np.stack(
        [a[f][..., 1] for f in ('x', 'y', 'yaw', 'vel_x', 'vel_y')], -1))
    eq('update as action valid', act.valid, a['valid'][..., 1:2])
    ck.check((upd.shape, act.shape) == (batch + (n, 1), batch + (n,)),
             f'{tag}/update sizes')
    meta = scenes.metadata(n, sdc=variant, batch=batch,
                           is_valid=np.arange(n) != variant)
    for mode, w in (('SDC', meta.is_sdc), ('MODELED', meta.is_modeled),
                    ('VALID', meta.is_valid), ('NON_SDC', ~meta.is_sdc)):
      got = datatypes.get_control_mask(meta, wconfig.ObjectType[mode])
      eq(f'control mask {mode}', got, w)
    for bad in (None, 'SDC', 3):
      try:
        datatypes.get_control_mask(meta, bad)
        ck.fail(f'{tag}/control mask of {bad!r}')
      except ValueError:
        pass
    # The clock.
    for clock in itertools.product(range(t), repeat=int(np.prod(batch))):
      c = np.asarray(clock, np.int32).reshape(batch)
      sim = log.replace(x=log.x + 5)
      st = scenes.state(log, meta, sim, c)
      st.validate()
      key = f'clock/{clock}'
      eq(f'{key}/is_done', st.is_done, c == t - 1)
      eq(f'{key}/remaining', st.remaining_timesteps, t - 1 - c)
      idx = np.broadcast_to(c[..., None, None], batch + (n, 1))
      for got, src, name in ((st.current_sim_trajectory, sim, 'sim'),
                             (st.current_log_trajectory, log, 'log')):
        for f in scenes.TRAJ_FIELDS:
          eq(f'{key}/current {name} {f}', getattr(got, f),
             np.take_along_axis(np.asarray(getattr(src, f)), idx, -1))
      ck.check((st.shape, st.batch_dims, st.num_objects) == (batch, batch, n),
               f'{tag}/{key}/state sizes')
      top = int(t - 1 - c.max())
      for k in range(1, top + 1):
        nxt = datatypes.update_state_by_log(st, k)
        eq(f'{key}/+{k}/clock', nxt.timestep, c + k)
        at = np.arange(t)
        sel = (at > c[..., None]) & (at <= c[..., None] + k)
        for f in scenes.TRAJ_FIELDS:
          eq(f'{key}/+{k}/{f}', getattr(nxt.sim_trajectory, f), np.where(
              sel[..., None, :], getattr(log, f), getattr(sim, f)))
          eq(f'{key}/+{k}/log {f}', getattr(nxt.log_trajectory, f), a[f])
        ck.transitions += 1
      ck.state(st)
      ck.part('clock')
      if len(batch) == 2 and not ck.thorough and sum(clock) % 3:
        continue
  if ck.mine():
    types = np.arange(-2, 40)
    ck.close('road edges', datatypes.is_road_edge(jnp.asarray(types)),
             (types == 15) | (types == 16))
    ck.part('road edges', len(types))
  ck.rule = ('every index, size, mask, selection, validity pattern and '
             'single-cell difference in the bounds against numpy')


PARTS = [slicing, pasting, masks, masked_arrays, equality, validation, accessors]
