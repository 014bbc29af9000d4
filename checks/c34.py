"""C34: the order of objects, lights, paths and lanes, and padding, are immaterial."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import datatypes

from wmc import core
from wmc import worlds

LEVEL = 'model_checking'


def take(tree, idx, axis=0):
  return jax.tree_util.tree_map(lambda x: jnp.take(x, jnp.asarray(idx), axis), tree)


def lanes(rg):
  """Indices of the points of each run of equal lane id."""
  ids = np.asarray(rg.ids)
  cuts = np.flatnonzero(np.diff(ids)) + 1
  return np.split(np.arange(len(ids)), cuts)


def arrange(st, acts, objs, lights=None, paths=None, road=None, planning=False):
  """The same scene and actions, listed in another order."""
  st = st.replace(
      log_trajectory=take(st.log_trajectory, objs),
      sim_trajectory=take(st.sim_trajectory, objs),
      object_metadata=take(st.object_metadata, objs))
  if lights is not None:
    st = st.replace(log_traffic_light=take(st.log_traffic_light, lights))
  if paths is not None:
    st = st.replace(sdc_paths=take(st.sdc_paths, paths))
  if road is not None:
    runs = lanes(st.roadgraph_points)
    idx = np.concatenate([runs[i] for i in road])
    st = st.replace(roadgraph_points=take(st.roadgraph_points, idx))
  if not planning:
    acts = take(acts, objs, 1)
  return st, acts


AXES = (  # (part of the output, axes listing objects; step is axis 0)
    ("['sim']", (1,)), ("['agents']", (1,)), ("['ego'].trajectory", (2,)),
    ("['ego'].metadata", (2,)), ("['ego'].is_ego", (2,)))


def canonical(out, objs, lights=None, paths=None, planning=False, n=None):
  """Output in the order of the original scene; objs[i]: original of slot i.

  With n, only the first n originals are kept (the others are padding).
  """
  inv = np.argsort(objs)[:n]
  linv = None if lights is None else np.argsort(lights)
  pinv = None if paths is None else np.argsort(paths)
  res = []
  for name, x in out:
    axes = next((a for p, a in AXES if name.startswith(p)), None)
    if axes is None:
      axes = ()
      if name.startswith(("['metrics']", "['reward']")) and not planning:
        axes = (1,) if x.ndim > 1 else ()
      if name.startswith("['obs']"):
        axes = (1, 2) if any(s in name for s in (
            '].trajectory', '].metadata', '].is_ego')) else (1,)
    for a in axes:
      x = np.take(x, inv, a)
    if 'traffic_lights' in name:
      x = np.take(x, linv, 2) if linv is not None else x
    if name.startswith("['ego'].sdc_paths"):
      x = np.take(x, pinv, 2) if pinv is not None else x
    res.append((name, x))
  # What is kept of the road is a set: list it by place.
  d = dict(res)
  for name in [k for k in d if k.endswith('roadgraph_static_points.x')]:
    pre = name[:-1]
    key = np.lexsort(tuple(np.round(d[pre + f], 3) for f in ('y', 'x', 'ids')), axis=-1)
    for k in [k for k in d if k.startswith(pre)]:
      d[k] = np.take_along_axis(d[k], key, -1)
  return [(k, d[k]) for k, _ in res]


def names_ok(ck, tag, out):
  n = {k for k, _ in out}
  ck.check(any('roadgraph_static_points.x' in k for k in n) and any(
      '.trajectory' in k for k in n), f'{tag}/outputs present')


@core.sharded
def orders(ck):
  ck.rule = ('every (world, scene, action word, permutation of objects; all '
             'permutations of lights, paths and lanes): the same episode up to '
             'the listing order')
  n = worlds.N
  perms = list(itertools.permutations(range(n)))
  for name in worlds.NAMES:
    if not ck.mine():
      continue
    w = worlds.world(name, frames=('GLOBAL', 'OBJECT'))
    words = w.actions(2 if not ck.thorough else 3)
    fn = jax.jit(jax.vmap(lambda st, a: w.go(w.begin(st), a)))
    for v in range(3 if not ck.thorough else 6):
      st = worlds.scene(v)
      nl, np_ = st.log_traffic_light.x.shape[0], st.sdc_paths.x.shape[0]
      nr = len(lanes(st.roadgraph_points))
      lp = list(itertools.permutations(range(nl)))
      pp = list(itertools.permutations(range(np_)))
      rp = list(itertools.permutations(range(nr)))
      for k in range(len(words)) if ck.thorough else (v % len(words), 3 - v):
        cases, ins = [], []
        for i, p in enumerate(perms):
          l, q = lp[i % len(lp)], pp[(i // 4 + i) % len(pp)]
          r = rp[(7 * i) % len(rp)] if i else rp[0]
          cases.append((np.array(p), np.array(l), np.array(q)))
          ins.append(arrange(st, words[k], p, l, q, r, w.planning))
        outs = worlds.flat(fn(worlds.stack([a for a, _ in ins]),
                              worlds.stack([b for _, b in ins])))
        names_ok(ck, name, outs)
        want = None
        for i, (p, l, q) in enumerate(cases):
          got = canonical([(m, x[i]) for m, x in outs], p, l, q, w.planning)
          if want is None:
            want = got
            continue
          worlds.agree(ck, f'order/{name}/scene {v}/word {k}/{p.tolist()}', got, want)
          ck.state(repr((name, v, k, i)).encode())
        ck.part('orders of a scene', len(cases))
        ck.transitions += 2 * len(cases)
        ck.validated += len(cases)


def fill(x, extra, how, axis=0):
  """x with `extra` more entries along axis: constants or copies of others."""
  x = np.asarray(x)
  shape = list(x.shape)
  shape[axis] = extra
  if how == 'copy':
    new = np.take(x, np.arange(extra) % x.shape[axis], axis)
  elif x.dtype == bool:
    new = np.zeros(shape, bool)
  else:
    new = np.full(shape, {'zero': 0, 'minus': -1, 'huge': 1e6}[how], x.dtype)
  return jnp.asarray(np.concatenate([x, new], axis))


def lead_in(rg, k):
  """Moves the k padding points at the end in front of lanes.

  Each becomes an invalid copy of the lane's first point, heading backwards.
  """
  size = rg.x.shape[0] - k
  runs = lanes(take(rg, np.arange(size)))
  order, spare = [], list(range(size, size + k))
  f = {n: np.array(getattr(rg, n)) for n in (
      'x', 'y', 'z', 'dir_x', 'dir_y', 'dir_z', 'ids', 'types')}
  for r in runs:
    if spare:
      e = spare.pop()
      for n, a in f.items():
        a[e] = -a[r[0]] if n.startswith('dir') else a[r[0]]
      order.append(e)
    order += list(r)
  rg = rg.replace(**{n: jnp.asarray(a) for n, a in f.items()})
  return take(rg, np.array(order + spare))


def pad(st, acts, objs, lights, paths, points, road, how, planning):
  """The scene with invalid entries appended everywhere."""
  def grow(tree, k, axis=0):
    if not k:
      return tree
    size = jax.tree_util.tree_leaves(tree)[0].shape[axis]
    out = jax.tree_util.tree_map(lambda x: fill(x, k, how, axis), tree)
    f = 'is_valid' if hasattr(out, 'is_valid') else 'valid'
    ok = np.array(getattr(out, f))
    ok[(slice(None),) * axis + (slice(size, None),)] = False
    out = out.replace(**{f: jnp.asarray(ok)})
    if hasattr(out, 'is_sdc'):
      off = {g: jnp.asarray(np.concatenate([
          np.asarray(getattr(tree, g)), np.zeros(k, bool)])) for g in (
              'is_sdc', 'is_modeled', 'objects_of_interest', 'is_controlled')}
      out = out.replace(**off)
    return out
  rp = grow(st.roadgraph_points, road)
  if how == 'copy':
    rp = lead_in(rp, road)
  pa = grow(st.sdc_paths, paths)
  if points:
    route = pa.on_route
    pa = grow(pa.replace(on_route=pa.x[:, :1] == 0), points, 1).replace(on_route=route)
  st = st.replace(
      log_trajectory=grow(st.log_trajectory, objs),
      sim_trajectory=grow(st.sim_trajectory, objs),
      object_metadata=grow(st.object_metadata, objs),
      log_traffic_light=grow(st.log_traffic_light, lights),
      sdc_paths=pa, roadgraph_points=rp)
  if objs and not planning:
    acts = jax.tree_util.tree_map(lambda x: fill(x, objs, 'copy', 1), acts)
  return st, acts


def strip(out, base):
  """Keeps what the original scene had of padded axes (leading entries)."""
  want = dict(base)
  res = []
  for name, x in out:
    y = want[name]
    if any(s in name for s in ('traffic_lights', 'sdc_paths')) and (
        x.ndim == y.ndim):
      x = x[tuple(slice(0, s) for s in y.shape)]
    res.append((name, x))
  return res


@core.sharded
def padding(ck):
  """Invalid objects, lights, paths, path points and road points add nothing."""
  n = worlds.N
  for name in worlds.NAMES:
    if not ck.mine():
      continue
    small = worlds.world(name, frames=('GLOBAL', 'OBJECT'))
    big = worlds.world(name, n + 2, frames=('GLOBAL', 'OBJECT'))
    words = small.actions(2)
    f0 = jax.jit(jax.vmap(lambda st, a: small.go(small.begin(st), a)))
    f1 = jax.jit(jax.vmap(lambda st, a: big.go(big.begin(st), a)))
    cases = [(v, k) for v in range(4) for k in ((v, (v + 1) % 4)
                                                if not ck.thorough else range(4))]
    base = worlds.flat(f0(worlds.stack([worlds.scene(v) for v, _ in cases]),
                          worlds.stack([words[k] for _, k in cases])))
    rng = list(itertools.permutations(range(n + 2)))
    turns = ((0, 'zero'), (1, 'minus'), (2, 'copy'), (3, 'huge'))
    ins, orders_ = [], []
    for i, (v, k) in enumerate(cases):
      for j, how in turns:
        st, acts = pad(worlds.scene(v), words[k], 2, 2, 1, 2, 5, how, big.planning)
        p = np.array(rng[(97 * i + 211 * j) % len(rng)]) if j or i % 2 else (
            np.arange(n + 2))
        ins.append(arrange(st, acts, p, planning=big.planning))
        orders_.append((i, p, how))
    outs = worlds.flat(f1(worlds.stack([a for a, _ in ins]),
                          worlds.stack([b for _, b in ins])))
    for e, (i, p, how) in enumerate(orders_):
      want = canonical([(m, x[i]) for m, x in base], np.arange(n),
                       planning=small.planning)
      got = canonical([(m, x[e]) for m, x in outs], p, planning=big.planning, n=n)
      worlds.agree(ck, f'padding/{name}/{cases[i]}/{how}/{p.tolist()}',
                   strip(got, want), want)
      ck.state(repr((name, cases[i], how)).encode())
      ck.part('padded scenes', 1)
      ck.transitions += 2
      ck.validated += 1
  ck.sample({'worlds': worlds.NAMES, 'object orders': 24})


PARTS = [orders, padding]
