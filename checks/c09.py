"""C09: discrete-action wrapper agrees with the continuous model it wraps."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import datatypes
from waymax import dynamics

from checks import c05
from wmc import core
from wmc import ref
from wmc import scenes

LEVEL = 'model_checking'
PI = np.pi


def models():
  return [
      ('DeltaGlobal', dynamics.DeltaGlobal(), ref.delta_global,
       [-6, -6, -PI], [6, 6, PI], [4, 2, 6]),
      ('DeltaLocal', dynamics.DeltaLocal(), ref.delta_local,
       [-6, -6, -PI], [6, 6, PI], [2, 4, 8]),
      ('Bicycle', dynamics.InvertibleBicycleModel(), ref.bicycle,
       [-6, -0.3], [6, 0.3], [6, 4]),
      ('BicycleNorm', dynamics.InvertibleBicycleModel(normalize_actions=True),
       lambda c, a: ref.bicycle(c, a, normalize=True),
       [-1, -1], [1, 1], [4, 6]),
  ]


POSES = [(0.0, 0.0, 0.0, 5.0), (3.0, -8.0, 2.5, 9.0), (-40.0, 12.0, -1.25, 4.0)]


def start(n, pose):
  x, y, yaw, v = pose
  f = np.ones(n)
  return dict(x=x * f, y=y * f, yaw=yaw * f, vel_x=v * np.cos(yaw) * f,
              vel_y=v * np.sin(yaw) * f)


def forward(ck):
  """Every index x pose x validity: same as the decoded continuous action."""
  ck.rule = 'every discrete action from every start pose, forward and inverse'
  for name, model, fn, lo, hi, bins in models():
    w = dynamics.DiscreteActionSpaceWrapper(model, jnp.array(bins))
    total = int(np.prod(np.array(bins) + 1))
    spec = w.action_spec()
    ck.check(tuple(spec.shape) == (1,) and
             int(np.asarray(spec.minimum).ravel()[0]) == 0 and
             int(np.asarray(spec.maximum).ravel()[0]) == total - 1 and
             np.issubdtype(np.dtype(spec.dtype), np.integer),
             f'{name}/spec', repr(spec))
    for pose in POSES:
      rows = list(itertools.product(range(total), (0, 1), (0, 1)))
      idx = np.array([r[0] for r in rows])
      cv = np.array([r[1] for r in rows], bool)
      av = np.array([r[2] for r in rows], bool)
      cur = start(len(rows), pose)
      dec = lambda c, a: fn(c, ref.discrete_value(
          np.rint(a[..., 0]).astype(int), lo, hi, bins))
      c05.run_grid(ck, f'{name}/{pose}', w, dec,
                   {k: v.astype(np.float32) for k, v in cur.items()},
                   idx[:, None].astype(np.int32), cv, av, True)
      for i in range(total):
        ck.state(repr((name, pose, i)).encode())


def inverse_by_bin(ck):
  """Transitions made by every discrete action are inverted to that action."""
  for name, model, fn, lo, hi, bins in models():
    w = dynamics.DiscreteActionSpaceWrapper(model, jnp.array(bins))
    total = int(np.prod(np.array(bins) + 1))
    act = ref.discrete_value(np.arange(total), lo, hi, bins)
    digits = ref.discrete_nd(np.arange(total), bins)
    for pose in POSES:
      cur = start(total, pose)
      nxt = fn(cur, act)
      ok = np.ones(total, bool)
      if 'Bicycle' in name:
        nv = pose[3] + 0.1 * (act[:, 0] * (6 if 'Norm' in name else 1))
        ok = nv > 0.7
      if name == 'DeltaLocal':
        g = np.stack([nxt['x'] - cur['x'], nxt['y'] - cur['y']], -1)
        ok = (np.abs(g) <= 6.0).all(-1)
      if 'Delta' in name:
        # a turn by -pi and by +pi is the same heading change
        ok &= (digits[:, 2] != 0) & (digits[:, 2] != bins[2])
      for v0, v1 in itertools.product((0, 1), repeat=2):
        f = {k: np.stack([cur[k], nxt[k]], -1) for k in ref.POSE}
        tr = scenes.traj(valid=np.broadcast_to([bool(v0), bool(v1)], (total, 2)),
                         **f)
        got = w.inverse(tr, scenes.metadata(total), 0)
        a = np.asarray(got.data)
        ck.check(a.shape == (total, 1), f'{name}/shape', a.shape)
        ck.close(f'{name}/valid', got.valid,
                 np.full((total, 1), bool(v0 and v1)))
        if v0 and v1:
          bad = (a[:, 0] != np.arange(total)) & ok
          if bad.any():
            i = int(np.argwhere(bad)[0][0])
            ck.fail(f'{name}/bin-inverse/{pose}',
                    {'index': i, 'got': a[i, 0], 'action': act[i]})
        else:
          zero = w.inverse(scenes.traj(
              valid=np.zeros((1, 2), bool),
              **{k: np.zeros((1, 2)) for k in ref.POSE}),
                           scenes.metadata(1), 0).data
          ck.check((a == np.asarray(zero)[0]).all(), f'{name}/invalid-default')
        ck.part('bin-inverse', total)
        ck.transitions += total
        ck.validated += total


@core.sharded
def inverse_by_search(ck):
  """The searched action is a best fit over all actions, for every object."""
  for name, model, fn, lo, hi, bins in models():
    bins = [min(b, 4) for b in bins]
    w = dynamics.DiscreteActionSpaceWrapper(model, jnp.array(bins),
                                            bin_inverse=False)
    total = int(np.prod(np.array(bins) + 1))
    acts = ref.discrete_value(np.arange(total), lo, hi, bins)
    n = 12
    for pose in POSES:
      for batch in ((), (2,)):
        if not ck.mine():
          continue
        # targets: noisy versions of reachable next poses, one per object
        k = np.arange(n)
        pick = (k * 17 + 5) % total
        cur = start(n, pose)
        nxt = fn(cur, acts[pick])
        nxt = dict(nxt, x=nxt['x'] + 0.125 * np.cos(k),
                   y=nxt['y'] + 0.125 * np.sin(2 * k),
                   yaw=nxt['yaw'] + 0.05 * np.sin(k))
        L, W = 4.0 + 0.25 * k, 2.0 + 0 * k
        valid = np.ones((n, 4), bool)
        valid[3, 1] = valid[5, 2] = False
        f = {g: np.stack([cur[g] - 50, cur[g], nxt[g], nxt[g] + 50], -1)
             for g in ref.POSE}
        bc = lambda v: np.broadcast_to(v, batch + np.shape(v))
        tr = scenes.traj(valid=bc(valid), length=bc(np.repeat(L[:, None], 4, 1)),
                         width=bc(np.repeat(W[:, None], 4, 1)),
                         **{g: bc(v) for g, v in f.items()})
        meta = scenes.metadata(n, sdc=2, batch=batch)
        got = w.inverse(tr, meta, 1)
        a = np.asarray(got.data)
        ck.check(a.shape == batch + (n, 1), f'{name}/search/shape', a.shape)
        both = valid[:, 1] & valid[:, 2]
        ck.close(f'{name}/search/valid', got.valid, bc(both[:, None]))
        # reference: distance between box corners, over every action
        tgt = ref.corners(nxt['x'], nxt['y'], L, W, nxt['yaw'])
        dist = np.zeros((total, n))
        for i in range(total):
          c = fn(cur, np.broadcast_to(acts[i], (n, len(bins))))
          dist[i] = np.sqrt(((ref.corners(c['x'], c['y'], L, W, c['yaw']) -
                              tgt)**2).sum((-1, -2)))
        best = dist.min(0)
        for ix in np.ndindex(*batch):
          ai = np.clip(a[ix][:, 0], 0, total - 1)
          excess = np.where(both, dist[ai, np.arange(n)] - best, 0.0)
          if (excess > 1e-3).any():
            i = int(np.argmax(excess))
            ck.fail(f'{name}/search-inverse/' +
                    ('ego' if i == 2 else 'other objects'), {
                'object': i, 'is_sdc': i == 2, 'action': a[ix][i, 0],
                'distance': dist[ai[i], i], 'best': best[i],
                'best_action': int(dist[:, i].argmin())})
        default = np.asarray(w.inverse(
            jax.tree_util.tree_map(lambda x: jnp.zeros_like(x), tr), meta, 1).data)
        ck.check((a[..., ~both, :] == default[..., ~both, :]).all(),
                 f'{name}/search/invalid-default')
        ck.part('search-inverse (object, action) pairs', n * total)
        ck.transitions += n * total
        ck.validated += n
        ck.state(repr((name, pose, batch)).encode())


PARTS = [forward, inverse_by_bin, inverse_by_search]
