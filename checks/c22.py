"""C22: keeping the nearest road points."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import datatypes

from wmc import refobs

LEVEL = 'model_checking'
P = 7
XY = np.array([[0.0, 0.0], [3.1, 0.4], [-2.3, 1.7], [5.2, -4.1], [1.3, 6.6],
               [-7.9, -2.2], [0.7, -0.9]], np.float32)
TYPES = np.array([15, 16, 1, 2, 17, -1, 18], np.int32)
IDS = np.array([7, 16_777_217, 2_147_483_647, 33_554_435, 3, 2, 123_456_789],
               np.int32)


def points(valid, batch=()):
  s = batch + (P,)
  bc = lambda a, dt=np.float32: jnp.asarray(np.broadcast_to(a, s).astype(dt))
  i = np.arange(P)
  return datatypes.RoadgraphPoints(
      x=bc(XY[:, 0]), y=bc(XY[:, 1]), z=bc(0.5 * i), dir_x=bc(np.cos(i)),
      dir_y=bc(np.sin(i)), dir_z=bc(0.1 * i), types=bc(TYPES, np.int32),
      ids=bc(IDS, np.int32), valid=bc(valid, bool))


def rows(d):
  """Set of complete rows of the valid points."""
  out = set()
  for i in np.flatnonzero(d['valid']):
    out.add(tuple(d[f][i].item() for f in refobs.RG_FIELDS))
  return out


def patterns(ck):
  """Every validity pattern x every count x every reference point."""
  ck.rule = ('every (validity pattern of 7 points, number kept, reference point): '
             'the kept rows are the nearest valid ones, unaltered')
  pats = np.array(list(itertools.product((False, True), repeat=P)))
  refs = np.array([[0.05, 0.03], [3.0, 0.5], [-8.0, 9.0], [100.0, 50.0],
                   [1.9, -2.2]], np.float32)
  rg = points(pats, (len(pats),))
  base = refobs.np_fields(points(np.ones(P, bool)), refobs.RG_FIELDS)
  for k in range(1, P + 1):
    for r in refs:
      got = datatypes.filter_topk_roadgraph_points(
          rg, jnp.broadcast_to(jnp.asarray(r), (len(pats), 2)), k)
      g = refobs.np_fields(got, refobs.RG_FIELDS)
      for f in refobs.RG_FIELDS:
        ck.check(g[f].dtype == np.asarray(getattr(rg, f)).dtype, f'type/{f}')
      for i, p in enumerate(pats):
        full = {**base, 'valid': p}
        keep, sure = refobs.nearest(full, r, k)
        want = {tuple(full[f][j].item() for f in refobs.RG_FIELDS) for j in keep}
        mine = {f: a[i] for f, a in g.items()}
        ck.check(len(mine['x']) == k, f'count/k={k}')
        if sure:
          ck.check(rows(mine) == want, f'nearest/k={k}',
                   lambda: {'pattern': p, 'reference': r, 'got': sorted(rows(mine)),
                            'want': sorted(want)})
          ck.check(int(mine['valid'].sum()) == len(keep), f'valid-count/k={k}')
        # Points that fill up are invalid ones of the input.
        everything = {tuple(full[f][j].item() for f in refobs.RG_FIELDS)
                      for j in range(P)}
        filler = {tuple(mine[f][j].item() for f in refobs.RG_FIELDS)
                  for j in range(k)}
        ck.check(filler <= everything, f'invented/k={k}')
        ck.state(repr((k, r.tolist(), i)).encode())
      ck.part('patterns', len(pats))
      ck.transitions += len(pats)
      ck.validated += len(pats)
  ck.sample({'points': P, 'patterns': len(pats)})
  for k in (P + 1, P + 5):
    try:
      datatypes.filter_topk_roadgraph_points(rg, jnp.zeros((len(pats), 2)), k)
      ck.fail('too-many-accepted')
    except NotImplementedError:
      ck.part('too many refused', 1)


def shapes(ck):
  """Unbatched and doubly batched inputs, each with its own reference point."""
  pats = list(itertools.product((False, True), repeat=P))[5::9]
  for k in (1, 3, 6):
    for batch in ((), (3,), (2, 3)):
      n = int(np.prod(batch))
      val = np.array([pats[i % len(pats)] for i in range(n)]).reshape(batch + (P,))
      refp = np.stack([np.linspace(-3, 4, n), np.linspace(2, -5, n)], -1).reshape(
          batch + (2,)).astype(np.float32)
      got = datatypes.filter_topk_roadgraph_points(
          points(val, batch), jnp.asarray(refp), k)
      g = refobs.np_fields(got, refobs.RG_FIELDS)
      ck.check(g['x'].shape == batch + (k,), f'shape/{batch}')
      base = refobs.np_fields(points(val, batch), refobs.RG_FIELDS)
      for i in np.ndindex(*batch):
        keep, sure = refobs.nearest({f: a[i] for f, a in base.items()}, refp[i], k)
        want = {tuple(base[f][i][j].item() for f in refobs.RG_FIELDS) for j in keep}
        if sure:
          ck.check(rows({f: a[i] for f, a in g.items()}) == want,
                   f'shape/{batch}/k={k}')
      ck.part('shapes', n)
      ck.transitions += 1


def far(ck):
  """Distances of any size: maps spread over many kilometres, far references."""
  pats = list(itertools.product((False, True), repeat=P))
  pats = np.array(pats if ck.thorough else pats[1::4])
  base = refobs.np_fields(points(np.ones(P, bool)), refobs.RG_FIELDS)
  for scale in (0.01, 30.0, 1e3, 1e5):
    rg = points(pats, (len(pats),))
    rg = rg.replace(x=rg.x * scale, y=rg.y * scale)
    for r in ((0.05, 0.03), (-9.0, 7.5), (250.0, -180.0)):
      r = np.asarray(r, np.float32) * np.float32(scale)
      full0 = {**base, 'x': np.asarray(rg.x)[0], 'y': np.asarray(rg.y)[0]}
      for k in (1, 3, 5):
        got = datatypes.filter_topk_roadgraph_points(
            rg, jnp.broadcast_to(jnp.asarray(r), (len(pats), 2)), k)
        g = refobs.np_fields(got, refobs.RG_FIELDS)
        for i, p in enumerate(pats):
          full = {**full0, 'valid': p}
          keep, sure = refobs.nearest(full, r, k)
          mine = {f: a[i] for f, a in g.items()}
          ck.check(int(mine['valid'].sum()) == len(keep),
                   f'far/valid-count/scale={scale}/k={k}')
          if sure:
            ck.check(rows(mine) == {tuple(full[f][j].item() for f in refobs.RG_FIELDS)
                                    for j in keep},
                     f'far/nearest/scale={scale}/k={k}',
                     lambda: {'pattern': p, 'reference': r})
        ck.part('far', len(pats))
        ck.transitions += len(pats)
        ck.validated += len(pats)


def ties(ck):
  """Equally distant points: any choice, but never a farther one, none twice."""
  ang = np.arange(P) * 2 * np.pi / P
  for k in range(1, P):
    rg = points(np.ones(P, bool)).replace(
        x=jnp.asarray(np.cos(ang) * np.array([1, 1, 1, 2, 2, 2, 3]), jnp.float32),
        y=jnp.asarray(np.sin(ang) * np.array([1, 1, 1, 2, 2, 2, 3]), jnp.float32))
    got = datatypes.filter_topk_roadgraph_points(rg, jnp.zeros(2), k)
    ids = np.asarray(got.ids).tolist()
    ck.check(len(set(ids)) == k, f'ties/repeated/k={k}')
    near = np.array([1, 1, 1, 2, 2, 2, 3])
    chosen = sorted(near[IDS.tolist().index(i)] for i in ids)
    ck.check(chosen == sorted(near)[:k], f'ties/k={k}', chosen)
    ck.part('ties', 1)


def edges(ck):
  """Road edges are boundaries and medians, nothing else."""
  t = jnp.arange(-3, 40)
  ck.close('edges', datatypes.is_road_edge(t), (np.arange(-3, 40) == 15) |
           (np.arange(-3, 40) == 16))
  ck.part('types', 43)


PARTS = [patterns, shapes, far, ties, edges]
