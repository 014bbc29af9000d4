"""C08: the discretizer is a grid bijection with nearest-point rounding."""
import itertools

import jax.numpy as jnp
import numpy as np
from waymax.dynamics import discretizer

from wmc import core
from wmc import ref

LEVEL = 'model_checking'


def configs(thorough):
  ranges = [(-6.0, 6.0), (-1.0, 3.0), (0.5, 0.75), (-np.pi, np.pi), (-20.0, -4.0)]
  out = []
  for d in (1, 2, 3, 4):
    bmax = {1: 12, 2: 6, 3: 4, 4: 3}[d]
    choices = list(itertools.product(range(1, bmax + 1), repeat=d))
    if not thorough:
      choices = {1: [(1,), (2,), (7,)], 2: [(1, 2), (6, 3), (3, 5)],
                 3: [(4, 2, 3), (1, 4, 2), (3, 1, 1)],
                 4: [(3, 1, 2, 2), (1, 2, 3, 1)]}[d]
    for i, bins in enumerate(choices):
      out.append((tuple(ranges[(i + k) % 5] for k in range(d)), bins))
  out += [(((-6.0, 6.0), (-6.0, 6.0), (-np.pi, np.pi)), (50, 3, 20)),
          (((-6.0, 6.0),), (256,)), (((-0.3, 0.3), (-6.0, 6.0)), (128, 40))]
  return out


@core.sharded
def run(ck):
  ck.rule = ('per (ranges, bins): every index; every grid point displaced by '
             'fractions of a bin in every dimension; points beyond the range')
  for rng, bins in configs(ck.thorough):
    if not ck.mine():
      continue
    lo = np.array([r[0] for r in rng], np.float32)
    hi = np.array([r[1] for r in rng], np.float32)
    nb = np.array(bins)
    disc = discretizer.Discretizer(jnp.asarray(lo), jnp.asarray(hi),
                                   jnp.asarray(nb))
    tag = f'ranges={rng}/bins={bins}'
    total = int(np.prod(nb + 1))
    idx = np.arange(total)[:, None]
    vals = np.asarray(disc.make_continuous(jnp.asarray(idx)))
    want = ref.discrete_value(idx[:, 0], lo, hi, nb)
    tol = 1e-5 * (1 + np.abs(want).max())
    ck.close(f'{tag}/decode', vals, want, atol=tol, rtol=0)
    ck.close(f'{tag}/decode-encode', disc.discretize(jnp.asarray(vals)), idx)
    width = (hi - lo) / nb
    digits = ref.discrete_nd(idx[:, 0], nb)
    # displaced by a fraction of a bin in all dims: the same index, after
    # clipping at the ends of the range.
    fr = (-0.45, -0.25, 0.25, 0.45)
    combos = (list(itertools.product(fr, repeat=len(nb))) if len(nb) < 3 else
              [fr[:1] * len(nb), fr[1:2] * len(nb), fr[3:] * len(nb),
               tuple(fr[i % 4] for i in range(len(nb)))])
    pts, wants, names = [], [], []
    for c in combos:
      pts.append(want + np.array(c) * width)
      wants.append(idx[:, 0])
      names.append(f'nearest/{c}')
    # beyond the range by a little and by a lot, in each dimension
    for k in range(len(nb)):
      for amount in (0.75, 40.0, 1e6):
        for side in (0, 1):
          p = want.copy()
          p[:, k] = (hi[k] + amount * width[k]) if side else (
              lo[k] - amount * width[k])
          dd = digits.copy()
          dd[:, k] = nb[k] if side else 0
          flat = np.zeros(total, int)
          for j in range(len(nb)):
            flat = flat * (nb[j] + 1) + dd[:, j]
          pts.append(p)
          wants.append(flat)
          names.append(f'beyond/{k}/{amount}/{side}')
    got = np.asarray(disc.discretize(
        jnp.asarray(np.stack(pts).astype(np.float32))))
    for g, w, nm in zip(got, wants, names):
      ck.close(f'{tag}/{nm}', g, w[:, None])
      ck.part('displaced points', total)
      ck.transitions += total
    # leading shapes
    for shape in (((1, total), (total, 1)) if len(nb) == 2 or ck.thorough
                  else ()):
      got = disc.make_continuous(jnp.asarray(idx.reshape(shape + (1,))))
      ck.close(f'{tag}/shape{shape}', got, want.reshape(shape + (-1,)), atol=tol)
      got = disc.discretize(jnp.asarray(vals.reshape(shape + (-1,))))
      ck.close(f'{tag}/shape{shape}/encode', got, idx.reshape(shape + (1,)))
    ck.close(f'{tag}/single', disc.make_continuous(jnp.array([total - 1])),
             hi.astype(np.float64), atol=tol)
    ck.state(tag.encode())
    for i in range(total):
      ck.state(f'{tag}/{i}'.encode())
    ck.validated += total
    ck.transitions += 2 * total
    ck.part('indices', total)
  if not ck.parts:
    return
  ck.sample({'ranges': rng, 'bins': bins, 'indices': total})


PARTS = [run]
