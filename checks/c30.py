"""C30: a simulation does not depend on how, or beside what, it is executed."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from wmc import core
from wmc import worlds

LEVEL = 'model_checking'
SHARED = ("['t']", "['done']")  # one clock for a natively batched state


def poison(st, kind):
  """A neighbour scene full of awkward content."""
  bad = {
      'nan': lambda x: jnp.full_like(x, jnp.nan) if x.dtype == jnp.float32 else x,
      'inf': lambda x: jnp.full_like(x, jnp.inf) if x.dtype == jnp.float32 else x,
      'invalid': lambda x: jnp.zeros_like(x) if x.dtype == jnp.bool_ else x,
      'huge': lambda x: x + 1e6 if x.dtype == jnp.float32 else x}[kind]
  return jax.tree_util.tree_map(bad, st)


class Runner:
  """One world, its compiled episode functions, and episodes run one by one."""

  def __init__(self, name, depth):
    self.w = worlds.world(name, frames=('OBJECT',))
    self.words = self.w.actions(depth)
    self.one = jax.jit(self.w.go)
    self.many = jax.jit(jax.vmap(self.w.go))
    self.starts = {s: jax.jit(lambda st, s=s: self.w.begin(st, s)) for s in range(3)}
    self.base = {}

  def begin(self, st, start):
    return self.starts[start](st)

  def alone(self, key):
    """The episode of scene v from clock s under word k, run on its own."""
    if key not in self.base:
      v, s, k = key
      self.base[key] = worlds.flat(self.one(
          self.begin(worlds.scene(v), s), self.words[k]))
    return self.base[key]

  def mapped(self, states, acts):
    return worlds.flat(self.many(worlds.stack(states), worlds.stack(acts)))

  def native(self, scenes, start, acts, shape):
    """All scenes in one state with leading axes; outputs per scene."""
    fold = lambda x: x.reshape(shape + x.shape[1:])
    sts = jax.tree_util.tree_map(fold, worlds.stack(scenes))
    sts = sts.replace(timestep=jnp.asarray(-1, jnp.int32))
    acts = jax.tree_util.tree_map(
        lambda x: jnp.moveaxis(x, 0, 1).reshape(x.shape[1:2] + shape + x.shape[2:]),
        worlds.stack(acts))
    out = worlds.flat(self.one(self.begin(sts, start), acts))
    for i in range(len(scenes)):
      ix = (slice(None),) + np.unravel_index(i, shape)
      yield [(n, x if n in SHARED else x[ix]) for n, x in out]


def modes(ck, name, r, variants):
  """Again, uncompiled, mapped, natively batched: the same episode."""
  keys = [(v, 0, k) for v in variants for k in range(len(r.words))]
  for key in keys:
    again = worlds.flat(r.one(r.begin(worlds.scene(key[0]), 0), r.words[key[2]]))
    for (leaf, x), (_, y) in zip(r.alone(key), again):
      ck.check(np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'),
               f'again/{name}/{key}/{leaf}')
  ck.part('repeated runs', len(keys))
  # Each operation on its own.
  v = worlds.NAMES.index(name) % len(variants)
  for key in [(v, 0, v % len(r.words))] if not ck.thorough else keys[::3]:
    st = worlds.scene(key[0])
    before = core.digest(st)
    out = r.w.walk(r.w.begin(st), r.words[key[2]])
    worlds.agree(ck, f'uncompiled/{name}/{key}', out, r.alone(key))
    ck.check(core.digest(st) == before, f'uncompiled/{name}/{key}/scene changed')
    ck.part('uncompiled episodes', 1)
  out = r.mapped([r.begin(worlds.scene(v), 0) for v, _, _ in keys],
                 [r.words[k] for _, _, k in keys])
  for i, key in enumerate(keys):
    worlds.agree(ck, f'mapped/{name}/{key}', out, r.alone(key), pick=lambda x: x[i])
    ck.state(repr((name, key)).encode())
  ck.part('mapped episodes', len(keys))
  m = len(variants)
  for shape in ((m,), (2, m // 2)) + (((1,), (m // 2, 1, 2)) if ck.thorough else ()):
    for turn in range(len(r.words)):
      sel = [(v, turn % 3, (v + turn) % len(r.words))
             for v in range(int(np.prod(shape)))]
      outs = r.native([worlds.scene(v) for v, _, _ in sel], turn % 3,
                      [r.words[k] for _, _, k in sel], shape)
      for key, got in zip(sel, outs):
        worlds.agree(ck, f'batched{shape}/{name}/{key}', got, r.alone(key))
        ck.part('natively batched episodes', 1)
  ck.transitions += len(keys) * len(jax.tree_util.tree_leaves(r.words[0])[0])
  ck.validated += len(keys)


def neighbours(ck, name, r, variants):
  """A scene's simulation is the same beside every other scene."""
  m = len(variants)
  size = m * len(r.words)
  crowd = [worlds.scene(v) for v in variants]
  crowds = [crowd] + [[poison(x, kind) for x in crowd]
                      for kind in ('nan', 'inf', 'invalid', 'huge')]
  for v, (c, others) in itertools.product(variants, enumerate(crowds)):
    k = (v + c) % len(r.words)
    pos = (v + 2 * c) % m
    batch = list(others)
    batch[pos] = worlds.scene(v)
    acts = [r.words[(k + i - pos) % len(r.words)] for i in range(m)]
    for i, got in enumerate(r.native(batch, 0, acts, (m,))):
      if i == pos:
        worlds.agree(ck, f'beside/batched/{name}/{v}/crowd {c}', got,
                     r.alone((v, 0, k)))
    big = [batch[i % m] if i % m != pos else others[pos] for i in range(size)]
    spot = pos + m * (v % len(r.words))
    big[spot] = worlds.scene(v)
    out = r.mapped([r.begin(x, 0) for x in big],
                   [acts[i % m] for i in range(size)])
    worlds.agree(ck, f'beside/mapped/{name}/{v}/crowd {c}', out,
                 r.alone((v, 0, k)), pick=lambda x: x[spot])
    ck.part('scenes beside other scenes', 2)
    ck.validated += 2


def clocks(ck, name, r, variants):
  """Scenes of one mapped batch may be at different steps of their episodes."""
  size = len(variants) * len(r.words)
  for order in (1, 5, 7):
    cases = [(v, (i * order + v) % 3, (i + order) % len(r.words))
             for i, v in enumerate(list(variants) * len(r.words))][:size]
    out = r.mapped([r.begin(worlds.scene(v), s) for v, s, _ in cases],
                   [r.words[k] for _, _, k in cases])
    for i, key in enumerate(cases):
      worlds.agree(ck, f'clocks/{name}/{key}/order {order}', out, r.alone(key),
                   pick=lambda x: x[i])
      ck.state(repr((name, key)).encode())
    ck.part('scenes at mixed steps', size)
    ck.transitions += size
    ck.validated += size


@core.sharded
def everything(ck):
  ck.rule = ('every (world, scene, starting step, action word): the episode is the '
             'same repeated, uncompiled, mapped and natively batched over one and '
             'two axes, beside every other scene, and beside scenes at other steps')
  variants = range(6 if not ck.thorough else 10)
  for name in worlds.NAMES:
    if not ck.mine():
      continue
    r = Runner(name, 2 if not ck.thorough else 3)
    modes(ck, name, r, variants)
    neighbours(ck, name, r, variants)
    clocks(ck, name, r, variants)
  ck.sample({'worlds': worlds.NAMES, 'scenes': len(variants)})


PARTS = [everything]
