"""Explicit-state exploration of the real environments.

A state is a real SimulatorState reached from a real reset; the successor
function is the real env.step applied (vmapped + jitted) to every joint action
of a small alphabet.  Every transition is compared with ref.step.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv

from wmc import ref
from wmc import scenes

F = scenes.TRAJ_FIELDS


class Dyn:
  """A dynamics model, its reference, and a per-object action alphabet."""

  def __init__(self, name, make, reffn, alphabet):
    self.name, self.make, self.ref, self.alphabet = name, make, reffn, alphabet


def _disc_ref(lo, hi, bins, inner):
  def fn(cur, act):
    v = ref.discrete_value(np.asarray(act)[..., 0].astype(int), lo, hi, bins)
    return inner(cur, v)
  return fn


DYN = {d.name: d for d in [
    Dyn('DeltaGlobal', dynamics.DeltaGlobal, ref.delta_global,
        [([1.5, -0.5, 0.25], True), ([-1.0, 2.0, -0.75], False),
         ([0.0, 0.0, 0.0], True), ([6.0, -6.0, 3.0], True)]),
    Dyn('DeltaLocal', dynamics.DeltaLocal, ref.delta_local,
        [([1.5, -0.5, 0.25], True), ([-1.0, 2.0, -0.75], False),
         ([0.0, 0.0, 0.0], True), ([6.0, -6.0, 3.0], True)]),
    Dyn('Bicycle', dynamics.InvertibleBicycleModel, ref.bicycle,
        [([2.0, 0.1], True), ([-9.0, -0.5], True), ([5.0, -0.2], False),
         ([0.0, 0.0], True)]),
    Dyn('BicycleNorm',
        lambda: dynamics.InvertibleBicycleModel(normalize_actions=True),
        lambda c, a: ref.bicycle(c, a, normalize=True),
        [([0.5, 0.25], True), ([-1.5, -1.5], True), ([0.75, -0.5], False),
         ([0.0, 0.0], True)]),
    Dyn('State', dynamics.StateDynamics, ref.state_dyn,
        [([11.0, -3.0, 0.5, 2.0, 1.0], True),
         ([-7.0, 5.0, -2.5, -1.0, 0.0], False),
         ([0.0, 0.0, 0.0, 0.0, 0.0], True),
         ([900.0, 31.0, 3.0, 12.0, -4.0], True)]),
]}
DYN['Discrete'] = Dyn(
    'Discrete',
    lambda: dynamics.DiscreteActionSpaceWrapper(
        dynamics.DeltaLocal(), bins=jnp.array([4, 2, 6])),
    _disc_ref([-6, -6, -np.pi], [6, 6, np.pi], [4, 2, 6], ref.delta_local),
    [([0], True), ([53], False), ([104], True), ([61], True)])


class Case:
  """An environment under a configuration, with its reference parameters."""

  def __init__(self, dyn, n, init_steps, mode='SDC', inject=True,
               planning=False, **cfg):
    self.dyn = DYN[dyn]
    self.n, self.init_steps, self.mode = n, init_steps, mode
    self.inject, self.planning = inject, planning
    self.cfg = wconfig.EnvironmentConfig(
        max_num_objects=n, init_steps=init_steps,
        controlled_object=wconfig.ObjectType[mode],
        allow_new_objects_after_warmup=inject, **cfg)
    cls = wenv.PlanningAgentEnvironment if planning else wenv.BaseEnvironment
    self.env = cls(self.dyn.make(), self.cfg)

  @property
  def name(self):
    return (f"{'Planning' if self.planning else 'Multi'}Env/{self.dyn.name}/"
            f"{self.mode}/inject={self.inject}/init={self.init_steps}/n={self.n}")

  def joint_actions(self, k, sdc=0):
    """Every joint action over the first k letters: (data, valid) arrays."""
    al = self.dyn.alphabet[:k]
    if self.planning:
      combos = [(a,) for a in al]
    else:
      combos = list(itertools.product(al, repeat=self.n))
    data = np.array([[a[0] for a in c] for c in combos])
    valid = np.array([[[a[1]] for a in c] for c in combos], bool)
    if self.planning:
      data, valid = data[:, 0], valid[:, 0]
    dt = np.int32 if self.dyn.name == 'Discrete' else np.float32
    return data.astype(dt), valid

  def full_actions(self, data, valid):
    """Reference view: per-object actions."""
    if self.planning:
      data = np.repeat(data[..., None, :], self.n, axis=-2)
      valid = np.repeat(valid[..., None, :], self.n, axis=-2)
    return data, valid


def np_state(s):
  return dict(
      sim=scenes.np_traj(s.sim_trajectory), log=scenes.np_traj(s.log_trajectory),
      t=np.asarray(s.timestep),
      meta={k: np.asarray(getattr(s.object_metadata, k)) for k in
            ('is_sdc', 'is_modeled', 'is_valid')})


def static_leaves(s):
  """Everything a step must not touch."""
  d = dict(log=s.log_trajectory, tl=s.log_traffic_light, md=s.object_metadata,
           rg=s.roadgraph_points, paths=s.sdc_paths)
  return [np.asarray(x) for x in jax.tree_util.tree_leaves(d)], (
      jax.tree_util.tree_structure(d))


def controlled_mask(case, log, meta, sim):
  return ref.control_mask(meta, case.mode if not case.planning else 'SDC',
                          sim['valid'][..., case.init_steps - 1], case.inject)


def expected(case, sim, log, meta, t, data, valid):
  """Reference successor of one (unbatched or same-t batched) state."""
  controlled = controlled_mask(case, log, meta, sim)
  cur = {f: sim[f][..., t].astype(np.float64) for f in ref.POSE}
  act = np.asarray(data, np.float64)
  act = np.broadcast_to(act, cur['x'].shape + act.shape[-1:])
  upd = case.dyn.ref(cur, act)
  if case.dyn.name == 'State':  # the only model that places absent objects
    upd['valid'] = np.broadcast_to(np.asarray(valid)[..., 0], cur['x'].shape)
  return controlled, ref.step(sim, log, t, controlled, upd, case.inject)


def compare(ck, tag, case, pre, post, t, data, valid, aspects, ctx):
  """pre/post: dicts with leading batch axes already broadcast together."""
  sim, new = pre['sim'], post['sim']
  full, fullv = case.full_actions(data, valid)
  controlled, want = expected(case, sim, pre['log'], pre['meta'], t, full, fullv)
  T = sim['x'].shape[-1]
  ok = True
  if 'frame' in aspects:
    ok &= ck.check((post['t'] == t + 1).all(), f'{tag}/clock',
                   lambda: {'t': t, 'got': post['t'].ravel()[:3], 'ctx': ctx})
    others = [i for i in range(T) if i != t + 1]
    for f in F:
      got, old = new[f][..., others], sim[f][..., others]
      if got.shape != old.shape or not np.array_equal(got, old):
        w = np.argwhere(got != old)[0].tolist() if got.shape == old.shape else None
        ok &= ck.check(False, f'{tag}/other-steps/{f}',
                       {'t': t, 'where': w, 'ctx': ctx})
  c = np.broadcast_to(controlled, new['x'].shape[:-1])
  if 'motion' in aspects:
    for f in ref.POSE:
      got, w = new[f][..., t + 1], want[f][..., t + 1]
      scale = np.maximum(1.0, np.abs(w))
      if f == 'yaw':
        good = ref.ang_close(got, w, 2e-4)
      else:
        good = np.abs(got.astype(np.float64) - w) <= 2e-4 + 2e-6 * scale
      good = np.where(c, good, got == w)
      if not good.all():
        i = tuple(np.argwhere(~good)[0])
        ok &= ck.check(False, f'{tag}/motion/{f}', {
            't': t, 'where': i, 'got': got[i], 'want': w[i],
            'controlled': bool(c[i]), 'ctx': ctx})
    for f in ('z', 'length', 'width', 'height', 'timestamp_micros'):
      got, w = new[f][..., t + 1], want[f][..., t + 1]
      if not np.array_equal(got, w):
        i = tuple(np.argwhere(got != w)[0])
        ok &= ck.check(False, f'{tag}/carried/{f}', {
            't': t, 'where': i, 'got': got[i], 'want': w[i], 'ctx': ctx})
  if 'validity' in aspects:
    got, w = new['valid'][..., t + 1], want['valid'][..., t + 1]
    if not np.array_equal(got, w):
      i = tuple(np.argwhere(got != w)[0])
      ok &= ck.check(False, f'{tag}/validity', {
          't': t, 'where': i, 'got': got[i], 'want': w[i],
          'controlled': bool(c[i]),
          'current_valid': sim['valid'][..., t][i],
          'log_valid': pre['log']['valid'][..., t + 1][i], 'ctx': ctx})
  return ok


_JIT = {}


def stepper(case):
  """jit(vmap over actions, vmap over states) of the real step."""
  if id(case) not in _JIT:
    fn = lambda s, d, v: case.env.step(s, datatypes.Action(data=d, valid=v))
    _JIT[id(case)] = (case, jax.jit(
        jax.vmap(jax.vmap(fn, (None, 0, 0)), (0, None, None))))
  return _JIT[id(case)][1]


def explore(ck, case, scenario, letters, depth, aspects, tag):
  """Breadth-first search from env.reset(scenario) to the given depth."""
  s0 = case.env.reset(scenario)
  T = scenario.log_trajectory.num_timesteps
  data, valid = case.joint_actions(letters)
  A = len(data)
  step = stepper(case)
  frontier = jax.tree_util.tree_map(lambda x: np.asarray(x)[None], s0)
  ck.state(_key(frontier, 0))
  static0, td0 = static_leaves(s0)
  maxdepth = min(depth, T - case.init_steps)
  for d in range(maxdepth):
    t = case.init_steps - 1 + d
    nf = int(np.asarray(frontier.timestep).shape[0])
    nxt = []
    per = 64
    for lo in range(0, nf, per):
      part = jax.tree_util.tree_map(lambda x: x[lo:lo + per], frontier)
      m = len(part.timestep)
      pad = np.minimum(np.arange(per), m - 1)  # fixed batch: one compilation
      out = step(jax.tree_util.tree_map(lambda x: x[pad], part), data, valid)
      out = jax.tree_util.tree_map(lambda x: np.asarray(x)[:m], out)
      pre = np_state(part)
      pre = dict(
          sim={f: np.repeat(v[:, None], A, 1) for f, v in pre['sim'].items()},
          log={f: np.repeat(v[:, None], A, 1) for f, v in pre['log'].items()},
          meta={f: np.repeat(v[:, None], A, 1) for f, v in pre['meta'].items()})
      post = np_state(out)
      post = dict(sim=post['sim'], t=post['t'])
      ck.transitions += m * A
      ck.validated += m * A
      compare(ck, tag, case, pre, post, t, data[None], valid[None], aspects,
              {'case': case.name, 'depth': d})
      if 'frame' in aspects:
        leaves, td = static_leaves(out)
        same = td == td0 and all(
            np.array_equal(np.broadcast_to(a, b.shape), b)
            for a, b in zip(static0, leaves))
        ck.check(same, f'{tag}/static-data', {'case': case.name, 't': t})
      flat = jax.tree_util.tree_map(
          lambda x: np.asarray(x).reshape((m * A,) + x.shape[2:]), out)
      keep = [i for i in range(m * A) if ck.state(_key(flat, i))]
      if keep and d + 1 < maxdepth:
        nxt.append(jax.tree_util.tree_map(lambda x: x[keep], flat))
    if not nxt:
      break
    frontier = jax.tree_util.tree_map(lambda *x: np.concatenate(x), *nxt)
  ck.part('explored (configuration, scenario) pairs', 1)


def _key(states, i):
  import hashlib
  h = hashlib.blake2b(digest_size=16)
  for f in F:
    h.update(np.ascontiguousarray(getattr(states.sim_trajectory, f)[i]).tobytes())
  h.update(np.asarray(states.timestep)[i].tobytes())
  h.update(np.ascontiguousarray(states.log_trajectory.valid[i]).tobytes())
  h.update(np.ascontiguousarray(states.log_trajectory.x[i]).tobytes())
  return h.digest()
