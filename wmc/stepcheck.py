"""Exploration shared by C02 (frame), C03 (motion) and C04 (validity)."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import datatypes

from wmc import core
from wmc import envx
from wmc import ref
from wmc import scenes


def parts(aspects):
  return [histories(aspects), single_steps(aspects), every_timestep(aspects)] + (
      [unmutated] if 'frame' in aspects else [])


def histories(aspects):
  """All action histories from reset, per configuration and scenario."""

  @core.sharded
  def run_histories(ck):
    ck.rule = ('BFS over real env states; a transition is one real step under '
               'one joint action, compared with the NumPy transition relation')
    n, T = 3, 5
    pats = np.ones((3, T), bool)
    pats[1] = [1, 1, 0, 1, 1]
    pats[2] = [1, 0, 1, 0, 1]
    pats2 = np.array([[1, 1, 1, 1, 0], [0, 0, 1, 1, 1], [0, 1, 1, 1, 1]], bool)
    dyns = list(envx.DYN)
    configs = []
    for dyn in dyns:
      for mode in ('SDC', 'MODELED', 'VALID', 'NON_SDC'):
        for inj in (True, False):
          configs.append((dyn, mode, inj, False))
      for inj in (True, False):
        configs.append((dyn, 'SDC', inj, True))
    for i, (dyn, mode, inj, planning) in enumerate(configs):
      if not ck.mine():
        continue
      case = envx.Case(dyn, n, 2, mode, inj, planning)
      letters = 3 if planning else 2
      depth = 3
      for v, pat in enumerate((pats, pats2)):
        log = scenes.log_traj(n, T, pat, variant=v)
        meta = scenes.metadata(n, sdc=(i + v) % 3, is_valid=[True, True, v == 0])
        if ck.thorough:
          envx.explore(ck, case, scenes.state(log, meta), 4 if planning else 3,
                       depth, aspects, f'history/{case.name}/scene{v}')
        else:
          if (i + v) % 2 and not planning:
            envx.explore(ck, case, scenes.state(log, meta), letters, 2, aspects,
                         f'history/{case.name}/scene{v}')
          else:
            envx.explore(ck, case, scenes.state(log, meta), letters, depth,
                         aspects, f'history/{case.name}/scene{v}')
    ck.sample({'config': configs[0], 'objects': n, 'steps': T,
               'joint_actions_per_state': 2**n, 'depth': 3})

  return run_histories


# Bits of one object in one step: is_sdc, is_modeled, meta valid, controlled-at
# -init validity, current sim validity, log validity now/next, action validity.
BITS = list(itertools.product((False, True), repeat=8))


_CASES = {}


def get_case(*key):
  if key not in _CASES:
    _CASES[key] = envx.Case(*key)
  return _CASES[key]


def jitted(case):
  if not hasattr(case, 'jitted'):
    case.jitted = jax.jit(case.env.step)
  return case.jitted


def single_steps(aspects):
  """Every combination of flags of one object, from arbitrary states."""

  @core.sharded
  def run_single_steps(ck):
    T, init = 5, 2
    n = len(BITS)
    b = np.array(BITS)
    log = scenes.log_traj(n, T, variant=1)
    lv = np.ones((n, T), bool)
    for t in (1, 2, 3):
      lv[:, t], lv[:, t + 1] = b[:, 5], b[:, 6]
      log_t = log.replace(valid=jnp.asarray(lv))
      sv = np.zeros((n, T), bool)
      sv[:, init - 1] = b[:, 3]
      sv[:, t] = b[:, 4]
      simv = scenes.np_traj(scenes.log_traj(n, T, variant=2))
      simv['valid'] = sv
      sim = scenes.traj(**simv)
      meta = scenes.metadata(n, modeled=b[:, 1], is_valid=b[:, 2])
      meta = meta.replace(is_sdc=jnp.asarray(b[:, 0]))
      st = scenes.state(log_t, meta, sim, t)
      for dyn in (envx.DYN if ck.thorough else ('DeltaGlobal', 'Bicycle')):
        for mode in ('SDC', 'MODELED', 'VALID', 'NON_SDC'):
          for inj in (True, False):
            if not ck.mine():
              continue
            case = get_case(dyn, n, init, mode, inj)
            al = case.dyn.alphabet
            data = np.array([al[(i // 3) % 4][0] for i in range(n)])
            data = data.astype(np.int32 if dyn == 'Discrete' else np.float32)
            valid = b[:, 7:8]
            _one(ck, case, st, t, data, valid, aspects,
                 f'flags/{case.name}/t={t}', jitted(case))

  return run_single_steps


def every_timestep(aspects):
  """Every clock value of a full-size episode; several object counts."""

  @core.sharded
  def run_every_timestep(ck):
    grid = [(1, 2, 1), (2, 3, 1), (4, 9, 3), (8, 91, 11)]
    if ck.thorough:
      grid += [(128, 91, 11), (5, 40, 40 - 1), (33, 20, 4)]
    for n, T, init in grid:
      pat = ((np.arange(n)[:, None] * 3 + np.arange(T)[None, :]) % 4) != 1
      log = scenes.log_traj(n, T, pat, variant=n)
      for mode, planning in (('VALID', False), ('SDC', True), ('MODELED', False),
                             ('NON_SDC', False)):
        if n == 8 and not ck.thorough and mode[0] in 'MN':
          continue
        for inj in (True, False):
          if not ck.mine():
            continue
          case = envx.Case('DeltaLocal', n, init, mode, inj, planning)
          meta = scenes.metadata(n, sdc=n - 1)
          st = case.env.reset(scenes.state(log, meta))
          al = case.dyn.alphabet
          step = jax.jit(case.env.step)
          for t in range(init - 1, T - 1):
            if planning:
              data, valid = np.array(al[t % 4][0]), np.array([al[t % 4][1]])
            else:
              data = np.array([al[(i + t) % 4][0] for i in range(n)])
              valid = np.array([[al[(i + t) % 4][1]] for i in range(n)])
            st = _one(ck, case, st, t, data.astype(np.float32), valid, aspects,
                      f'episode/{case.name}/T={T}/t={t}', step)
    ck.sample({'episode': 'objects=8, steps=91, warm-up=11: all 80 steps'})

  return run_every_timestep


def _one(ck, case, st, t, data, valid, aspects, tag, step=None):
  step = step or case.env.step
  out = step(st, datatypes.Action(data=jnp.asarray(data),
                                  valid=jnp.asarray(valid)))
  pre, post = envx.np_state(st), envx.np_state(out)
  envx.compare(ck, tag, case, pre, post, t, data, valid, aspects,
               {'case': case.name})
  if 'frame' in aspects:
    a, ta = envx.static_leaves(st)
    b, tb = envx.static_leaves(out)
    ck.check(ta == tb and all(np.array_equal(x, y) for x, y in zip(a, b)),
             f'{tag}/static-data')
    ck.check(ref_same_types(st, out), f'{tag}/types')
  ck.transitions += 1
  ck.validated += 1
  ck.state((out.sim_trajectory, out.timestep, out.object_metadata))
  ck.part('single steps', 1)
  return out


def ref_same_types(a, b):
  la, lb = (jax.tree_util.tree_leaves(x.sim_trajectory) for x in (a, b))
  return all(x.dtype == y.dtype and x.shape == y.shape for x, y in zip(la, lb))


def unmutated(ck):
  """NumPy-backed inputs are not written to (eager execution)."""
  for planning in (False, True):
    case = envx.Case('DeltaGlobal', 3, 2, 'SDC', True, planning)
    st = case.env.reset(scenes.state(scenes.log_traj(3, 5), scenes.metadata(3)))
    st = jax.tree_util.tree_map(lambda x: np.array(x), st)
    before = jax.tree_util.tree_map(np.copy, st)
    data, valid = case.joint_actions(2)
    for d, v in zip(data, valid):
      d0 = d.copy()
      case.env.step(st, datatypes.Action(data=d, valid=v))
      same = jax.tree_util.tree_all(
          jax.tree_util.tree_map(np.array_equal, st, before))
      ck.check(same and np.array_equal(d, d0), f'input-mutated/{case.name}')
      ck.part('inputs left alone', 1)
