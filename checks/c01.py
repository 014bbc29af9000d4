"""C01: reset replays exactly the warm-up prefix of the log."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import agents
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv

from wmc import core
from wmc import envx
from wmc import ref
from wmc import scenes

LEVEL = 'model_checking'


def _env(kind, n, init):
  cfg = wconfig.EnvironmentConfig(max_num_objects=n, init_steps=init)
  if kind == 'multi':
    return wenv.BaseEnvironment(dynamics.DeltaGlobal(), cfg)
  actors, params = (), ()
  if kind == 'planning+agents':
    actors = [agents.IDMRoutePolicy(), agents.FrozenSimPolicy()]
    params = [{}, {}]
  return wenv.PlanningAgentEnvironment(
      dynamics.DeltaGlobal(), cfg, actors, params)


KINDS = ('multi', 'planning', 'planning+agents')


def _check(ck, tag, out, st, init, log_np):
  want = ref.reset(log_np, init)
  got = scenes.np_traj(out.sim_trajectory)
  for f in scenes.TRAJ_FIELDS:
    ck.check(got[f].dtype == log_np[f].dtype, f'{tag}/dtype/{f}', got[f].dtype)
    if not np.array_equal(got[f], want[f]):
      w = np.argwhere(got[f] != want[f])[0].tolist() if (
          got[f].shape == want[f].shape) else 'shape'
      ck.fail(f'{tag}/sim/{f}', {'where': w})
  ck.check(np.all(np.asarray(out.timestep) == init - 1), f'{tag}/clock',
           lambda: np.asarray(out.timestep))
  a, ta = envx.static_leaves(st)
  b, tb = envx.static_leaves(out)
  ck.check(ta == tb and all(np.array_equal(x, y) for x, y in zip(a, b)),
           f'{tag}/static-data')
  ck.state((out.sim_trajectory, out.log_trajectory.valid))
  ck.transitions += 1
  ck.validated += 1


@core.sharded
def shapes(ck):
  """Every object count, episode length and warm-up length in the bounds."""
  ck.rule = ('every (env kind, objects, steps, warm-up, starting state, batch) '
             'in bounds; the result is compared field by field with the log')
  nmax, tmax = (5, 8) if ck.thorough else (3, 5)
  for n in range(1, nmax + 1):
    for T in range(1, tmax + 1):
      valid = ((np.arange(n)[:, None] + np.arange(T)) % 3) != 1
      log = scenes.log_traj(n, T, valid, variant=n + T)
      st = scenes.state(log, scenes.metadata(n, sdc=T % n))
      for init in range(1, T + 1):
        if not ck.mine():
          continue
        for kind in KINDS:
          env = _env(kind, n, init)
          out = env.reset(st)
          _check(ck, f'shape/{kind}/n={n}/T={T}/init={init}', out, st, init,
                 scenes.np_traj(log))
          ck.part('shapes', 1)
  ck.sample({'objects': nmax, 'steps': tmax, 'warm-up': '1..steps'})


@core.sharded
def starting_states(ck):
  """The outcome does not depend on the simulation the scenario carried."""
  n, T = 2, 5
  log = scenes.log_traj(n, T, [[1, 1, 0, 1, 1], [0, 1, 1, 1, 0]])
  other = scenes.log_traj(n, T, variant=1)
  for kind in KINDS:
    for init in (1, 2, 3, 5):
      if not ck.mine():
        continue
      env = _env(kind, n, init)
      base = env.reset(scenes.state(log))
      for sim, t in itertools.product((log, other, base.sim_trajectory),
                                      (-1, 0, 1, 2, 4)):
        st = scenes.state(log, sim=sim, timestep=t)
        for fn, how in ((env.reset, 'eager'), (jax.jit(env.reset), 'jit')):
          if how == 'jit' and t:
            continue
          for rng in ((None, jax.random.PRNGKey(3)) if t < 1 or ck.thorough
                      else (None,)):
            out = fn(st, rng) if rng is not None else fn(st)
            _check(ck, f'start/{kind}/init={init}/t={t}/{how}', out, st, init,
                   scenes.np_traj(log))
            ck.part('starting states', 1)
      # reset after any number of steps, twice in a row
      d = jnp.zeros((3,)) if kind != 'multi' else jnp.ones((n, 3))
      v = jnp.ones((1,) if kind != 'multi' else (n, 1), bool)
      s = base
      for k in range(T - init):
        s = env.step(s, datatypes.Action(data=d, valid=v))
        again = env.reset(s) if kind == 'multi' else env.reset(
            datatypes.SimulatorState(**{
                f: getattr(s, f) for f in (
                    'sim_trajectory', 'log_trajectory', 'log_traffic_light',
                    'object_metadata', 'timestep', 'sdc_paths',
                    'roadgraph_points')}))
        _check(ck, f'restart/{kind}/init={init}/after={k + 1}', again, s, init,
               scenes.np_traj(log))
        ck.part('restarts mid-episode', 1)


def validity_patterns(ck):
  """Every validity pattern of a small log."""
  n, T = 2, 4
  pats = np.array(list(itertools.product((False, True), repeat=n * T)))
  pats = pats.reshape(-1, n, T)
  log = scenes.log_traj(n, T)
  for kind in KINDS[:2]:
    for init in (1, 2, 4):
      env = _env(kind, n, init)
      fn = jax.jit(jax.vmap(lambda v: env.reset(
          scenes.state(log.replace(valid=v)))))
      out = fn(pats)
      lg = {f: np.broadcast_to(v, (len(pats), n, T)) for f, v in
            scenes.np_traj(log).items()}
      lg['valid'] = pats
      st = jax.vmap(lambda v: scenes.state(log.replace(valid=v)))(pats)
      _check(ck, f'valid/{kind}/init={init}', out, st, init, lg)
      for p in pats:
        ck.state((p, kind == 'multi', init))
      ck.part('validity patterns', len(pats))
      ck.transitions += len(pats) - 1
      ck.validated += len(pats) - 1


def batches(ck):
  """Batched scenarios and a full-size one."""
  for batch in ((1,), (2,), (2, 3)):
    log = scenes.log_traj(3, 5, batch=batch)
    st = scenes.state(log, scenes.metadata(3, batch=batch))
    for kind in KINDS:
      for init in (1, 3, 5):
        out = _env(kind, 3, init).reset(st)
        _check(ck, f'batch/{kind}/{batch}/init={init}', out, st, init,
               scenes.np_traj(log))
        ck.part('batches', 1)
  n, T = 128, 91
  valid = ((np.arange(n)[:, None] * 5 + np.arange(T)) % 7) != 1
  log = scenes.log_traj(n, T, valid)
  st = scenes.state(log, scenes.metadata(n))
  for kind in KINDS:
    for init in (1, 10, 11, 91):
      out = _env(kind, n, init).reset(st)
      _check(ck, f'full-size/{kind}/init={init}', out, st, init,
             scenes.np_traj(log))
      ck.part('full-size', 1)


PARTS = [shapes, starting_states, validity_patterns, batches]
