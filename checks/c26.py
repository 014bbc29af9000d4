"""C26: the Brax interface returns what the environment does."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv
from waymax.env.wrappers import brax_wrapper

from checks import c24
from checks import c25
from wmc import core
from wmc import scenes

LEVEL = 'model_checking'
N = c25.N


class Ending(wenv.MultiAgentEnvironment):
  end_at, cut_at = 99, 99

  def termination(self, state):
    return jnp.broadcast_to(state.timestep >= self.end_at, state.shape)

  def truncation(self, state):
    return super().truncation(state) | (state.timestep >= self.cut_at)

  def observe(self, state):
    return {'x': state.sim_trajectory.x, 'clock': state.timestep}


def make(kind, init, end_at=99, cut_at=99):
  cfg = wconfig.EnvironmentConfig(
      max_num_objects=N, init_steps=init,
      rewards=wconfig.LinearCombinationRewardConfig(
          {'log_divergence': -1.0, 'overlap': -2.0}),
      metrics=wconfig.MetricsConfig(metrics_to_run=('log_divergence', 'overlap')))
  if kind == 'planning':
    return wenv.PlanningAgentEnvironment(dynamics.DeltaGlobal(), cfg)
  if kind == 'multi':
    return wenv.MultiAgentEnvironment(dynamics.DeltaGlobal(), cfg)
  e = Ending(dynamics.DeltaGlobal(), cfg)
  e.end_at, e.cut_at = end_at, cut_at
  return e


def explore(ck, kind, steps, init, batch, depth, **kw):
  """Every action sequence up to a depth (branching on whole joint actions)."""
  env = make(kind, init, **kw)
  wrap = brax_wrapper.BraxWrapper(env, env.dynamics, env.config)
  tag = f'brax/{kind}/init={init}/batch={batch}' + ''.join(
      f'/{k}={v}' for k, v in kw.items())
  sc = c25.scene(steps, init, batch)
  jreset = jax.jit(wrap.reset)
  jstep = jax.jit(wrap.step)
  want_step = jax.jit(lambda s, a: (env.step(s, a), env.reward(s, a),
                                    env.metrics(s)))
  lead = batch + ((N,) if kind != 'planning' else ())
  letters = [datatypes.Action(
      data=jnp.broadcast_to(jnp.asarray(v, jnp.float32), lead + (3,)) +
      0.125 * jnp.arange(int(np.prod(lead))).reshape(lead + (1,)),
      valid=jnp.broadcast_to(ok, lead + (1,)))
             for v, ok in (((0.5, -0.25, 0.125), True), ((2.0, 1.0, 0.0), False))]

  def ends(s):
    t = int(np.asarray(s.timestep).ravel()[0])
    term = t >= kw.get('end_at', 99)
    return term, term or t >= steps - 1 or t >= kw.get('cut_at', 99)

  s0 = env.reset(sc)
  ts = jreset(sc)
  term, done = ends(s0)
  c24.same(ck, f'{tag}/reset/state', ts.state, s0)
  c24.same(ck, f'{tag}/reset/observation', ts.observation, env.observe(s0))
  c24.same(ck, f'{tag}/reset/metrics', ts.metrics, env.metrics(s0))
  ck.close(f'{tag}/reset/reward', ts.reward, np.zeros(lead, np.float32))
  ck.close(f'{tag}/reset/discount', ts.discount, np.ones(batch, np.float32))
  ck.close(f'{tag}/reset/done', ts.done, np.full(batch, done))
  ck.check(tuple(ts.shape) == batch, f'{tag}/shape')
  ck.check(ts.info == {}, f'{tag}/info')
  frontier = [(ts, s0)]
  for d in range(depth):
    nxt = []
    for (ts, s), act in itertools.product(frontier, letters):
      before = jax.tree_util.tree_map(np.array, ts)
      out = jstep(ts, act)
      w, rew, met = want_step(s, act)
      term, done = ends(w)
      t = f'{tag}/step'
      c24.same(ck, f'{t}/state', out.state, w)
      c24.same(ck, f'{t}/observation', out.observation, env.observe(w))
      c24.same(ck, f'{t}/metrics', out.metrics, met)
      ck.close(f'{t}/reward', out.reward, rew)
      ck.close(f'{t}/discount', out.discount,
               np.full(batch, 0.0 if term else 1.0, np.float32))
      ck.close(f'{t}/done', out.done, np.full(batch, done), detail={'depth': d})
      ck.check(out.done.dtype == bool and out.discount.dtype == np.float32,
               f'{t}/types')
      c24.same(ck, f'{t}/old-changed', ts, before)
      ck.check(jax.tree_util.tree_structure(out) ==
               jax.tree_util.tree_structure(ts), f'{t}/structure')
      ck.check(bool(out == out) and not bool(out == ts), f'{t}/equality')
      ck.outcome('done' if done else 'going on')
      ck.part('transitions', 1)
      ck.transitions += 1
      ck.validated += 1
      ck.state(out.state)
      nxt.append((out, w))
    if int(np.asarray(nxt[0][1].timestep).ravel()[0]) >= steps - 1:
      break
    frontier = nxt
  # One action sequence under scan is the same as by hand.
  k = steps - init
  if k > 0:
    seq = [letters[i % 2] for i in range(k)]
    stacked = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *seq)
    last, _ = jax.lax.scan(lambda c, a: (wrap.step(c, a), 0), jreset(sc), stacked)
    s = s0
    for a in seq:
      s = env.step(s, a)
    c24.same(ck, f'{tag}/scan', last.state, s)
    ck.check(bool(np.all(np.asarray(last.done))), f'{tag}/scan/done')
    ck.part('scanned episodes', 1)
  for name in ('termination', 'truncation', 'observe', 'metrics'):
    c24.same(ck, f'{tag}/{name}', getattr(wrap, name)(s0), getattr(env, name)(s0))
  c24.same(ck, f'{tag}/reward', wrap.reward(s0, letters[0]),
           env.reward(s0, letters[0]))
  for name in ('reward_spec', 'discount_spec'):
    ck.check(getattr(wrap, name)() == getattr(env, name)(), f'{tag}/{name}')
  a, b = wrap.action_spec(), env.action_spec()
  ck.check(a.data.shape == b.data.shape and a.valid.shape == b.valid.shape,
           f'{tag}/action_spec')


@core.sharded
def episodes(ck):
  """Environments, episode lengths, warm-up lengths, batches, endings."""
  ck.rule = ('every action sequence of whole episodes, per environment, warm-up '
             'length, batch and way of ending')
  T = 6 if ck.thorough else 5
  for kind, init, batch in itertools.product(
      ('planning', 'multi'), range(1, T + 1), ((), (2,), (2, 1))):
    if len(batch) == 2 and init != 2 and not ck.thorough:
      continue
    if ck.mine():
      explore(ck, kind, T, init, batch, T)
  ends = list(range(0, T + 1)) if ck.thorough else [1, 2, 3, T]
  for end_at, cut_at in itertools.product(ends, repeat=2):
    if ck.mine():
      explore(ck, 'ending', T, 2, () if (end_at + cut_at) % 2 else (2,), T,
              end_at=end_at, cut_at=cut_at)
  ck.sample({'steps': T, 'objects': N})


PARTS = [episodes]
