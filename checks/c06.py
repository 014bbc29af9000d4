"""C06: bicycle motion model, forward direction, with its action limits."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import datatypes
from waymax import dynamics

from checks import c05
from wmc import ref
from wmc import scenes

LEVEL = 'model_checking'
PI = np.pi
VELS = [(0.0, 0.0), (0.5, 0.0), (5.0, -3.0), (-8.0, 6.0), (0.0, -30.0)]


def _grid(acts, yaws):
  old = c05.VELS
  c05.VELS = VELS
  try:
    return c05.grid(acts, yaws)
  finally:
    c05.VELS = old


def forward(ck):
  ck.rule = ('full product of poses x headings x velocities x (accel, steering)'
             ' inside, on and outside the limits x validity bits')
  accels = [-100.0, -6.0, -2.5, 0.0, 0.5, 6.0, 7.5]
  steers = [-2.0, -0.3, -0.125, 0.0, 0.0625, 0.3, 0.5]
  yaws = c05.YAWS if ck.thorough else c05.YAWS[::2]
  cur, act, cv, av = _grid(list(itertools.product(accels, steers)), yaws)
  c05.register(ck, cur, act, cv, av)
  c05.run_grid(ck, 'Bicycle', dynamics.InvertibleBicycleModel(), ref.bicycle,
               cur, act, cv, av, True)
  for dt, ma, ms in ((0.5, 3.0, 0.1), (0.05, 9.0, 0.6), (0.1, 2.0, 1.0)):
    m = dynamics.InvertibleBicycleModel(dt=dt, max_accel=ma, max_steering=ms)
    c05.run_grid(ck, f'Bicycle/dt={dt}/{ma}/{ms}', m,
                 lambda c, a: ref.bicycle(c, a, dt, ma, ms),
                 *c05.sub(cur, act, cv, av, 5), True)
    spec = m.action_spec()
    ck.check(np.allclose(np.asarray(spec.minimum), [-ma, -ms]) and np.allclose(
        np.asarray(spec.maximum), [ma, ms]), f'spec/{ma}/{ms}', repr(spec))
  for shape in ((2, -1), (2, 3, -1)):
    s = c05.sub(cur, act, cv, av, 5, 600)
    c05.run_grid(ck, f'Bicycle/batch{len(shape)}',
                 dynamics.InvertibleBicycleModel(), ref.bicycle, *s, True, shape)
  ck.sample({'accel': accels, 'steering': steers, 'yaws': yaws, 'vel': VELS})


def normalized(ck):
  un = [-3.0, -1.0, -0.25, 0.0, 0.5, 1.0, 1.25]
  cur, act, cv, av = _grid(list(itertools.product(un, un)), c05.YAWS[::3])
  c05.register(ck, cur, act + 1000.0, cv, av)
  for dt, ma, ms in ((0.1, 6.0, 0.3), (0.25, 4.0, 0.5)):
    m = dynamics.InvertibleBicycleModel(
        dt=dt, max_accel=ma, max_steering=ms, normalize_actions=True)
    c05.run_grid(ck, f'normalized/{ma}/{ms}', m,
                 lambda c, a: ref.bicycle(c, a, dt, ma, ms, True),
                 cur, act, cv, av, True)
    spec = m.action_spec()
    ck.check(np.allclose(np.asarray(spec.minimum), [-1, -1]) and np.allclose(
        np.asarray(spec.maximum), [1, 1]), f'normalized/spec/{ma}', repr(spec))


def histories(ck):
  """All action histories: heading wrapped, speed aligned with heading."""
  acts = [(6.0, 0.3), (-6.0, -0.3), (0.0, 0.3), (3.0, 0.0)]
  depth = 6 if ck.thorough else 5
  model = dynamics.InvertibleBicycleModel()
  step = jax.jit(model.compute_update)
  for yaw0, v0 in ((3.0, 10.0), (-3.1, 25.0), (0.2, 3.0)):
    cur = dict(x=np.array([0.0]), y=np.array([0.0]), yaw=np.array([yaw0]),
               vel_x=np.array([v0 * np.cos(yaw0)]),
               vel_y=np.array([v0 * np.sin(yaw0)]))
    real = scenes.traj(**{k: v[:, None] for k, v in cur.items()})
    for d in range(depth):
      m = len(cur['x'])
      k = len(acts)
      a = np.tile(np.array(acts), (m, 1))
      cur = ref.bicycle({f: np.repeat(v, k) for f, v in cur.items()}, a)
      real = jax.tree_util.tree_map(lambda x: jnp.repeat(x, k, axis=0), real)
      upd = step(datatypes.Action(data=jnp.asarray(a, jnp.float32),
                                  valid=jnp.ones((len(a), 1), bool)), real)
      real = real.replace(**{f: getattr(upd, f) for f in ref.POSE})
      for f in ref.POSE:
        g = np.asarray(getattr(real, f))[:, 0]
        ok = (ref.ang_close(g, cur[f], 2e-4).all() if f == 'yaw' else
              np.allclose(g, cur[f], atol=2e-3))
        ck.check(ok, f'history/yaw0={yaw0}/depth={d + 1}/{f}')
      y = np.asarray(real.yaw)
      ck.check((y >= -PI - 1e-5).all() and (y <= PI + 1e-5).all(),
               f'history/yaw0={yaw0}/depth={d + 1}/heading-range',
               {'min': y.min(), 'max': y.max()})
      for i in range(len(a)):
        ck.state(np.array([cur[f][i] for f in ref.POSE]).tobytes())
      ck.transitions += len(a)
      ck.validated += len(a)
      ck.part('action histories', len(a))


PARTS = [forward, normalized, histories]
