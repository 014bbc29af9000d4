"""C05: displacement and direct-state motion models, forward direction."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import datatypes
from waymax import dynamics

from wmc import ref
from wmc import scenes

LEVEL = 'model_checking'
PI = np.pi

YAWS = np.array([0, 0.25, 0.5, 1, PI / 2, 2, 2.5, 3, 3.125, PI, -PI, -3.125,
                 -2.75, -2, -PI / 2, -1.25, -0.75, -0.125, 3.5, -3.75, 6.75, -9.5])
POS = [(0.0, 0.0), (3.5, -2.25), (-1024.0, 2047.5)]
VELS = [(0.0, 0.0), (5.0, -3.0)]


def grid(actions, yaws=YAWS):
  rows = list(itertools.product(POS, yaws, VELS, actions,
                                (False, True), (False, True)))
  cur = dict(x=[r[0][0] for r in rows], y=[r[0][1] for r in rows],
             yaw=[r[1] for r in rows], vel_x=[r[2][0] for r in rows],
             vel_y=[r[2][1] for r in rows])
  cur = {k: np.array(v, np.float32) for k, v in cur.items()}
  return (cur, np.array([r[3] for r in rows], np.float32),
          np.array([r[4] for r in rows]), np.array([r[5] for r in rows]))


def run_grid(ck, tag, model, reffn, cur, act, cv, av, valid_uses_current,
             shape=None):
  """Runs compute_update on every row and compares with the reference."""
  n = len(cv)
  t = scenes.traj(**{k: v[:, None] for k, v in cur.items()},
                  valid=cv[:, None], z=np.full((n, 1), 7.0),
                  length=np.full((n, 1), 4.0), width=np.full((n, 1), 2.0))
  a = datatypes.Action(data=jnp.asarray(act), valid=jnp.asarray(av[:, None]))
  if shape:
    rs = lambda x: x.reshape(shape + x.shape[1:])
    t, a = jax.tree_util.tree_map(rs, (t, a))
  upd = model.compute_update(a, t)
  upd.validate()
  want = reffn({k: v.astype(np.float64) for k, v in cur.items()},
               act.astype(np.float64))
  # The rounding of a heading of several turns, at the speed it directs.
  wound = 2.5e-7 * np.maximum(np.abs(cur['yaw']) - PI, 0) * (
      1.0 + np.hypot(cur['vel_x'], cur['vel_y']))
  for f in ref.POSE:
    got = np.asarray(getattr(upd, f), np.float64)
    ck.check(got.shape == t.x.shape, f'{tag}/shape/{f}', got.shape)
    got = got.reshape(n)
    good = (ref.ang_close(got, want[f], 2e-5) if f == 'yaw' else
            np.abs(got - want[f]) <= 2e-5 + 2.5e-7 * np.abs(want[f]) + wound)
    if not good.all():
      i = int(np.argwhere(~good)[0][0])
      ck.fail(f'{tag}/{f}', {'current': {k: v[i] for k, v in cur.items()},
                             'action': act[i], 'got': got[i],
                             'want': want[f][i], 'bad': int((~good).sum())})
  wv = (cv & av) if valid_uses_current else av
  gv = np.asarray(upd.valid).reshape(n)
  if not np.array_equal(gv, wv):
    i = int(np.argwhere(gv != wv)[0][0])
    ck.fail(f'{tag}/valid', {'current': cv[i], 'action': av[i], 'got': gv[i]})
  ck.part('inputs', n)
  ck.transitions += n
  ck.validated += n


def register(ck, cur, act, cv, av):
  rows = np.concatenate([np.stack(list(cur.values()), -1), act,
                         cv[:, None], av[:, None]], -1).astype(np.float32)
  for r in np.unique(rows, axis=0):
    ck.state(r.tobytes())


def deltas(ck):
  ck.rule = ('full product of poses x headings x velocities x actions x '
             'validity bits, each run through the real model and the reference')
  ds = [-6.0, -1.5, 0.0, 0.125, 6.0]
  dyaws = [-PI, -0.5, 0.0, 0.03125, 3.0]
  if ck.thorough:
    ds, dyaws = [-6, -3, -1.5, -.1, 0, .125, 2, 6.], [-PI, -2, -.5, 0, .01, 1, 3, PI]
  acts = list(itertools.product(ds, ds, dyaws))
  cur, act, cv, av = grid(acts)
  register(ck, cur, act, cv, av)
  for name, cls, fn in (('DeltaGlobal', dynamics.DeltaGlobal, ref.delta_global),
                        ('DeltaLocal', dynamics.DeltaLocal, ref.delta_local)):
    run_grid(ck, name, cls(), fn, cur, act, cv, av, True)
    for dt in (0.05, 0.5, 1.0):
      model = cls(dt=dt, max_dx=8.0, max_dy=7.0, max_dyaw=PI)
      run_grid(ck, f'{name}/dt={dt}', model,
               lambda c, a: fn(c, a, dt), *sub(cur, act, cv, av, 7), True)
    spec = cls(max_dx=5.0, max_dy=3.0, max_dyaw=1.0).action_spec()
    ck.check(tuple(spec.shape) == (3,) and np.allclose(
        np.asarray(spec.minimum), [-5, -3, -1]) and np.allclose(
            np.asarray(spec.maximum), [5, 3, 1]), f'{name}/spec', repr(spec))
    for shape in ((2, -1), (2, 3, -1)):
      s = sub(cur, act, cv, av, 11, 600)
      run_grid(ck, f'{name}/batch{len(shape)}', cls(), fn, *s, True, shape)
  ck.sample({'yaws': YAWS, 'dx,dy': ds, 'dyaw': dyaws, 'positions': POS})


def sub(cur, act, cv, av, stride, count=None):
  sl = slice(None, None, stride)
  out = [{k: v[sl] for k, v in cur.items()}, act[sl], cv[sl], av[sl]]
  if count:
    out = [{k: v[:count] for k, v in out[0].items()}] + [o[:count] for o in out[1:]]
  return out


def state_model(ck):
  acts = list(itertools.product([-2048.0, 0.0, 3.5], [1.25, -77.0],
                                [0.0, 3.0, -1.5], [-4.0, 0.0, 20.0],
                                [0.5, -9.0]))
  cur, act, cv, av = grid(acts, YAWS[::6])
  register(ck, cur, act, cv, av)
  run_grid(ck, 'State', dynamics.StateDynamics(), ref.state_dyn, cur, act, cv,
           av, False)
  s = sub(cur, act, cv, av, 5, 600)
  run_grid(ck, 'State/batch', dynamics.StateDynamics(), ref.state_dyn, *s,
           False, (2, 3, -1))
  # as_action is the inverse packing of an update for this model.
  n = len(cv)
  rs = np.arange(5 * n, dtype=np.float32).reshape(n, 5)
  upd = datatypes.TrajectoryUpdate(
      **{f: jnp.asarray(rs[:, i:i + 1]) for i, f in enumerate(ref.POSE)},
      valid=jnp.asarray(av[:, None]))
  back = upd.as_action()
  ck.close('State/as_action', back.data, rs)
  ck.close('State/as_action/valid', back.valid, av[:, None])


def compositions(ck):
  """Every sequence of moves up to a depth: local moves compose rigidly."""
  moves = [(1.0, 0.0, 0.0), (0.0, 0.5, PI / 2), (-0.5, 1.0, -2.0),
           (2.0, -1.0, 3.0)]
  depth = 6 if ck.thorough else 4
  for name, model, fn in (
      ('DeltaGlobal', dynamics.DeltaGlobal(), ref.delta_global),
      ('DeltaLocal', dynamics.DeltaLocal(), ref.delta_local)):
    cur = dict(x=np.array([1.0]), y=np.array([-2.0]), yaw=np.array([0.5]),
               vel_x=np.zeros(1), vel_y=np.zeros(1))
    real = scenes.traj(**{k: v[:, None] for k, v in cur.items()})
    step = jax.jit(model.compute_update)
    for d in range(depth):
      m = len(cur['x'])
      cur = {k: np.repeat(v, len(moves)) for k, v in cur.items()}
      acts = np.tile(np.array(moves), (m, 1))
      real = jax.tree_util.tree_map(
          lambda x: jnp.repeat(x, len(moves), axis=0), real)
      upd = step(datatypes.Action(
          data=jnp.asarray(acts, jnp.float32),
          valid=jnp.ones((len(acts), 1), bool)), real)
      real = real.replace(**{f: getattr(upd, f) for f in ref.POSE})
      cur = fn(cur, acts)
      for f in ref.POSE:
        g = np.asarray(getattr(real, f))[:, 0]
        ok = (ref.ang_close(g, cur[f], 1e-4).all() if f == 'yaw' else
              np.allclose(g, cur[f], atol=3e-4))
        ck.check(ok, f'compose/{name}/depth={d + 1}/{f}')
      for i in range(len(acts)):
        ck.state(np.array([cur[f][i] for f in ref.POSE]).tobytes())
      ck.transitions += len(acts)
      ck.validated += len(acts)
      ck.part('move sequences', len(acts))


PARTS = [deltas, state_model, compositions]
