"""C07: inverse dynamics — round trips, bounds, invalid transitions."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import datatypes
from waymax import dynamics

from checks import c05
from wmc import ref
from wmc import scenes

LEVEL = 'model_checking'
PI = np.pi


def pair(cur, nxt, v0, v1, T=2, t=0):
  """Trajectory of T steps holding the pair (cur, nxt) at (t, t+1)."""
  n = len(v0)
  f = {}
  for k in ref.POSE:
    a = np.full((n, T), 77.0) + np.arange(T)
    a[:, t], a[:, t + 1] = cur[k], nxt[k]
    f[k] = a
  valid = np.ones((n, T), bool)
  valid[:, t], valid[:, t + 1] = v0, v1
  return scenes.traj(valid=valid, **f)


def ref_inverse_delta(cur, nxt, both, lim, local):
  d = np.stack([nxt['x'] - cur['x'], nxt['y'] - cur['y'],
                nxt['yaw'] - cur['yaw']], -1)
  d = np.where(both[:, None], d, 0.0)
  d[:, 0] = np.clip(d[:, 0], -lim[0], lim[0])
  d[:, 1] = np.clip(d[:, 1], -lim[1], lim[1])
  d[:, 2] = ref.wrap(d[:, 2])
  return d


def run_delta(ck):
  ck.rule = ('every (start pose, displacement, validity pair): inverse, then '
             'forward again, compared with the target pose')
  disp = list(itertools.product([-5.5, -1.0, 0.0, 0.25, 4.0],
                                [-5.5, 0.0, 0.5, 3.0],
                                [-3.0, -0.5, 0.0, 0.25, 3.0]))
  rows = list(itertools.product(c05.POS, c05.YAWS, disp, (0, 1), (0, 1)))
  cur = dict(x=[r[0][0] for r in rows], y=[r[0][1] for r in rows],
             yaw=[r[1] for r in rows])
  cur = {k: np.array(v, np.float64) for k, v in cur.items()}
  cur['vel_x'] = np.full(len(rows), 3.0)
  cur['vel_y'] = np.full(len(rows), -2.0)
  dd = np.array([r[2] for r in rows])
  v0 = np.array([r[3] for r in rows], bool)
  v1 = np.array([r[4] for r in rows], bool)
  both = v0 & v1
  for name, model, fn in (
      ('DeltaGlobal', dynamics.DeltaGlobal(), ref.delta_global),
      ('DeltaLocal', dynamics.DeltaLocal(), ref.delta_local)):
    for wrap_target in (False, True):
      nxt = fn(cur, dd)
      if name == 'DeltaLocal':
        # Only transitions whose global displacement is also in range are
        # representable exactly.
        g = np.stack([nxt['x'] - cur['x'], nxt['y'] - cur['y']], -1)
        inside = (np.abs(g) <= 6.0).all(-1)
      else:
        inside = np.ones(len(rows), bool)
      if wrap_target:
        nxt = dict(nxt, yaw=ref.wrap(nxt['yaw']))
      for T, t in ((2, 0), (5, 0), (5, 2), (5, 3)):
        if (T, t) != (2, 0) and wrap_target:
          continue
        tr = pair(cur, nxt, v0, v1, T, t)
        meta = scenes.metadata(len(rows))
        act = model.inverse(tr, meta, t)
        act.validate()
        tag = f'{name}/wrapped={wrap_target}/T={T}/t={t}'
        a = np.asarray(act.data, np.float64)
        ck.close(f'{tag}/valid', act.valid, both[:, None])
        spec = model.action_spec()
        lo, hi = np.asarray(spec.minimum), np.asarray(spec.maximum)
        ck.check((a >= lo - 1e-4).all() and (a <= hi + 1e-4).all(),
                 f'{tag}/bounds')
        ck.check((a[~both] == 0).all(), f'{tag}/invalid-is-zero')
        # recovered action
        good = (np.abs(a[:, :2] - dd[:, :2]) < 2e-3).all(-1) & ref.ang_close(
            a[:, 2], dd[:, 2], 1e-3)
        good |= ~(both & inside)
        if not good.all():
          i = int(np.argwhere(~good)[0][0])
          ck.fail(f'{tag}/recovered', {
              'from': {k: v[i] for k, v in cur.items()}, 'action': dd[i],
              'got': a[i]})
        # forward again
        now = jax.tree_util.tree_map(lambda x: x[:, t:t + 1], tr)
        upd = model.compute_update(act, now)
        for k in ('x', 'y', 'yaw'):
          got = np.asarray(getattr(upd, k))[:, 0]
          ok = (ref.ang_close(got, nxt[k], 1e-3) if k == 'yaw' else
                np.abs(got - nxt[k]) < 2e-3) | ~(both & inside)
          if not ok.all():
            i = int(np.argwhere(~ok)[0][0])
            ck.fail(f'{tag}/round-trip/{k}', {'got': got[i], 'want': nxt[k][i]})
        ck.part('pairs', len(rows))
        ck.transitions += 2 * len(rows)
        ck.validated += len(rows)
  for r in rows:
    ck.state(repr(r).encode())
  ck.sample({'displacements': len(disp), 'headings': c05.YAWS})


def run_delta_out_of_range(ck):
  """Displacements beyond the limits are cut to the limits."""
  big = [-500.0, -8.0, -6.5, 2.0, 6.5, 40.0]
  dd = np.array(list(itertools.product(big, big, [-6.0, -4.0, 0.5, 3.5, 6.0])))
  n = len(dd)
  for yaw in (0.0, 1.0, -2.5, PI / 2):
    cur = dict(x=np.full(n, 2.0), y=np.full(n, -3.0), yaw=np.full(n, yaw),
               vel_x=np.zeros(n), vel_y=np.zeros(n))
    nxt = ref.delta_global(cur, dd)
    tr = pair(cur, nxt, np.ones(n, bool), np.ones(n, bool))
    for lim in ((6.0, 6.0, PI), (3.0, 7.0, PI)):
      for name, cls in (('DeltaGlobal', dynamics.DeltaGlobal),
                        ('DeltaLocal', dynamics.DeltaLocal)):
        model = cls(max_dx=lim[0], max_dy=lim[1], max_dyaw=lim[2])
        act = model.inverse(tr, scenes.metadata(n), 0)
        a = np.asarray(act.data)
        tag = f'{name}/out-of-range/{lim}/yaw={yaw}'
        ck.check((np.abs(a[:, 0]) <= lim[0] + 1e-4).all() and
                 (np.abs(a[:, 1]) <= lim[1] + 1e-4).all() and
                 (np.abs(a[:, 2]) <= PI + 1e-4).all(), f'{tag}/bounds')
        ck.check(np.asarray(act.valid).all(), f'{tag}/valid')
        if name == 'DeltaGlobal':
          want = ref_inverse_delta(cur, nxt, np.ones(n, bool), lim, False)
          ck.check(np.allclose(a[:, :2], want[:, :2], atol=1e-3) and
                   ref.ang_close(a[:, 2], want[:, 2], 1e-3).all(),
                   f'{tag}/clipped')
        ck.part('out-of-range pairs', n)
        ck.transitions += n
        ck.validated += n


def run_state(ck):
  n, T = 8, 4
  model = dynamics.StateDynamics()
  for bits in itertools.product((False, True), repeat=T):
    tr = scenes.log_traj(n, T, np.broadcast_to(bits, (n, T)), variant=1)
    for t in range(T - 1):
      act = model.inverse(tr, scenes.metadata(n), t)
      want = np.stack([np.asarray(getattr(tr, f))[:, t + 1] for f in ref.POSE], -1)
      ck.close(f'State/t={t}', act.data, want, atol=0, rtol=0)
      ck.close(f'State/valid/t={t}/{bits}', act.valid,
               np.full((n, 1), bits[t + 1]))
      upd = model.compute_update(
          act, jax.tree_util.tree_map(lambda x: x[:, t:t + 1], tr))
      for f in ref.POSE:
        ck.close(f'State/round-trip/{f}/t={t}', getattr(upd, f),
                 np.asarray(getattr(tr, f))[:, t + 1:t + 2], atol=0, rtol=0)
      ck.part('direct-state pairs', n)
      ck.transitions += n
      ck.validated += n
      ck.state(repr((bits, t)).encode())


def run_bicycle(ck):
  speeds = [0.0, 0.25, 0.5, 1.5, 4.0, 12.0, 30.0]
  accels = [-6.0, -2.0, 0.0, 1.0, 6.0]
  steers = [-0.3, -0.0625, 0.0, 0.125, 0.3]
  rows = list(itertools.product(c05.POS[:2], c05.YAWS, speeds, accels, steers,
                                (0, 1), (0, 1)))
  col = lambda i: np.array([r[i] for r in rows], np.float64)
  yaw, v, a, k = col(1), col(2), col(3), col(4)
  cur = dict(x=np.array([r[0][0] for r in rows]),
             y=np.array([r[0][1] for r in rows]), yaw=yaw,
             vel_x=v * np.cos(yaw), vel_y=v * np.sin(yaw))
  v0, v1 = col(5) > 0, col(6) > 0
  both = v0 & v1
  nxt = ref.bicycle(cur, np.stack([a, k], -1))
  nv = v + 0.1 * a
  for norm in (False, True):
    model = dynamics.InvertibleBicycleModel(normalize_actions=norm)
    ma, ms = (6.0, 0.3) if norm else (1.0, 1.0)
    for T, t in ((2, 0), (4, 1), (4, 2)):
      tr = pair(cur, nxt, v0, v1, T, t)
      act = model.inverse(tr, scenes.metadata(len(rows)), t)
      act.validate()
      tag = f'Bicycle/normalized={norm}/T={T}/t={t}'
      got = np.asarray(act.data, np.float64)
      ck.close(f'{tag}/valid', act.valid, both[:, None])
      spec = model.action_spec()
      ck.check((got >= np.asarray(spec.minimum) - 1e-5).all() and
               (got <= np.asarray(spec.maximum) + 1e-5).all(), f'{tag}/bounds')
      ck.check((got[~both] == 0).all(), f'{tag}/invalid-is-zero')
      fwd = both & (nv >= 0.0)
      good = (np.abs(got[:, 0] * ma - a) < 5e-3) | ~fwd
      if not good.all():
        i = int(np.argwhere(~good)[0][0])
        ck.fail(f'{tag}/accel', {'row': rows[i], 'got': got[i]})
      fast = fwd & (v >= 0.7) & (nv >= 0.7)
      good = (np.abs(got[:, 1] * ms - k) < 2e-3) | ~fast
      if not good.all():
        i = int(np.argwhere(~good)[0][0])
        ck.fail(f'{tag}/steering', {'row': rows[i], 'got': got[i]})
      slow = both & ((v < 0.59) | (np.abs(nv) < 0.59))
      ck.check((got[slow, 1] == 0).all(), f'{tag}/steering-at-low-speed')
      upd = model.compute_update(
          act, jax.tree_util.tree_map(lambda x: x[:, t:t + 1], tr))
      for f in ref.POSE:
        g = np.asarray(getattr(upd, f))[:, 0]
        ok = (ref.ang_close(g, nxt[f], 2e-3) if f == 'yaw' else
              np.abs(g - nxt[f]) < 1e-2) | ~fast
        if not ok.all():
          i = int(np.argwhere(~ok)[0][0])
          ck.fail(f'{tag}/round-trip/{f}',
                  {'row': rows[i], 'got': g[i], 'want': nxt[f][i]})
      ck.part('bicycle pairs', len(rows))
      ck.transitions += 2 * len(rows)
      ck.validated += len(rows)
  for r in rows:
    ck.state(repr(r).encode())


def run_bicycle_arbitrary(ck):
  """Arbitrary (not model-generated) pairs: bounds and clipping."""
  rows = list(itertools.product([0.0, 1.0, -3.0], [0.0, 10.0], [0.5, -2.5, 3.1],
                                [0.0, 2.0, 25.0], [-3.1, 0.5, 1.5],
                                [0.0, 1.0, 9.0]))
  c = lambda i: np.array([r[i] for r in rows], np.float64)
  n = len(rows)
  cur = dict(x=c(0), y=c(1), yaw=c(2), vel_x=c(3) * np.cos(c(2)),
             vel_y=c(3) * np.sin(c(2)))
  nxt = dict(x=c(1), y=c(0), yaw=c(4), vel_x=c(5) * np.cos(c(4)),
             vel_y=c(5) * np.sin(c(4)))
  tr = pair(cur, nxt, np.ones(n, bool), np.ones(n, bool))
  for kw in ({}, dict(max_accel=2.0, max_steering=0.1), dict(dt=0.5),
             dict(normalize_actions=True)):
    model = dynamics.InvertibleBicycleModel(**kw)
    dt = kw.get('dt', 0.1)
    ma, ms = kw.get('max_accel', 6.0), kw.get('max_steering', 0.3)
    got = np.asarray(model.inverse(tr, scenes.metadata(n), 0).data, np.float64)
    acc = (c(5) - c(3)) / dt
    curv = np.divide(ref.wrap(c(4) - c(2)), c(3) * dt + 0.5 * acc * dt**2,
                     out=np.zeros(n), where=(c(3) > 0.7) & (c(5) > 0.7))
    if kw.get('normalize_actions'):
      acc, curv, la, ls = acc / ma, curv / ms, 1, 1
    else:
      la, ls = ma, ms
    want = np.stack([np.clip(acc, -la, la), np.clip(curv, -ls, ls)], -1)
    bad = np.abs(got - want).max(-1) > 5e-3
    if bad.any():
      i = int(np.argwhere(bad)[0][0])
      ck.fail(f'Bicycle/arbitrary/{kw}', {'row': rows[i], 'got': got[i],
                                          'want': want[i]})
    ck.part('arbitrary pairs', n)
    ck.transitions += n
    ck.validated += n


def run_batched(ck):
  """Batch dimensions and traced time indices do not change the answer."""
  models = [dynamics.DeltaGlobal(), dynamics.DeltaLocal(),
            dynamics.StateDynamics(), dynamics.InvertibleBicycleModel(),
            dynamics.InvertibleBicycleModel(normalize_actions=True)]
  for batch in ((2,), (2, 3)):
    v = (np.arange(30 if len(batch) == 2 else 10).reshape(batch + (-1,)) % 3 > 0)
    v = np.broadcast_to(v[..., :1, None], batch + (4, 5)).copy()
    v[..., 1, 2] = False
    tr = scenes.log_traj(4, 5, v, batch=batch)
    meta = scenes.metadata(4, batch=batch)
    for m in models:
      for t in range(4):
        whole = jax.jit(lambda tr, t: m.inverse(tr, meta, t))(tr, t)
        for ix in np.ndindex(*batch):
          one = m.inverse(jax.tree_util.tree_map(lambda x: x[ix], tr),
                          jax.tree_util.tree_map(lambda x: x[ix], meta), t)
          ck.close(f'batch/{type(m).__name__}/{batch}/t={t}',
                   whole.data[ix], one.data, atol=1e-4)
          ck.close(f'batch/{type(m).__name__}/{batch}/t={t}/valid',
                   whole.valid[ix], one.valid)
          ck.part('batched', 1)
          ck.transitions += 1
          ck.validated += 1


PARTS = [run_delta, run_delta_out_of_range, run_state, run_bicycle,
         run_bicycle_arbitrary, run_batched]
