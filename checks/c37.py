"""C37: recorded drives of full size, from the file to their last step."""
import functools
import itertools
import os
import tempfile

import jax
import jax.numpy as jnp
import numpy as np
import tensorflow as tf
from waymax import agents
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv
from waymax.dataloader import womd_dataloader

from checks import c21
from checks import c28
from wmc import core
from wmc import envx
from wmc import ref
from wmc import refidm
from wmc import refmetrics
from wmc import refobs
from wmc import scenes

LEVEL = 'model_checking'
PI = np.pi
OBJECTS, STEPS, LIGHTS, POINTS, ROUTES, KNOTS = 128, 91, 16, 2400, 9, 150
INIT, TOPK, HISTORY = 11, 60, 3
FR = wconfig.CoordinateFrame
ALL = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility',
       'sdc_wrongway', 'sdc_progression', 'sdc_off_route')
WEIGHTS = {'overlap': -1.5, 'log_divergence': 0.25, 'offroad': -0.5}
# Small enough that an 80-step drive stays near the road.
LETTERS = {
    'DeltaGlobal': [(0.61, -0.22, 0.02), (-0.4, 0.35, -0.03)],
    'DeltaLocal': [(0.81, -0.06, 0.02), (0.55, 0.04, -0.03)],
    'Bicycle': [(1.7, 0.03), (-3.1, -0.05)],
    'State': [(2.1, -1.3, 0.4, 3.0, 1.0), (40.2, 16.1, -2.6, -1.5, 0.7)],
    'Discrete': [(52,), (45,)],
}


def drive(variant):
  """Arrays of one recorded drive: (trajectory dict, sdc, lateral, ...)."""
  v = variant
  base = (0.4, -2.7)[v]
  o = np.arange(OBJECTS)[:, None].astype(float)
  t = np.arange(STEPS)[None].astype(float)
  lane = (o % 4) - 1.5
  back = (o % 4 == 3)
  speed = 4.0 + 5.0 * ((o + v) % 4) + 0.02 * t * ((o % 3) - 1)
  yaw = base + np.where(back, PI, 0) + 0.05 * np.sin(0.09 * t + o)
  along = 9.7 * (o // 4) + np.cumsum(
      np.where(back, -1, 1) * 0.1 * speed * np.cos(0.05 * np.sin(0.09 * t + o)), -1)
  off = 3.4 * lane + np.cumsum(
      np.where(back, -1, 1) * 0.1 * speed * np.sin(0.05 * np.sin(0.09 * t + o)), -1)
  c, s = np.cos(base), np.sin(base)
  place = lambda a, b: (120.0 * v + c * a - s * b, -75.0 * v + s * a + c * b)
  x, y = place(along, off)
  sdc = (127, 40)[v]
  valid = ((o * 7 + t + 3 * v) // 6) % 7 != 1
  valid &= ~((o % 11 == 5) & (t > 47))           # leaves for good
  valid &= ~((o % 13 == 4) & (t < 30))           # enters late
  valid[np.arange(OBJECTS) % 31 == 29] = False   # never there
  valid[sdc] = True
  yaw = (yaw + PI) % (2 * PI) - PI
  full = lambda a: np.broadcast_to(a, (OBJECTS, STEPS)).astype(np.float32)
  return dict(
      x=full(x), y=full(y), z=full(0.1 * (o % 3) + 0.002 * t), yaw=full(yaw),
      vel_x=full(speed * np.cos(yaw)), vel_y=full(speed * np.sin(yaw)),
      length=full(3.5 + 0.25 * (o % 9)), width=full(1.5 + 0.125 * (o % 5)),
      height=full(1.5 + 0.125 * (o % 4)), valid=valid,
      timestamp_micros=np.broadcast_to(100_000 * t, valid.shape).astype(np.int32)
  ), sdc, place, base


def record(variant):
  """The drive as a dataset dictionary."""
  tr, sdc, place, base = drive(variant)
  ex = c28.example(OBJECTS, (10, 1, 80), LIGHTS, POINTS, (ROUTES, KNOTS), variant)
  names = dict(x='x', y='y', z='z', yaw='bbox_yaw', vel_x='velocity_x',
               vel_y='velocity_y', valid='valid', length='length', width='width',
               height='height', timestamp_micros='timestamp_micros')
  cut = dict(past=slice(0, 10), current=slice(10, 11), future=slice(11, 91))
  for time, sl in cut.items():
    for f, k in names.items():
      key = f'state/{time}/{k}'
      ex[key] = tr[f][:, sl].astype(ex[key].dtype)
    lx, ly = place(23.0 * np.arange(LIGHTS)[None] + 0.5 * np.arange(
        sl.stop - sl.start)[:, None], 4.0 * (-1.0) ** np.arange(LIGHTS)[None])
    ex[f'traffic_light_state/{time}/x'] = lx.astype(np.float32)
    ex[f'traffic_light_state/{time}/y'] = ly.astype(np.float32)
    ex[f'traffic_light_state/{time}/z'] = (0 * lx + 5).astype(np.float32)
  o = np.arange(OBJECTS)
  ex['state/is_sdc'] = (o == sdc).astype(np.int64)
  ex['state/tracks_to_predict'] = np.where(
      o % 17 == 9, -1, (o % 5 == 2)).astype(np.int64)
  i = np.arange(POINTS)
  left = i < POINTS // 2
  j = i % (POINTS // 2)
  off = np.where(left, 8.3 + 0.4 * np.sin(0.05 * j), -7.9 + 0.3 * np.sin(0.07 * j))
  rx, ry = place(0.45 * j - 60.0 + 0.1 * left, off)
  ang = base + np.where(left, PI, 0.0) + 0.02 * np.sin(0.3 * i)
  ex['roadgraph_samples/xyz'] = np.stack(
      [rx, ry, 0.1 + 0.01 * np.sin(i)], -1).astype(np.float32)
  ex['roadgraph_samples/dir'] = np.stack(
      [np.cos(ang), np.sin(ang), 0 * ang], -1).astype(np.float32)
  ex['roadgraph_samples/id'] = (7 + i // 40)[:, None].astype(np.int64)
  ex['roadgraph_samples/type'] = np.where(
      i % 9 == 4, 2, np.where(left, 15, 16))[:, None].astype(np.int64)
  ex['roadgraph_samples/valid'] = (i % 23 != 11)[:, None].astype(np.int64)
  p, k = np.arange(ROUTES)[:, None], np.arange(KNOTS)[None]
  start = tr['x'][sdc, 0], tr['y'][sdc, 0]
  bend = base + np.where(sdc % 4 == 3, PI, 0) + 0.004 * k * (p - 4)
  px = start[0] - 4.0 + np.cumsum(1.1 * np.cos(bend), -1) + 0.3 * p
  py = start[1] + 1.0 + np.cumsum(1.1 * np.sin(bend), -1) - 0.2 * p
  ex['path_samples/xyz'] = np.stack([px, py, 0 * px], -1).astype(np.float32)
  ex['path_samples/valid'] = (k < 150 - 7 * p).astype(np.int64)
  ex['path_samples/arc_length'] = (1.1 * k + 0 * p).astype(np.float32)
  ex['path_samples/on_route'] = (p % 2 == variant).astype(np.int64)
  return ex, tr, sdc


@functools.lru_cache(None)
def load(variant, limit):
  """Writes the record, reads it with the public generator."""
  ex, tr, sdc = record(variant)
  with tempfile.TemporaryDirectory() as root:
    path = os.path.join(root, 'drive')
    with tf.io.TFRecordWriter(path) as w:
      w.write(c28.serialize(ex))
    cfg = wconfig.DatasetConfig(
        path=path, repeat=1, max_num_objects=limit, include_sdc_paths=True,
        max_num_rg_points=POINTS, num_paths=ROUTES, num_points_per_path=KNOTS,
        num_shards=1)
    scene, = list(womd_dataloader.simulator_state_generator(cfg))
  return scene, {f: a[:limit] for f, a in tr.items()}, sdc


class Run:
  """An environment on a loaded drive."""

  def __init__(self, name, variant, limit=OBJECTS):
    kind, dyn, mode = name.split('/')
    self.scene, self.tr, self.sdc = load(variant, limit)
    self.n = limit
    cfg = dict(metrics=wconfig.MetricsConfig(metrics_to_run=ALL),
               rewards=wconfig.LinearCombinationRewardConfig(WEIGHTS))
    inject = not mode.endswith('-closed')
    self.case = envx.Case(dyn, limit, INIT, mode.split('-')[0], inject,
                          kind[0] == 'P', **cfg)
    self.env, self.idm = self.case.env, False
    if kind == 'PA':
      self.idm = True
      self.env = wenv.PlanningAgentEnvironment(
          self.case.dyn.make(), self.case.cfg,
          [agents.IDMRoutePolicy(lambda s: ~s.object_metadata.is_sdc)], [{}])
    self.step = jax.jit(self.env.step)
    self.metrics = jax.jit(self.env.metrics)
    self.reward = jax.jit(self.env.reward)
    self.view = {f: jax.jit(lambda s, f=f: datatypes.observation_from_state(
        s, HISTORY, TOPK, f)) for f in FR}
    self.expert = agents.create_expert_actor(dynamics.DeltaGlobal())
    self.ask = jax.jit(lambda s: self.expert.select_action({}, s, None, None).action)

  def action(self, word, t):
    al = LETTERS[self.case.dyn.name]
    dt = np.int32 if self.case.dyn.name == 'Discrete' else np.float32
    if self.case.planning:
      return np.asarray(al[word(t)], dt), np.ones(1, bool)
    o = np.arange(self.n)
    a = np.asarray(al)[(o + word(t)) % 2]
    if self.case.dyn.name == 'State':
      a = a + np.array([0.7, 0.3, 0, 0, 0]) * o[:, None]
    return a.astype(dt), ((o * 3 + t) % 7 != 4)[:, None]


def look(ck, tag, r, st, act, t, full):
  """Everything reported at a state, against the NumPy references."""
  sim, log = scenes.np_traj(st.sim_trajectory), scenes.np_traj(st.log_trajectory)
  meta = envx.np_state(st)['meta']
  ck.check(int(st.timestep) == t and bool(st.is_done) == (t == STEPS - 1),
           f'{tag}/clock', {'t': t, 'got': st.timestep, 'done': st.is_done})
  d, dv = refmetrics.log_divergence(sim, log, t)
  m = {k: (np.asarray(x.value), np.asarray(x.valid))
       for k, x in r.metrics(st).items()}
  ck.check(list(m) == sorted(ALL) or set(m) == set(ALL), f'{tag}/metrics')
  where = lambda: {'t': t}
  whose = slice(r.sdc, r.sdc + 1) if r.case.planning else slice(None)
  m = {k: [np.atleast_1d(a) for a in x] for k, x in m.items()}
  ck.close(f'{tag}/log_divergence', m['log_divergence'][0], d[whose], atol=2e-3,
           mask=dv[whose], detail=where)
  ck.check(np.array_equal(m['log_divergence'][1], dv[whose]), f'{tag}/log_divergence/valid')
  val, ov, sure = refmetrics.overlap(sim, t, 5e-3)
  # Absent boxes do not count.
  ck.close(f'{tag}/overlap', m['overlap'][0], val[whose], atol=0,
           mask=(ov & sure)[whose],
           detail=where)
  ck.check(np.array_equal(m['overlap'][1], ov[whose]), f'{tag}/overlap/valid')
  if t:
    val, kv, sure = refmetrics.kinematic_infeasibility(sim, t)
    if r.case.planning:
      kv = kv & (t > INIT - 1)  # the recorded transition is not the agent's
    ck.close(f'{tag}/kinematic', m['kinematic_infeasibility'][0], val[whose],
             atol=0, mask=(kv & sure)[whose], detail=where)
    ck.check(np.array_equal(m['kinematic_infeasibility'][1], kv[whose]),
             f'{tag}/kinematic/valid')
  ego = np.array([sim['x'][r.sdc, t], sim['y'][r.sdc, t]], float)
  here = bool(sim['valid'][r.sdc, t])
  p = refobs.np_fields(st.sdc_paths, ('x', 'y', 'valid', 'arc_length', 'on_route'))
  ends = [np.array([log['x'][r.sdc, i], log['y'][r.sdc, i]], float) for i in (0, -1)]
  for name, (val, pv, sure) in (
      ('sdc_wrongway', refmetrics.wrongway(ego, p)),
      ('sdc_off_route', refmetrics.off_route(ego, here, p)),
      ('sdc_progression', refmetrics.progression(ego, here, *ends, p))):
    if sure and here:
      ck.close(f'{tag}/{name}', m[name][0][0], val, atol=2e-3, rtol=1e-3, detail=where)
      ck.check(bool(m[name][1][0]) == pv, f'{tag}/{name}/valid', where)
  if full:
    rg = refobs.np_fields(st.roadgraph_points, refobs.RG_FIELDS)
    val, _, sure = refmetrics.offroad(sim, t, rg)
    ok = sim['valid'][:, t]
    ck.close(f'{tag}/offroad', m['offroad'][0], val[whose], atol=0,
             mask=(ok & sure)[whose],
             detail=where)
    ck.outcome('off road', int((val * ok).sum()))
    ck.outcome('on road', int(((1 - val) * ok).sum()))
  ck.outcome('overlapping', int(m['overlap'][0][ov[whose]].sum()))
  mode = 'SDC' if r.case.planning else r.case.mode
  mask = ref.control_mask(meta, mode, None, True)
  want = sum(w * np.where(m[k][1], m[k][0], 0) * mask[whose]
             for k, w in WEIGHTS.items())
  ck.close(f'{tag}/reward', np.atleast_1d(r.reward(st, act)), want, atol=2e-3,
           detail=where)
  fr = list(FR)[t % 3]
  c21.check_view(ck, f'{tag}/view/{fr.name}', r.view[fr](st), st, fr, HISTORY,
                 TOPK, sorted({t % r.n, (5 * t + 90) % r.n, r.sdc}))
  if t < STEPS - 1:
    a = r.ask(st)
    f = ('x', 'y', 'yaw')
    mv = np.stack([log[k][:, t + 1].astype(float) - sim[k][:, t] for k in f], -1)
    ok = sim['valid'][:, t] & log['valid'][:, t + 1]
    ck.check(np.array_equal(np.asarray(a.valid)[:, 0], ok), f'{tag}/expert/valid')
    gd = np.asarray(a.data, float)
    ck.close(f'{tag}/expert', gd[:, :2], mv[:, :2], atol=1e-3,
             mask=ok[:, None] & (np.abs(mv[:, :2]) < 6), detail=where)


def traffic(ck, tag, r, st, out, t, act):
  """One step in which IDM drives everyone but the ego."""
  sim, log = scenes.np_traj(st.sim_trajectory), scenes.np_traj(st.log_trajectory)
  meta = envx.np_state(st)['meta']
  cur = {f: sim[f][:, t].astype(float) if sim[f].dtype != bool else sim[f][:, t]
         for f in sim}
  lg = {f: a.astype(float) if a.dtype != bool else a for f, a in log.items()}
  pose, ok, _, sure, led = refidm.idm_step(cur, lg, refidm.IDM)
  ego = r.case.dyn.ref({f: cur[f] for f in ref.POSE},
                       np.broadcast_to(np.asarray(act, float), (r.n, len(act))))
  stuck, firm = overlapping_at_start(log)
  drives = ~meta['is_sdc'] & ~stuck
  upd = {f: np.where(meta['is_sdc'], ego[f], pose[f]) for f in ref.POSE}
  upd['valid'] = ok & drives
  want = ref.step(sim, log, t, meta['is_sdc'] | drives, upd, True)
  new = scenes.np_traj(out.sim_trajectory)
  sure = np.where(meta['is_sdc'], True, sure & firm) & want['valid'][:, t + 1]
  for f in ref.POSE:
    if f == 'yaw':
      bad = ~ref.ang_close(new[f][:, t + 1], want[f][:, t + 1], 2e-3) & sure
    else:
      bad = (np.abs(new[f][:, t + 1] - want[f][:, t + 1]) > 6e-3 + 2e-4 * np.abs(
          want[f][:, t + 1])) & sure
    ck.check(not bad.any(), f'{tag}/traffic/{f}', lambda: {
        't': t, 'object': int(np.argmax(bad)),
        'got': new[f][np.argmax(bad), t + 1],
        'want': want[f][np.argmax(bad), t + 1]})
  ck.check(np.array_equal(new['valid'][firm, t + 1], want['valid'][firm, t + 1]),
           f'{tag}/traffic/valid', {'t': t})
  ck.outcome('behind a leader', int(led.sum()))
  ck.outcome('judged', int(sure.sum()))


def overlapping_at_start(log):
  m = refmetrics.overlap_margin(log, 0)
  v = log['valid'][:, 0]
  both = v[:, None] & v[None]
  return ((m < 0) & both).any(0), ~((np.abs(m) < 5e-3) & both).any(0)


RUNS = ('M/DeltaGlobal/VALID', 'M/Bicycle/MODELED', 'M/State/NON_SDC',
        'M/DeltaLocal/VALID-closed', 'P/DeltaLocal/SDC', 'PA/Bicycle/SDC',
        'M/Discrete/SDC', 'P/Bicycle/SDC')


@core.sharded
def drives(ck):
  """Every environment x drive x switching clock, for all 80 steps."""
  ck.rule = ('full-size records written to disk, read by the public generator '
             'and driven to the last step; every step, metric, reward, view and '
             'expert action against the NumPy references')
  switches = range(0, 90, 9) if ck.thorough else (40,)
  plans = [(n, v, k, OBJECTS) for k in switches for v in range(2) for n in RUNS]
  if not ck.thorough:
    plans = [p for i, p in enumerate(plans) if p[1] == i % 2 or p[0][0:2] == 'PA']
  plans += [('M/Bicycle/VALID', 1, 30, 50), ('P/DeltaGlobal/SDC', 1, 30, 41)]
  for name, v, k, limit in plans:
    if not ck.mine():
      continue
    r = Run(name, v, limit)
    tag = f'drive/{name}/record={v}/switch={k}/objects={limit}'
    got = scenes.np_traj(r.scene.log_trajectory)
    for f, w in r.tr.items():
      if f in ('length', 'width', 'height'):
        there = r.tr['valid'].any(-1)
        ck.close(f'{tag}/loaded/{f}', got[f][there], w[there], atol=1e-4)
      elif f == 'yaw':
        ck.check(bool(ref.ang_close(got[f], w).all()), f'{tag}/loaded/{f}')
      else:
        ck.check(np.array_equal(got[f], w), f'{tag}/loaded/{f}')
    st = r.env.reset(r.scene)
    start = ref.reset(got, INIT)
    for f, w in scenes.np_traj(st.sim_trajectory).items():
      ck.check(np.array_equal(w, start[f]), f'{tag}/reset/{f}')
    word = lambda t: int(t >= k) ^ int(t % 10 == 3)
    for t in range(INIT - 1, STEPS):
      data, valid = r.action(word, t)
      act = datatypes.Action(data=jnp.asarray(data), valid=jnp.asarray(valid))
      full = t % (4 if not ck.thorough else 2) == 2 or t in (INIT - 1, STEPS - 1)
      look(ck, tag, r, st, act, t, full)
      ck.state((st.sim_trajectory, st.timestep, r.case.name))
      if t == STEPS - 1:
        break
      out = r.step(st, act)
      if r.idm:
        traffic(ck, tag, r, st, out, t, data)
      else:
        envx.compare(ck, tag, r.case, envx.np_state(st), envx.np_state(out), t,
                     data, valid, ('frame', 'motion', 'validity'), {'t': t})
      ck.transitions += 1
      ck.validated += 1
      ck.part('steps of full-size drives', 1)
      st = out
  ck.sample({'objects': OBJECTS, 'steps': STEPS, 'road points': POINTS,
             'environment': RUNS[0]})


PARTS = [drives]
