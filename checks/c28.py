"""C28: records of the dataset become the scenes they describe."""
import itertools
import os
import tempfile

os.environ.setdefault('AUTOGRAPH_VERBOSITY', '0')

# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
import numpy as np
import tensorflow as tf
from waymax import config as wconfig
from waymax.dataloader import womd_dataloader
from waymax.dataloader import womd_factories
from waymax.dataloader import womd_utils

from wmc import core

tf.get_logger().setLevel('ERROR')

LEVEL = 'model_checking'
TIMES = ('past', 'current', 'future')
STATE_F = ('bbox_yaw', 'height', 'length', 'speed', 'timestamp_micros', 'valid',
           'vel_yaw', 'velocity_x', 'velocity_y', 'width', 'x', 'y', 'z')
TL_F = ('state', 'valid', 'id', 'x', 'y', 'z')
FLAGS = (-1, 0, 1)
YAWS = np.asarray([0, 1, -1, 3, -3, 3.14159, -3.14159, 3.2, -3.2, 4.75, 6.25,
                   -6.25, 9.5, -9.5, 12.25, 100.0, -0.001, 0.001], np.float32)


def example(n, steps, tls, pts, paths=None, var=0, batch=()):
  """A WOMD dictionary every cell of which differs from every other.

  steps: number of past, current and future steps.
  """
  rng = np.arange
  shape_o = tuple(batch) + (n,)
  count = [1 + 1000 * var]

  def fill(shape, dtype, scale=0.25):
    m = int(np.prod(shape))
    v = (count[0] + rng(m)).reshape(shape)
    count[0] += m
    return (v * scale).astype(dtype) if dtype == np.float32 else v.astype(dtype)

  ex = {}
  o = np.broadcast_to(rng(n), shape_o)
  b = rng(int(np.prod(batch))).reshape(batch + (1,)) if batch else 0
  flag = lambda k: np.asarray(FLAGS)[((o + 5 * b + var) // 3**k) % 3].astype(
      np.int64)
  ex['state/id'] = fill(shape_o, np.float32, 1.0)
  ex['state/type'] = ((o + b + var) % 6 - 1).astype(np.float32)
  ex['state/tracks_to_predict'] = flag(0)
  ex['state/objects_of_interest'] = flag(1)
  ex['state/is_sdc'] = flag(2)
  total = sum(steps)
  bits = (o[..., None] + 3 * var + (b[..., None] if batch else 0)) >> (
      rng(total) % 5)
  valid = np.where(bits % 2, 1, np.where(bits % 4, 0, -1))
  at = 0
  for time, k in zip(TIMES, steps):
    for f in STATE_F:
      dt = np.int64 if f in ('timestamp_micros', 'valid') else np.float32
      ex[f'state/{time}/{f}'] = fill(shape_o + (k,), dt, 0.015625)
    ex[f'state/{time}/valid'] = valid[..., at:at + k].astype(np.int64)
    i = rng(n * k).reshape(n, k) + 7 * at + 3 * var
    ex[f'state/{time}/bbox_yaw'] = np.broadcast_to(
        YAWS[i % len(YAWS)], shape_o + (k,)).copy()
    for f in TL_F:
      dt = np.float32 if f in 'xyz' else np.int64
      ex[f'traffic_light_state/{time}/{f}'] = fill(tuple(batch) + (k, tls), dt)
    ex[f'traffic_light_state/{time}/state'] %= 9
    ex[f'traffic_light_state/{time}/valid'] = (
        ex[f'traffic_light_state/{time}/id'] // 2 % 3 - 1)
    ex[f'traffic_light_state/{time}/timestamp_micros'] = fill(
        tuple(batch) + (k,), np.int64)
    at += k
  r = tuple(batch) + (pts,)
  ex['roadgraph_samples/xyz'] = fill(r + (3,), np.float32)
  ex['roadgraph_samples/dir'] = fill(r + (3,), np.float32)
  ex['roadgraph_samples/id'] = fill(r + (1,), np.int64)
  ex['roadgraph_samples/type'] = fill(r + (1,), np.int64) % 20
  ex['roadgraph_samples/valid'] = fill(r + (1,), np.int64) // 3 % 2
  if paths:
    q = tuple(batch) + tuple(paths)
    ex['path_samples/xyz'] = fill(q + (3,), np.float32)
    ex['path_samples/id'] = fill(q, np.int64)
    ex['path_samples/valid'] = fill(q, np.int64) // 2 % 2
    ex['path_samples/arc_length'] = fill(q, np.float32)
    ex['path_samples/on_route'] = fill(q[:-1] + (1,), np.int64) % 2
  return ex


def wrapped(ck, key, got, raw):
  """got is raw modulo 2 pi, in [-pi, pi]."""
  got = np.asarray(got, np.float64)
  raw = np.asarray(raw, np.float64)
  if not ck.check(got.shape == raw.shape, f'{key}/shape', got.shape):
    return
  d = (got - raw + np.pi) % (2 * np.pi) - np.pi
  ck.check((np.abs(d) < 2e-5).all() and (np.abs(got) <= np.pi + 1e-5).all(),
           key, {'got': got, 'raw': raw})


def equal(ck, key, got, want):
  got, want = np.asarray(got), np.asarray(want)
  ck.check(got.shape == want.shape and np.array_equal(got, want), key,
           lambda: {'got shape': got.shape, 'want shape': want.shape,
                    'got': got, 'want': want})


def aggregated(ex):
  """What aggregation should give, in numpy; yaw not wrapped."""
  out = {k: v for k, v in ex.items()
         if k.split('/')[1] not in TIMES}
  for f in STATE_F:
    out[f'state/all/{f}'] = np.concatenate(
        [ex[f'state/{t}/{f}'] for t in TIMES], -1)
  for f in TL_F + ('timestamp_micros',):
    axis = -1 if f == 'timestamp_micros' else -2
    out[f'traffic_light_state/all/{f}'] = np.concatenate(
        [ex[f'traffic_light_state/{t}/{f}'] for t in TIMES], axis)
  return out


@core.sharded
def preprocess(ck):
  """Aggregation over time, heading wrap, object limit."""
  sizes = [(1, (1, 1, 1)), (2, (2, 1, 3)), (4, (3, 1, 1)), (6, (1, 1, 4)),
           (3, (10, 1, 80))]
  for (n, steps), agg, limit, var in itertools.product(
      sizes, (True, False), (None, 0, 1, 2, 4, 9), range(3 if ck.thorough else 2)):
    for tls, pts, paths in ((2, 5, None), (1, 1, (2, 3)), (3, 7, (1, 4))):
      if not ck.mine():
        continue
      tag = (f'preprocess/n={n}/steps={steps}/aggregate={agg}/limit={limit}/'
             f'var={var}/tls={tls}')
      ex = example(n, steps, tls, pts, paths, var)
      before = {k: v.copy() for k, v in ex.items()}
      given = {k: tf.constant(v) for k, v in ex.items()}
      got = womd_dataloader.preprocess_womd_example(given, agg, limit)
      want = aggregated(ex) if agg else ex
      ck.check(set(given) == set(ex), f'{tag}/input kept')
      extra = {'state/which_time'} if agg else set()
      ck.check(set(got) - extra == set(want), f'{tag}/keys',
               {'missing': sorted(set(want) - set(got)),
                'extra': sorted(set(got) - set(want))})
      for k, w in want.items():
        if k not in got:
          continue
        if k.startswith('state/') and limit is not None:
          w = w[:limit]
        ck.transitions += 1
        if k == 'state/all/bbox_yaw':
          wrapped(ck, f'{tag}/{k}', got[k], w)
        else:
          equal(ck, f'{tag}/{k}', got[k], w)
          ck.check(got[k].dtype == given[k].dtype if k in given else True,
                   f'{tag}/{k}/dtype')
      if agg and 'state/which_time' in got:
        which = np.repeat([-1.0, 0.0, 1.0], steps)
        equal(ck, f'{tag}/which_time', got['state/which_time'], which)
      for k in ex:
        ck.check(np.array_equal(ex[k], before[k]), f'{tag}/{k} unchanged')
      ck.state([np.asarray(v) for _, v in sorted(got.items())])
      ck.part('preprocess')


def ref_traj(ex, time):
  pre = f'state/{time}/'
  valid = ex[pre + 'valid'] > 0
  out = {a: ex[pre + b].astype(np.float32) for a, b in (
      ('x', 'x'), ('y', 'y'), ('z', 'z'), ('vel_x', 'velocity_x'),
      ('vel_y', 'velocity_y'), ('yaw', 'bbox_yaw'))}
  out['valid'] = valid
  out['timestamp_micros'] = ex[pre + 'timestamp_micros'].astype(np.int32)
  for f in ('length', 'width', 'height'):
    v = ex[pre + f].astype(np.float64)
    k = valid.sum(-1, keepdims=True)
    mean = np.where(valid, v, 0).sum(-1, keepdims=True) / np.maximum(k, 1)
    out[f] = np.broadcast_to(np.where(k == 0, -1.0, mean), v.shape)
  return out


def compare(ck, tag, got, ex, time, batch, with_paths, yaw_wrapped=False):
  """The scene `got` is the one the dictionary describes."""
  ref = ref_traj(ex, time)
  log = got.log_trajectory
  for f, w in ref.items():
    g = getattr(log, f)
    if f == 'yaw' and yaw_wrapped:
      wrapped(ck, f'{tag}/log/{f}', g, w)
    elif f in ('length', 'width', 'height'):
      ck.close(f'{tag}/log/{f}', g, w, atol=1e-3, rtol=1e-5)
    else:
      equal(ck, f'{tag}/log/{f}', g, w)
    sim = np.asarray(getattr(got.sim_trajectory, f))
    g = np.asarray(g)
    equal(ck, f'{tag}/sim starts at the log/{f}', sim[..., :1], g[..., :1])
    equal(ck, f'{tag}/sim has no future/{f}', sim[..., 1:],
          np.zeros_like(g[..., 1:]))
  equal(ck, f'{tag}/clock', got.timestep, np.zeros(batch, np.int32))
  m = got.object_metadata
  for f, w in (
      ('is_valid', ex['state/tracks_to_predict'] != -1),
      ('is_modeled', ex['state/tracks_to_predict'] == 1),
      ('is_sdc', ex['state/is_sdc'] == 1),
      ('objects_of_interest', ex['state/objects_of_interest'] == 1),
      ('ids', ex['state/id'].astype(np.int32)),
      ('object_types', ex['state/type'].astype(np.int32)),
      ('is_controlled', np.zeros(ex['state/id'].shape, bool))):
    equal(ck, f'{tag}/metadata/{f}', getattr(m, f), w)
  tl = got.log_traffic_light
  for f, k in (('x', 'x'), ('y', 'y'), ('z', 'z'), ('state', 'state'),
               ('lane_ids', 'id'), ('valid', 'valid')):
    w = np.swapaxes(ex[f'traffic_light_state/{time}/{k}'], -1, -2)
    equal(ck, f'{tag}/lights/{f}', getattr(tl, f), w > 0 if f == 'valid' else w)
  rg = got.roadgraph_points
  for i, a in enumerate('xyz'):
    equal(ck, f'{tag}/road/{a}', getattr(rg, a),
          ex['roadgraph_samples/xyz'][..., i])
    equal(ck, f'{tag}/road/dir_{a}', getattr(rg, f'dir_{a}'),
          ex['roadgraph_samples/dir'][..., i])
  equal(ck, f'{tag}/road/types', rg.types, ex['roadgraph_samples/type'][..., 0])
  equal(ck, f'{tag}/road/ids', rg.ids, ex['roadgraph_samples/id'][..., 0])
  equal(ck, f'{tag}/road/valid', rg.valid,
        ex['roadgraph_samples/valid'][..., 0] > 0)
  p = got.sdc_paths
  if not with_paths:
    ck.check(p is None, f'{tag}/no paths unless asked for')
    return
  for i, a in enumerate('xyz'):
    equal(ck, f'{tag}/paths/{a}', getattr(p, a), ex['path_samples/xyz'][..., i])
  equal(ck, f'{tag}/paths/ids', p.ids, ex['path_samples/id'])
  equal(ck, f'{tag}/paths/valid', p.valid, ex['path_samples/valid'] > 0)
  equal(ck, f'{tag}/paths/arc_length', p.arc_length,
        ex['path_samples/arc_length'])
  equal(ck, f'{tag}/paths/on_route', p.on_route, ex['path_samples/on_route'] > 0)


@core.sharded
def factories(ck):
  """Dictionary to scene: batches, time windows, with and without paths."""
  for n, steps, batch, var in itertools.product(
      (1, 3, 27) if ck.thorough else (1, 27),
      ((1, 1, 1), (2, 1, 3), (3, 1, 2)) if ck.thorough else ((2, 1, 3), (1, 1, 1)),
      ((), (2,), (2, 2)),
      range(4 if ck.thorough else 2)):
    for paths in (None, (2, 3)):
      if not ck.mine():
        continue
      ex = example(n, steps, 2, 5, paths, var, batch)
      ex.update(aggregated(ex))
      for time in TIMES + ('all',):
        for ask in ((False, True) if paths else (False,)):
          tag = (f'factories/n={n}/steps={steps}/batch={batch}/var={var}/'
                 f'time={time}/paths={ask}')
          fn = lambda e: womd_factories.simulator_state_from_womd_dict(
              e, include_sdc_paths=ask, time_key=time)
          got = fn(ex)
          compare(ck, tag, got, ex, time, batch, ask)
          ck.state(got)
          ck.transitions += 1
          ck.part('factories')
          if var == 0 and steps == (2, 1, 3):
            small = {k: v.astype(np.int32) if v.dtype == np.int64 else v
                     for k, v in ex.items()}
            compare(ck, f'{tag}/jit', jax.jit(fn)(small), ex, time, batch, ask)
            ck.part('factories, compiled')
  for bad in ('nonsense', '', 'al', 'ALL'):
    ex = example(1, (1, 1, 1), 1, 1)
    ex.update(aggregated(ex))
    for fn in (womd_factories.simulator_state_from_womd_dict,
               womd_factories.traffic_lights_from_womd_dict):
      try:
        fn(ex, time_key=bad)
        ck.fail(f'factories/time key {bad!r} accepted')
      except ValueError:
        pass


def serialize(ex):
  feat = {}
  for k, v in ex.items():
    if v.dtype == np.float32:
      feat[k] = tf.train.Feature(
          float_list=tf.train.FloatList(value=v.ravel().tolist()))
    else:
      feat[k] = tf.train.Feature(
          int64_list=tf.train.Int64List(value=v.ravel().tolist()))
  return tf.train.Example(
      features=tf.train.Features(feature=feat)).SerializeToString()


@core.sharded
def end_to_end(ck):
  """Serialized records in files, through the public scene generator."""
  full = (10, 1, 80)
  pts, paths = 6, (2, 3)
  made = {}

  def ex(i):
    if i not in made:
      made[i] = example(128, full, 16, pts, paths, i)
    return made[i]

  def limited(e, limit):
    return {k: v[:limit] if k.startswith('state/') and limit is not None else v
            for k, v in e.items()}

  with tempfile.TemporaryDirectory() as root:
    written = False
    for batch, limit, ask, agg in itertools.product(
        ((), (1,), (2,), (1, 2)), (None, 1, 8, 128), (False, True),
        (True, False)):
      if not ck.mine():
        continue
      if not written:
        with tf.io.TFRecordWriter(os.path.join(root, 'r')) as w:
          for i in range(2):
            w.write(serialize(ex(i)))
        written = True
      tag = f'end to end/batch={batch}/limit={limit}/paths={ask}/aggregate={agg}'
      cfg = wconfig.DatasetConfig(
          path=os.path.join(root, 'r'), repeat=1, batch_dims=batch,
          max_num_objects=limit, include_sdc_paths=ask, max_num_rg_points=pts,
          num_paths=paths[0] if ask else None, aggregate_timesteps=agg,
          num_points_per_path=paths[1] if ask else None, num_shards=1)
      if not agg:
        if batch:
          continue
        with open(os.path.join(root, 's'), 'wb') as f:
          f.write(serialize(ex(0)))
        got = womd_dataloader.preprocess_serialized_womd_data(
            serialize(ex(0)), cfg)
        for k, w in limited(ex(0), limit).items():
          if k.startswith('path_samples') and not ask:
            ck.check(k not in got, f'{tag}/{k} not asked for')
          elif ck.check(k in got, f'{tag}/{k} is there'):
            equal(ck, f'{tag}/{k}', got[k], w)
        ck.part('serialized record, not aggregated')
        continue
      got = list(womd_dataloader.simulator_state_generator(cfg))
      size = int(np.prod(batch)) if batch else 1
      if not ck.check(len(got) == 2 // size, f'{tag}/number', len(got)):
        continue
      for j, s in enumerate(got):
        own = [limited(ex(size * j + i), limit) for i in range(size)]
        want = {k: np.stack([e[k] for e in own]).reshape(batch + own[0][k].shape)
                for k in own[0]}
        want.update(aggregated(want))
        compare(ck, f'{tag}/{j}', s, want, 'all', batch, ask, yaw_wrapped=True)
        ck.state(s)
        ck.transitions += 1
        ck.part('end to end')


def descriptions(ck):
  """The feature description names every field, with its shape and type."""
  for n, pts, tls, paths in itertools.product(
      (1, 8, 128), (1, 30), (1, 16), (None, (2, 3), (45, 800))):
    kw = dict(max_num_objects=n, max_num_rg_points=pts, num_tls=tls)
    if paths:
      kw.update(include_sdc_paths=True, num_paths=paths[0],
                num_points_per_path=paths[1])
    got = womd_utils.get_features_description(**kw)
    small = (min(paths[0], 3), min(paths[1], 3)) if paths else None
    ex = example(n, (10, 1, 80), tls, pts, small)
    tag = f'description/{n}/{pts}/{tls}/{paths}'
    ck.check(set(got) == set(ex), f'{tag}/keys',
             sorted(set(got) ^ set(ex)))
    for k, v in ex.items():
      if k not in got:
        continue
      shape = list(v.shape)
      if k.startswith('path_samples'):
        shape = list(paths[:1] if k.endswith('on_route') else paths) + (
            [3] if k.endswith('xyz') else [1] if k.endswith('on_route') else [])
      ck.check(list(got[k].shape) == shape, f'{tag}/{k}/shape',
               {'got': got[k].shape, 'want': shape})
      ck.check(got[k].dtype.as_numpy_dtype == v.dtype, f'{tag}/{k}/type',
               {'got': got[k].dtype})
    ck.part('descriptions')
  for a, b in ((None, 3), (3, None), (None, None)):
    try:
      womd_utils.get_features_description(
          include_sdc_paths=True, num_paths=a, num_points_per_path=b)
      ck.fail('description/paths of unknown size accepted')
    except ValueError:
      pass
  ck.rule = ('every dictionary shape x window x batch x object limit x path '
             'option: each field of the scene equals the record cell by cell')


PARTS = [preprocess, factories, end_to_end, descriptions]
