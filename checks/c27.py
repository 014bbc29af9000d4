"""C27: the data pipeline returns every record it should, and nothing else."""
import collections
import itertools
import os
import tempfile

# Two devices, so that the leading device axis is not a singleton.
os.environ.setdefault('XLA_FLAGS', '--xla_force_host_platform_device_count=2')
os.environ.setdefault('AUTOGRAPH_VERBOSITY', '0')

# pylint: disable=g-import-not-at-top
import jax
import numpy as np
import tensorflow as tf
from waymax import config as wconfig
from waymax.dataloader import dataloader_utils as du

from wmc import core

tf.get_logger().setLevel('ERROR')

LEVEL = 'model_checking'
TFR = wconfig.DataFormat.TFRECORD
OBJS = 2


def record(i, j):
  return np.asarray([1000 * (i + 1) + j], np.int32)


def preprocess(serialized):
  """One scenario of OBJS objects; the second feature tells objects apart."""
  v = tf.io.decode_raw(serialized, tf.int32)[0]
  return {'rec': tf.fill([OBJS], v), 'obj': tf.range(OBJS) + 10 * v}


class Files:
  """Sharded files with the given numbers of records."""

  def __init__(self, root):
    self.root = root
    self.done = {}

  def path(self, layout, name='data'):
    key = (layout, name)
    if key not in self.done:
      d = os.path.join(self.root, '_'.join(map(str, layout)) or 'none')
      path = os.path.join(d, name)
      os.makedirs(os.path.dirname(path), exist_ok=True)
      for i, n in enumerate(layout):
        with tf.io.TFRecordWriter(f'{path}-{i:05d}-of-{len(layout):05d}') as w:
          for j in range(n):
            w.write(record(i, j).tobytes())
      self.done[key] = f'{path}@{len(layout)}'
    return self.done[key]


def everything(layout, files=None):
  return [int(record(i, j)[0]) for i, n in enumerate(layout) for j in range(n)
          if files is None or i in files]


def prod(x):
  return int(np.prod(x)) if len(x) else 1


class Processes:
  """Pretends to be process k of n."""

  def __init__(self, k, n):
    self.k, self.n = k, n

  def __enter__(self):
    self.old = jax.process_index, jax.process_count
    jax.process_index = lambda *a, **k: self.k
    jax.process_count = lambda *a, **k: self.n

  def __exit__(self, *a):
    jax.process_index, jax.process_count = self.old


def pull(path, take=None, **kw):
  ds = du.tf_examples_dataset(path, TFR, preprocess, **kw)
  if take is not None:
    ds = ds.take(take)
  return list(ds.as_numpy_iterator())


def records(ck, tag, elems, batch_dims, by_scenario, exact):
  """Flattens the elements, checking their structure."""
  out = []
  tail = (OBJS,) if by_scenario else ()
  for n, e in enumerate(elems):
    ck.transitions += 1
    if not ck.check(set(e) == {'rec', 'obj'}, f'{tag}/fields', sorted(e)):
      return None
    rec, obj = np.asarray(e['rec']), np.asarray(e['obj'])
    want = tuple(batch_dims) + tail
    good = rec.shape == obj.shape and len(rec.shape) == len(want)
    if good and not exact and n == len(elems) - 1 and batch_dims:
      good = rec.shape[1:] == want[1:] and 1 <= rec.shape[0] <= want[0]
    elif good:
      good = rec.shape == want
    if not ck.check(good, f'{tag}/shape of element {n}',
                    {'got': rec.shape, 'want': want}):
      return None
    if by_scenario:
      ck.check(np.array_equal(obj, rec * 10 + np.arange(OBJS)) and
               (rec == rec[..., :1]).all(), f'{tag}/scenario kept together',
               {'rec': rec, 'obj': obj})
      out += [int(v) for v in rec[..., 0].ravel()]
    else:
      out += [(int(a), int(b)) for a, b in zip(rec.ravel(), obj.ravel())]
  return out


def expected(layout, files, by_scenario, repeat):
  base = everything(layout, files)
  if not by_scenario:
    base = [(r, 10 * r + o) for r in base for o in range(OBJS)]
  return collections.Counter(base * repeat)


LAYOUTS = ((3,), (1, 2), (2, 0, 3), (0,), (4, 1, 1, 2), (2, 2, 2, 2, 2))


def histories(ck):
  layouts = LAYOUTS
  shards = (1, 2, 4, 7) if not ck.thorough else tuple(range(1, 10)) + (16, 20)
  repeats = (1, 2) if not ck.thorough else (1, 2, 3)
  batches = (((), True), ((2,), True), ((2,), False), ((3,), True),
             ((3,), False), ((2, 2), True))
  for layout, ns, rep, (bd, drop) in itertools.product(
      layouts, shards, repeats, batches):
    for seed, buf in ((None, 100), (0, 100), (5, 2)):
      for by_scenario in (True, False):
        if not ck.thorough and (seed == 0 or ns == 7) and not by_scenario:
          continue
        if not ck.thorough and seed == 0 and (rep == 2 or ns == 2):
          continue
        yield layout, ns, rep, bd, drop, seed, buf, by_scenario


@core.sharded
def finite(ck):
  """Layout x shards x repeat x batching x shuffling x granularity."""
  with tempfile.TemporaryDirectory() as root:
    files = Files(root)
    for layout, ns, rep, bd, drop, seed, buf, by_scenario in histories(ck):
      if not ck.mine():
        continue
      tag = (f'finite/files={layout}/shards={ns}/repeat={rep}/batch={bd}/'
             f'drop={drop}/seed={seed},{buf}/scenario={by_scenario}')
      want = expected(layout, None, by_scenario, rep)
      kw = dict(num_shards=ns, repeat=rep, batch_dims=bd, drop_remainder=drop,
                shuffle_seed=seed, shuffle_buffer_size=buf,
                batch_by_scenario=by_scenario)
      elems = pull(files.path(layout), **kw)
      got = records(ck, tag, elems, bd, by_scenario, drop)
      if got is None:
        continue
      have = collections.Counter(got)
      extra, missing = have - want, want - have
      ck.check(not extra, f'{tag}/nothing but the records', extra)
      lost = sum(missing.values())
      allowed = sum(want.values()) % prod(bd) if drop else 0
      ck.check(lost == allowed, f'{tag}/every record',
               {'missing': missing, 'allowed to miss': allowed})
      ck.state(np.asarray([hash(str((layout, got))) & 0xffff] + [
          x if by_scenario else x[1] for x in got]))
      ck.part('finite', 1, bool(want))
      # The same again gives the same order.
      if ck.thorough or (ns + rep) % 3 == 0:
        again = records(ck, tag, pull(files.path(layout), **kw), bd,
                        by_scenario, drop)
        ck.check(again == got, f'{tag}/same order when run again',
                 {'first': got, 'again': again})
        ck.part('same order again', 1, len(got) > 1)
      if ck.thorough:
        loose = records(ck, tag, pull(files.path(layout), deterministic=False,
                                      **kw), bd, by_scenario, drop)
        if loose is not None:
          c = collections.Counter(loose)
          ck.check(not c - want and
                   sum((want - c).values()) == allowed,
                   f'{tag}/every record without determinism',
                   {'got': c, 'want': want})
  ck.sample({'layout': LAYOUTS[2], 'records': everything(LAYOUTS[2])})


@core.sharded
def endless(ck):
  """repeat=None: goes on for ever and keeps returning every record."""
  with tempfile.TemporaryDirectory() as root:
    files = Files(root)
    shards = (1, 2, 3, 4, 5, 8) if not ck.thorough else tuple(range(1, 21))
    for layout, ns, seed, bd in itertools.product(
        LAYOUTS, shards, (None, 3), ((), (2,), (2, 2))):
      if not any(layout) or not ck.mine():
        continue
      tag = f'endless/files={layout}/shards={ns}/seed={seed}/batch={bd}'
      base = everything(layout)
      n = prod(bd)
      # A buffer of b delays a record; small buffer, long look.
      rounds = 12 if seed is None else 40
      take = -(-rounds * len(base) * len(layout) // n)
      kw = dict(num_shards=ns, repeat=None, batch_dims=bd, shuffle_seed=seed,
                shuffle_buffer_size=2)
      elems = pull(files.path(layout), take, **kw)
      ck.check(len(elems) == take, f'{tag}/never ends',
               {'got': len(elems), 'asked': take})
      got = records(ck, tag, elems, bd, True, True)
      if got is None:
        continue
      ck.check(not set(got) - set(base), f'{tag}/nothing but the records',
               sorted(set(got) - set(base)))
      third = len(got) // 3
      for k in range(3):
        seen = set(got[k * third:(k + 1) * third])
        ck.check(seen == set(base), f'{tag}/every record in every stretch',
                 {'stretch': k, 'missing': sorted(set(base) - seen)})
      ck.state(np.asarray(got))
      ck.part('endless', 1, len(base) > 1)


@core.sharded
def processes(ck):
  """The processes of a distributed run split the files between them."""
  with tempfile.TemporaryDirectory() as root:
    files = Files(root)
    for layout, n, ns, seed, bd in itertools.product(
        LAYOUTS, (1, 2, 3, 6), (1, 2, 4) if ck.thorough else (1, 3),
        (None, 0, 1, 2) if ck.thorough else (None, 2),
        ((), (2,)) if ck.thorough else ((),)):
      if not ck.mine():
        continue
      tag = f'processes/files={layout}/n={n}/shards={ns}/seed={seed}/batch={bd}'
      parts = []
      for k in range(n):
        with Processes(k, n):
          elems = pull(files.path(layout), num_shards=ns, repeat=1,
                       batch_dims=bd, shuffle_seed=seed, drop_remainder=False)
        got = records(ck, f'{tag}/k={k}', elems, bd, True, False)
        if got is None:
          return
        parts.append(got)
        # Whole files go to one process.
        for i, m in enumerate(layout):
          mine = [r for r in got if r // 1000 == i + 1]
          ck.check(len(mine) in (0, m), f'{tag}/file {i} at process {k}', mine)
      have = collections.Counter(sum(parts, []))
      ck.check(have == collections.Counter(everything(layout)),
               f'{tag}/every record at exactly one process', have)
      counts = [len({r // 1000 for r in q}) for q in parts]
      if all(layout):
        ck.check(max(counts) - min(counts) <= 1, f'{tag}/even split', counts)
      ck.part('processes', 1, n > 1)


@core.sharded
def generator(ck):
  """get_data_generator: one result of postprocess_fn per element."""
  with tempfile.TemporaryDirectory() as root:
    files = Files(root)
    devices = jax.local_device_count()
    ck.check(devices == 2, 'generator/two devices', devices)
    for layout, ns, rep, bd, drop, distributed, post, by_scenario in (
        itertools.product(LAYOUTS[:3], (1, 4), (1, 2), ((), (2,)),
                          (True, False), (False, True), (False, True),
                          (True, False))):
      if distributed and not drop:
        continue  # The device axis is always whole.
      if not ck.mine():
        continue
      tag = (f'generator/files={layout}/shards={ns}/repeat={rep}/batch={bd}/'
             f'drop={drop}/distributed={distributed}/post={post}/'
             f'scenario={by_scenario}')
      cfg = wconfig.DatasetConfig(
          path=files.path(layout), data_format=TFR, num_shards=ns, repeat=rep,
          batch_dims=bd, drop_remainder=drop, distributed=distributed,
          batch_by_scenario=by_scenario, shuffle_seed=None)
      full = ((devices,) if distributed else ()) + bd

      def fn(ex):
        return {'rec': ex['rec'] + 0, 'obj': ex['obj'] + 0}
      elems = list(du.get_data_generator(cfg, preprocess, fn if post else None))
      got = records(ck, tag, elems, full, by_scenario, drop)
      if got is None:
        continue
      same = pull(files.path(layout), num_shards=ns, repeat=rep,
                  batch_dims=full, drop_remainder=drop,
                  batch_by_scenario=by_scenario)
      ref = records(ck, tag, same, full, by_scenario, drop)
      ck.check(got == ref, f'{tag}/the elements of the dataset',
               {'got': got, 'want': ref})
      if post:
        ck.check(all(isinstance(e['rec'], jax.Array) for e in elems),
                 f'{tag}/jax arrays')
      ck.part('generator', 1, len(got) > 0)


def filenames(ck):
  """Sharded paths name exactly the files path-XXXXX-of-YYYYY."""
  for base in ('a', '/tmp/x.tfrecord', 'gs://bucket/dir/training.tfrecord',
               'd-00001-of-00002/f', '/home/me@work/data', 'a@b/c'):
    for n in list(range(1, 130)) + [999, 1000, 1001, 9999, 10000]:
      got = list(du.generate_sharded_filenames(f'{base}@{n}'))
      want = [f'{base}-{str(i).zfill(5)}-of-{str(n).zfill(5)}' for i in range(n)]
      ck.check(got == want, f'filenames/{base}@{n}',
               {'got': got[:3], 'want': want[:3], 'number': len(got)})
      ck.state(np.asarray([hash(base) & 0xffff, n]))
      ck.transitions += len(got)
      ck.part('filenames')
  with tempfile.TemporaryDirectory() as root:
    files = Files(root)
    for name in ('data', 'me@work/data', 'x@3/data'):
      sharded = files.path((2, 1), name)
      single = sharded.rsplit('@', 1)[0] + '-00000-of-00002'
      for path, want in ((sharded, [1000, 1001, 2000]), (single, [1000, 1001])):
        got = records(ck, f'filenames/{name}', pull(path, repeat=1), (), True,
                      True)
        ck.check(sorted(got or []) == want, f'filenames/records of {name}',
                 {'got': got, 'want': want})
        ck.part('records of a path')
    # One file is read in its own order.
    got = records(ck, 'order', pull(files.path((7,)) , repeat=2), (), True, True)
    ck.check(got == everything((7,)) * 2, 'filenames/order within a file', got)
    try:
      du.tf_examples_dataset(files.path((7,)), 'nonsense', preprocess)
      ck.fail('filenames/unknown format accepted')
    except ValueError:
      pass
    ck.part('order and format', 2)
  ck.rule = ('every record layout x shards x repeat x batching x shuffling x '
             'granularity x process split: the multiset returned equals the '
             'multiset written')


PARTS = [finite, endless, processes, generator, filenames]
