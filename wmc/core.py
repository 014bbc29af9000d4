"""Shared machinery: bookkeeping of an exhaustive exploration and its verdict.

A check is a function run(ck) that enumerates a stated bounded space of
behaviours of the real code in /repo and compares every one with a reference
model.  It records what it covered on `ck`, and reports disagreements with
ck.fail().  The process exit status and the evidence file are derived from it.
"""
import errno
import hashlib
import json
import os
import pickle
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np

REPO = os.environ.get('WMC_REPO', '/repo')  # development: a scratch copy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _jsonable(x):
  if isinstance(x, (str, int, float, bool)) or x is None:
    return x
  if isinstance(x, (np.bool_,)):
    return bool(x)
  if isinstance(x, np.integer):
    return int(x)
  if isinstance(x, np.floating):
    return float(x)
  if isinstance(x, dict):
    return {str(k): _jsonable(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [_jsonable(v) for v in x]
  if hasattr(x, 'shape') and hasattr(x, 'dtype'):
    a = np.asarray(x)
    if a.size > 400:
      return {'shape': list(a.shape), 'head': _jsonable(a.ravel()[:50].tolist())}
    return _jsonable(a.tolist())
  return repr(x)[:500]


class Checker:
  """Collects coverage and violations of one property."""

  MAX_FAILS = int(os.environ.get('WMC_FAILS', 8))

  def __init__(self, prop, level, tier, seed):
    self.prop = prop
    self.level = level
    self.tier = tier
    self.seed = seed
    self.t0 = time.time()
    self.states = 0
    self.transitions = 0
    self.validated = 0
    self.evaluations = 0
    self.nontrivial = 0
    self.samples = []
    self.parts = {}
    self.rule = ''
    self.assumptions = []
    self.fails = []  # (key, detail)
    self.nfails = 0
    self.known_seen = {}
    self.exhaustive = True
    self.outcomes = {}
    self._seen = set()
    self.worker = (0, 1)
    self.keys = {}
    self.turn = -1
    self.known = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
      for line in open(path):
        line = line.strip()
        if not line or line.startswith('#') or line.startswith('fixed:'):
          continue
        rec = json.loads(line)
        if rec.get('status', 'known') == 'known' and rec['property'] == prop:
          self.known.append(rec)

  @property
  def thorough(self):
    return self.tier == 'thorough'

  # --- coverage -------------------------------------------------------------
  def part(self, name, n=1, nontrivial=None):
    """n cases of the named part were executed and compared."""
    p = self.parts.setdefault(name, {'cases': 0})
    p['cases'] += int(n)
    self.evaluations += int(n)
    self.nontrivial += int(n if nontrivial is None else nontrivial)

  def state(self, key):
    """Registers a state by content. True when it had not been seen."""
    h = key if isinstance(key, bytes) else digest(key)
    if h in self._seen:
      return False
    self._seen.add(h)
    self.states += 1
    return True

  def sample(self, x, limit=4):
    if len(self.samples) < limit:
      self.samples.append(_jsonable(x))

  def outcome(self, name, value=1):
    self.outcomes[str(name)] = self.outcomes.get(str(name), 0) + int(value)

  def mine(self, key=None):
    """Whether this worker runs the next configuration of a sharded part.

    Configurations of equal key (e.g. what is compiled) go to one worker.
    """
    if key is None:
      self.turn += 1
      turn = self.turn
    else:
      turn = self.keys.setdefault(key, len(self.keys))
    return turn % self.worker[1] == self.worker[0]

  # --- verdict --------------------------------------------------------------
  def fail(self, key, detail=None):
    """The property is broken on the behaviour described by (key, detail).

    `key` names the specific input/call site/history; a known finding is
    matched on it.
    """
    for rec in self.known:
      if rec['key'] == key or (
          rec.get('prefix') and key.startswith(rec['key'])):
        self.known_seen[rec['key']] = rec
        return
    self.nfails += 1
    if os.environ.get('WMC_FAST'):  # development: stop at the first violation
      print(f'  violated at {key}: {json.dumps(_jsonable(detail))[:300]}', flush=True)
      os._exit(9)
    if len(self.fails) < self.MAX_FAILS:
      self.fails.append((key, _jsonable(detail)))

  def check(self, cond, key, detail=None):
    if not cond:
      self.fail(key, detail() if callable(detail) else detail)
    return bool(cond)

  def close(self, key, got, want, atol=1e-4, rtol=1e-5, mask=None, detail=None):
    """Compares arrays (shape, then values); reports the first mismatch."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
      self.fail(key, {'what': 'shape', 'got': list(got.shape),
                      'want': list(want.shape),
                      'ctx': detail() if callable(detail) else detail})
      return False
    if got.dtype == bool or want.dtype == bool or got.dtype.kind in 'iu':
      bad = got != want
    else:
      with np.errstate(invalid='ignore', over='ignore'):
        bad = ~(np.isclose(got.astype(np.float64), want.astype(np.float64),
                           atol=atol, rtol=rtol, equal_nan=True))
    if mask is not None:
      bad = bad & np.broadcast_to(np.asarray(mask), bad.shape)
    if bad.any():
      idx = tuple(int(i) for i in np.argwhere(bad)[0])
      self.fail(key, {'index': idx, 'got': got[idx], 'want': want[idx],
                      'num_bad': int(bad.sum()),
                      'ctx': detail() if callable(detail) else detail})
      return False
    return True

  # --- output ---------------------------------------------------------------
  def evidence(self):
    cov = {
        'parts': self.parts,
        'samples': self.samples or ['(none)'],
        'exhaustive': bool(self.exhaustive),
        'outcomes': self.outcomes,
        'known_findings_seen': sorted(self.known_seen),
    }
    if self.level == 'model_checking':
      cov.update(states=self.states, transitions=self.transitions,
                 traces_validated_against_impl=self.validated,
                 rule=self.rule)
    else:
      cov.update(evaluations=self.evaluations,
                 distinct_nontrivial=self.nontrivial, rule=self.rule)
    return {
        'property': self.prop, 'tier': self.tier, 'seed': self.seed,
        'level': self.level, 'coverage': cov,
        'assumptions': self.assumptions,
        'wall_s': round(time.time() - self.t0, 2),
        'violations': self.nfails,
    }

  def finish(self):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
      json.dump(_jsonable(self.evidence()), f, indent=1)
    for key, rec in sorted(self.known_seen.items()):
      print(f"KNOWN-FINDING: property={self.prop} {rec['what']}")
    if not self.nfails:
      print(f'{self.prop}: held on everything explored '
            f'({ {k: v["cases"] for k, v in self.parts.items()} }, '
            f'states={self.states}, transitions={self.transitions}, '
            f'{time.time() - self.t0:.1f}s)')
      return 0
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, self.prop + '.json')
    with open(path, 'w') as f:
      json.dump({'property': self.prop, 'violations': self.nfails,
                 'first': [{'key': k, 'detail': x} for k, x in self.fails],
                 'rerun': f'bash /verif/run.sh {self.prop} {self.tier}'},
                f, indent=1)
    for k, x in self.fails:
      print(f'  violated at {k}: {json.dumps(x)[:600]}')
    print(f'VIOLATION property={self.prop} replay={path}')
    return 1


def digest(tree):
  """Content hash of a pytree of arrays (structure included)."""
  import jax
  leaves, treedef = jax.tree_util.tree_flatten(tree)
  h = hashlib.blake2b(digest_size=16)
  for x in leaves:
    a = np.asarray(x)
    h.update(str((a.shape, a.dtype.str)).encode())
    h.update(np.ascontiguousarray(a).tobytes())
  h.update(str(len(leaves)).encode())
  return h.digest()


def sharded(fn):
  """Marks a part whose loop asks ck.mine() which configurations to run.

  Each worker process runs such a part on its share; a part without the mark
  is run whole by one worker.  Together the workers cover every configuration.
  """
  fn.sharded = True
  return fn


# Errors of the sandbox, not of the code under test.
SANDBOX = (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN,
           errno.EIO, errno.EROFS, errno.EDQUOT)
MERGED = ('states', 'transitions', 'validated', 'evaluations', 'nontrivial',
          'nfails')


def work(prop, tier, seed, k, w, out):
  """Runs worker k's share (of w) of the check and pickles what it found."""
  import importlib
  mod = importlib.import_module('checks.' + prop.lower())
  ck = Checker(prop, getattr(mod, 'LEVEL', 'model_checking'), tier, seed)
  ck.worker = (k, w)
  import waymax
  root = os.path.dirname(os.path.dirname(os.path.abspath(waymax.__file__)))
  if os.path.realpath(root) != REPO:
    print(f'waymax was not imported from {REPO} but from', root)
    sys.exit(3)
  plain = 0
  for part in mod.PARTS:
    ck.turn, ck.keys = -1, {}
    if not getattr(part, 'sharded', False):
      plain += 1
      if (w - plain) % w != k:
        continue
    t0 = time.time()
    try:
      part(ck)
    except MemoryError:
      traceback.print_exc()
      sys.exit(4)
    except Exception as e:  # pylint: disable=broad-except
      if isinstance(e, OSError) and e.errno in SANDBOX:
        traceback.print_exc()
        sys.exit(4)
      # On the unchanged tree no driver raises: the code under test either
      # raised itself or returned something of the wrong structure or shape.
      tb = traceback.format_exc()
      print(tb[-2500:])
      ck.fail(f'{part.__name__}/raised {type(e).__name__}',
              {'exception': str(e)[:800], 'traceback': tb[-3000:]})
    if os.environ.get('WMC_TIMES'):
      print(f'worker {k} {part.__name__}: {time.time() - t0:.1f}s', flush=True)
  d = {f: getattr(ck, f) for f in MERGED}
  d.update(parts=ck.parts, samples=ck.samples, rule=ck.rule, fails=ck.fails,
           assumptions=ck.assumptions, outcomes=ck.outcomes, level=ck.level,
           known_seen=ck.known_seen, exhaustive=ck.exhaustive, seen=ck._seen)
  with open(out, 'wb') as f:
    pickle.dump(d, f)


def main():
  prop, tier = sys.argv[1], sys.argv[2]
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  if len(sys.argv) > 3:
    return work(prop, tier, seed, int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
  w = int(os.environ.get('WMC_WORKERS', 0)) or min(8, os.cpu_count() or 1)
  ck = Checker(prop, 'model_checking', tier, seed)
  with tempfile.TemporaryDirectory() as tmp:
    procs = [subprocess.Popen(
        [sys.executable, '-W', 'ignore', '-m', 'wmc.core', prop, tier, str(k),
         str(w), os.path.join(tmp, str(k))]) for k in range(w)]
    if os.environ.get('WMC_FAST'):
      while any(q.poll() is None for q in procs):
        if any(q.poll() == 9 for q in procs):
          for q in procs:
            q.kill()
          sys.exit(1)
        time.sleep(0.2)
    codes = [q.wait() for q in procs]
    bad = [c for c in codes if c]
    if bad:
      print('a worker did not finish:', codes)
      sys.exit(bad[0] if bad[0] > 1 else 5)
    for k in range(w):
      with open(os.path.join(tmp, str(k)), 'rb') as f:
        d = pickle.load(f)
      for f in MERGED:
        if f != 'states':
          setattr(ck, f, getattr(ck, f) + d[f])
      ck._seen |= d['seen']
      for name, v in d['parts'].items():
        ck.parts.setdefault(name, {'cases': 0})['cases'] += v['cases']
      for name, v in d['outcomes'].items():
        ck.outcomes[name] = ck.outcomes.get(name, 0) + v
      ck.rule = ck.rule or d['rule']
      ck.level = d['level']
      ck.samples = (ck.samples + [x for x in d['samples'] if x not in ck.samples]
                    )[:4]
      ck.assumptions += [a for a in d['assumptions'] if a not in ck.assumptions]
      ck.fails = (ck.fails + d['fails'])[:ck.MAX_FAILS]
      ck.known_seen.update(d['known_seen'])
      ck.exhaustive &= d['exhaustive']
  ck.states = len(ck._seen)
  sys.exit(ck.finish())


if __name__ == '__main__':
  main()
