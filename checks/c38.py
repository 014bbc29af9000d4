"""C38: simulations can be branched, interleaved, saved and resumed at will.

Every window of operations up to the depth, on several simulations that share
one environment, its agents, metrics and rewards: each operation gives what it
gives on objects of its own that have done nothing else.
"""
import copy
import os
import pickle
import tempfile

os.environ.setdefault('AUTOGRAPH_VERBOSITY', '0')

# pylint: disable=g-import-not-at-top
import jax
import jax.numpy as jnp
import numpy as np
import tensorflow as tf
from waymax import agents
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv
from waymax.dataloader import dataloader_utils as du
from waymax.env.wrappers import brax_wrapper
from waymax.env.wrappers import dm_env_wrapper

from wmc import core
from wmc import worlds

tf.get_logger().setLevel('ERROR')
LEVEL = 'model_checking'
NAMES = tuple(n.replace('P/DeltaLocal/1', 'P/DeltaLocal/3') for n in worlds.NAMES)
STEPS = worlds.T - worlds.INIT  # to the end of the log


def windows(k, n):
  """A sequence over range(k) that has every window of length n (de Bruijn)."""
  a, out = [0] * k * n, []

  def db(t, p):
    if t > n:
      if n % p == 0:
        out.extend(a[1:p + 1])
      return
    a[t] = a[t - p]
    db(t + 1, p)
    for j in range(a[t - p] + 1, k):
      a[t] = j
      db(t + 1, t)

  db(1, 1)
  return out + out[:n - 1]


def saved(state, way):
  """The state after it has been stored and read back."""
  if way == 0:
    return pickle.loads(pickle.dumps(state))
  if way == 1:
    return copy.deepcopy(state)
  leaves, tree = jax.tree_util.tree_flatten(state)
  with tempfile.TemporaryFile() as f:
    np.savez(f, *leaves)
    f.seek(0)
    z = np.load(f)
    leaves = [jnp.asarray(z[f'arr_{i}']) for i in range(len(leaves))]
  return jax.tree_util.tree_unflatten(tree, leaves)


class Sim:
  """Environment, agents, metrics and rewards in use by several simulations."""

  def __init__(self, name):
    self.w = worlds.World(name, frames=('OBJECT',))
    self.acts = [self.w.action([(l + i) % 2 for i in range(worlds.N)])
                 for l in range(2)]

  def reset(self, s):
    return self.w.env.reset(s)

  def action(self, s, l):
    batch = s.batch_dims
    return jax.tree_util.tree_map(
        lambda x: jnp.broadcast_to(x, batch + x.shape), self.acts[l])

  def step(self, s, l):
    return self.w.env.step(s, self.action(s, l))

  def look(self, s, part):
    """One of two halves of what is visible."""
    w = self.w
    if part:
      return dict(metrics=w.env.metrics(s), reward=w.env.reward(s, self.action(s, 0)))
    return dict(obs=datatypes.observation_from_state(s, 2, worlds.TOPK),
                agents=[w.consult(a, s) for a in w.others], done=s.is_done)


class Brax(Sim):
  """The same through the Brax interface."""

  def __init__(self, name):
    super().__init__(name)
    self.b = brax_wrapper.BraxWrapper(self.w.env, self.w.env.dynamics, self.w.env.config)

  def reset(self, s):
    return self.b.reset(s if isinstance(s, datatypes.SimulatorState) else s.state)

  def step(self, s, l):
    return self.b.step(s, self.action(s.state, l))

  def look(self, s, part):
    del part
    return dict(obs=s.observation, reward=s.reward, discount=s.discount,
                done=s.done, metrics=s.metrics)


SCENES = {'A': 0, 'B': 1, 'C': 2}


def start(scene):
  s = worlds.scene(scene)
  if scene == 2:  # a batch of two
    s = worlds.stack([s, worlds.scene(3)])
    s = s.replace(timestep=jnp.asarray(-1, jnp.int32))
  return s


class Alone:
  """What a path gives on objects of its own, used for nothing else."""

  def __init__(self, make):
    self.make, self.known, self.looks = make, {}, {}
    self.see = jax.jit(make().look, static_argnums=1)

  def state(self, path):
    if path not in self.known:
      sim = self.make()
      s = sim.reset(start(path[0]))
      for l in path[1]:
        s = sim.step(s, l)
      self.known[path] = (s, core.digest(s))
    return self.known[path]

  def look(self, path, part):
    if (path, part) not in self.looks:
      s, _ = self.state(path)
      out = self.see(s, part)
      self.looks[path, part] = (out, core.digest(out))
    return self.looks[path, part]


OPS = ('reset A', 'reset B', 'reset C', 'step A 0', 'step A 1', 'step B 0',
       'step C 0', 'branch', 'save', 'look')


def matches(ck, key, got, want, detail):
  val, dig = want
  if core.digest(got) == dig:
    ck.check(True, key)
    return
  worlds.agree(ck, key, got, val, atol=1e-4, detail=detail)


def drive(ck, tag, make, depth):
  """One long history that has every window of the operations."""
  sim, alone = make(), Alone(make)
  path = {x: (v, ()) for x, v in SCENES.items()}
  real = {x: sim.reset(start(v)) for x, v in SCENES.items()}
  last, ways, looks = 'A', 0, 0
  history = []
  for op in windows(len(OPS), depth):
    name = OPS[op]
    words = name.split()
    touched = last
    if words[0] == 'step' and len(path[words[1]][1]) >= STEPS:
      words[0] = 'reset'  # the log is over
    if words[0] == 'reset':
      touched = words[1]
      real[touched] = sim.reset(real[touched])
      path[touched] = (path[touched][0], ())
    elif words[0] == 'step':
      touched, l = words[1], int(words[2])
      real[touched] = sim.step(real[touched], l)
      path[touched] = (path[touched][0], path[touched][1] + (l,))
    elif name == 'branch':
      # B goes on from where A is; the two share the state.
      real['B'], path['B'] = real['A'], path['A']
      touched = 'B'
    elif name == 'save':
      real[touched] = saved(real[touched], ways % 3)
      ways += 1
    history = (history + [name])[-depth - 2:]
    key = f'{tag}/{" ".join(map(str, path[touched][1]))}/{">".join(history[-depth:])}'
    detail = dict(operations=history, simulation=touched, path=path[touched])
    if name == 'look':
      matches(ck, f'{key}/seen', sim.look(real[touched], looks % 2),
              alone.look(path[touched], looks % 2), detail)
      looks += 1
    for x in SCENES:  # the others are not affected
      matches(ck, f'{key}/{"it" if x == touched else "other"}', real[x],
              alone.state(path[x]), detail)
    last = touched
    ck.transitions += 1
    ck.state(repr((tag, sorted(path.items()))).encode())
  ck.part(f'operations on shared objects', len(windows(len(OPS), depth)))
  ck.validated += len(alone.known)


@core.sharded
def shared(ck):
  ck.rule = ('every window of reset, step, look, branch and save operations up '
             'to the depth over three simulations (one of them a batch), of two '
             'dm_env environments, of rollouts and of two data streams that '
             'share their objects, compared with unshared objects')
  plans = [(f'{name}', lambda name=name: Sim(name)) for name in NAMES]
  plans += [('brax', lambda: Brax('P/DeltaLocal/3')),
            ('brax/multi', lambda: Brax('M/Bicycle/MODELED'))]
  plans.sort(key=lambda p: ('P/' not in p[0], p[0]))  # slow ones first
  for tag, make in plans:
    if ck.mine():
      planning = 'P/' in tag or 'brax' in tag  # slow
      drive(ck, f'shared/{tag}', make,
            (2 if planning else 3) + int(ck.thorough))


class Cycle:
  """Endless scenes, in turn."""

  def __init__(self, first):
    self.i = first

  def __iter__(self):
    return self

  def __next__(self):
    self.i += 1
    return worlds.scene(self.i % 3)


def dm_do(env, op, acts):
  """An operation and what it shows."""
  try:
    ts = env.reset() if op == 0 else env.step(acts[op - 1])
    return dict(kind=int(ts.step_type), reward=ts.reward, discount=ts.discount,
                obs=ts.observation, state=env.simulation_state)
  except Exception as e:  # pylint: disable=broad-except
    return dict(raised=type(e).__name__)


@core.sharded
def interfaces(ck):
  """Two dm_env environments around one environment object."""
  depth = 4 if ck.thorough else 3
  for name in ('P/DeltaLocal/3', 'P/Bicycle/2', 'M/DeltaGlobal/VALID'):
    if not ck.mine():
      continue
    w = worlds.World(name)
    acts = [np.asarray(w.action([l] * worlds.N).data) for l in range(2)]
    two = [dm_env_wrapper.DMEnvWrapper(Cycle(i), w.env) for i in range(2)]
    ops = windows(6, depth)
    got = [dm_do(two[op // 3], op % 3, acts) for op in ops]
    for i in range(2):
      env = dm_env_wrapper.DMEnvWrapper(Cycle(i), worlds.World(name).env)
      for at, op in enumerate(ops):
        if op // 3 != i:
          continue
        want = dm_do(env, op % 3, acts)
        key = f'dm_env/{name}/operation {at}'
        if core.digest(got[at]) != core.digest(want):
          worlds.agree(ck, key, got[at], want, atol=1e-4,
                       detail=dict(operations=ops[max(0, at - 4):at + 1]))
        else:
          ck.check(True, key)
        ck.transitions += 1
    ck.part('dm_env operations', len(ops))
    ck.validated += len(ops)


@core.sharded
def rollouts(ck):
  """Rollouts with shared environments and actors, in every order."""
  def objects(kind):
    w = worlds.World('P/DeltaLocal/1' if kind == 'P' else 'M/State/NON_SDC')
    if kind == 'P':
      actor = agents.create_expert_actor(dynamics.DeltaLocal())
      ego = agents.actor_core_factory(
          init=lambda rng, s: None, name='ego',
          select_action=lambda p, s, a, rng: agents.WaymaxActorOutput(
              action=datatypes.select_by_onehot(
                  actor.select_action(p, s, a, rng).action,
                  s.object_metadata.is_sdc, keepdims=False),
              actor_state=None, is_controlled=jnp.ones((), bool)))
      return w.env, ego
    return w.env, agents.IDMRoutePolicy(lambda s: ~s.object_metadata.is_sdc)

  def run(env, actor, case):
    v, steps = case
    return wenv.rollout(worlds.scene(v), actor, env, jax.random.PRNGKey(v), steps)

  cases = [(0, 2), (1, 2), (1, 3)]
  for kind in 'PM':
    if not ck.mine():
      continue
    want = {c: core.digest(run(*objects(kind), c)) for c in cases}
    vals = {}
    env, actor = objects(kind)
    for at, i in enumerate(windows(len(cases), 2)):
      got = run(env, actor, cases[i])
      key = f'rollout/{kind}/{cases[i]}/call {at}'
      if core.digest(got) != want[cases[i]]:
        if cases[i] not in vals:
          vals[cases[i]] = run(*objects(kind), cases[i])
        worlds.agree(ck, key, got, vals[cases[i]], atol=1e-4)
      else:
        ck.check(True, key)
      ck.part('rollouts', 1)
    ck.validated += len(cases)


def parse(serialized):
  v = tf.io.decode_raw(serialized, tf.int32)[0]
  return {'rec': tf.fill([2], v)}


@core.sharded
def streams(ck):
  """Two streams of scenes from one configuration do not disturb each other."""
  depth = 4 if ck.thorough else 3
  with tempfile.TemporaryDirectory() as root:
    for i in range(2):
      with tf.io.TFRecordWriter(f'{root}/d-{i:05d}-of-00002') as f:
        for j in range(7):
          f.write(np.asarray([10 * i + j], np.int32).tobytes())
    for seed, batch, repeat in ((None, (), None), (3, (), 1), (5, (2,), None)):
      if not ck.mine():
        continue
      cfg = wconfig.DatasetConfig(
          path=f'{root}/d@2', data_format=wconfig.DataFormat.TFRECORD,
          repeat=repeat, batch_dims=batch, shuffle_seed=seed,
          shuffle_buffer_size=4, num_shards=1)
      new = lambda: iter(du.get_data_generator(cfg, parse, None))
      take = lambda g: np.asarray(next(g)['rec'])[..., 0].tolist()
      alone = new()
      want = [take(alone) for _ in range(14 if repeat else 40)]
      gens, at = [new(), new()], [0, 0]
      for op in windows(4, depth):
        i = op % 2
        if op >= 2 or at[i] == len(want):
          gens[i], at[i] = new(), 0
        else:
          got = take(gens[i])
          ck.check(got == want[at[i]],
                   f'streams/seed={seed}/batch={batch}/{i}/element {at[i]}',
                   dict(got=got, want=want[at[i]]))
          at[i] += 1
        ck.transitions += 1
        ck.part('operations on streams', 1)
      # Both read right through, one after the other and in turn.
      for order in ('in turn', 'one after the other'):
        gens = [new(), new()]
        turns = [0, 1] * 14 if order == 'in turn' else [0] * 14 + [1] * 14
        at = [0, 0]
        for i in turns:
          got = take(gens[i])
          ck.check(got == want[at[i]], f'streams/seed={seed}/{order}/{at[i]}',
                   dict(got=got, want=want[at[i]]))
          at[i] += 1
      ck.validated += 1


PARTS = [shared, interfaces, rollouts, streams]
