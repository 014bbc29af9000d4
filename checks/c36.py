"""C36: set-ups that cannot work are refused, those that can are accepted."""
import itertools

import jax.numpy as jnp
import numpy as np
from waymax import agents
from waymax import config as wconfig
from waymax import datatypes
from waymax import dynamics
from waymax import env as wenv
from waymax import metrics
from waymax import rewards
from waymax.dataloader import dataloader_utils
from waymax.dataloader import womd_utils
from waymax.dynamics import discretizer
from waymax.metrics import abstract_metric

from wmc import scenes
from wmc import worlds

LEVEL = 'model_checking'
OT = wconfig.ObjectType
ROUTE = ('sdc_wrongway', 'sdc_off_route', 'sdc_progression')
PLAIN = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility')
REFUSAL = Exception


def subsets(names):
  return itertools.chain.from_iterable(
      itertools.combinations(names, k) for k in range(len(names) + 1))


def judge(ck, key, make, ok, errors=REFUSAL):
  """make() succeeds iff ok; returns what it made."""
  try:
    out = make()
  except errors as e:
    ck.check(not ok, f'{key}/refused', lambda: repr(e)[:200])
    ck.part('refused', 1)
    return None
  ck.check(ok, f'{key}/accepted')
  ck.part('accepted', 1)
  ck.state(key.encode())
  ck.transitions += 1
  ck.validated += 1
  return out


def configurations(ck):
  """Every history length x warm-up length; every metric set x route option."""
  for k, init in itertools.product(range(1, 14), repeat=2):
    c = judge(ck, f'config/history={k}/warm-up={init}',
              lambda: wconfig.EnvironmentConfig(
                  init_steps=init,
                  observation=wconfig.ObservationConfig(num_steps=k)),
              k <= init, ValueError)
    if c is not None:
      ck.check((c.init_steps, c.observation.num_steps) == (init, k),
               'config/history kept')
  for init in range(1, 14):
    judge(ck, f'config/no observation/warm-up={init}',
          lambda: wconfig.EnvironmentConfig(init_steps=init), True)
  for names in subsets(ROUTE + PLAIN):
    for order in (names, names[::-1]):
      for routes in (False, True):
        judge(ck, f'config/metrics={order}/routes={routes}',
              lambda: wconfig.WaymaxConfig(
                  wconfig.DatasetConfig(path='x', include_sdc_paths=routes),
                  wconfig.EnvironmentConfig(metrics=wconfig.MetricsConfig(
                      metrics_to_run=order))),
              routes or not set(order) & set(ROUTE), ValueError)


def without_routes(ck):
  """Route metrics of a scene without routes are refused, the others given."""
  scene = worlds.scene(0)
  for planning, names, has in itertools.product(
      (False, True), subsets(ROUTE + ('overlap', 'log_divergence')),
      (False, True)):
    cls = wenv.PlanningAgentEnvironment if planning else wenv.BaseEnvironment
    cfg = wconfig.EnvironmentConfig(
        max_num_objects=worlds.N, init_steps=2,
        metrics=wconfig.MetricsConfig(metrics_to_run=names),
        rewards=wconfig.LinearCombinationRewardConfig({n: 1.0 for n in names}))
    env = cls(dynamics.DeltaGlobal(), cfg)
    st = env.reset(scene if has else scene.replace(sdc_paths=None))
    ok = has or not set(names) & set(ROUTE)
    tag = f'routes={has}/planning={planning}/{names}'
    got = judge(ck, f'metrics/{tag}', lambda: env.metrics(st), ok)
    if got is not None:
      ck.check(set(got) == set(names), f'metrics/{tag}/names', sorted(got))
    n = worlds.N
    act = datatypes.Action(
        data=jnp.zeros(3 if planning else (n, 3)),
        valid=jnp.ones(1 if planning else (n, 1), bool))
    judge(ck, f'reward/{tag}', lambda: env.reward(st, act), ok)


class Constant(abstract_metric.AbstractMetric):

  def __init__(self, v):
    self.v = float(v)

  def compute(self, simulator_state):
    return abstract_metric.MetricResult.create_and_validate(
        jnp.full((), self.v), jnp.ones((), bool))


def registry(ck):
  """Every history of registrations and runs, against a dictionary."""
  st = worlds.scene(0).replace(timestep=jnp.asarray(2))
  builtin = set(PLAIN + ROUTE)
  ck.check(builtin <= set(metrics.get_metric_names()), 'registry/built-in',
           lambda: sorted(metrics.get_metric_names()))
  ops = [('add', 0), ('add', 1), ('add', 'overlap'), ('run', 0), ('run', 1),
         ('reward', 0)]
  depth = 4 if ck.thorough else 3
  for h, hist in enumerate(itertools.product(range(len(ops)), repeat=depth)):
    names = [f'wmc-{h}-{i}' for i in range(2)]
    have, val = {}, 0
    for pos, o in enumerate(hist):
      kind, i = ops[o]
      name = names[i] if isinstance(i, int) else i
      tag = f'registry/{[ops[x] for x in hist[:pos + 1]]}'
      if kind == 'add':
        val += 1
        m = Constant(val)
        judge(ck, tag, lambda: metrics.register_metric(name, m),
              name not in have and name not in builtin, ValueError)
        if name not in builtin:
          have.setdefault(name, val)
      elif kind == 'run':
        order = (name, 'log_divergence') if o % 2 else ('log_divergence', name)
        got = judge(ck, tag, lambda: metrics.run_metrics(
            st, wconfig.MetricsConfig(metrics_to_run=order)), name in have,
                    ValueError)
        if got is not None:
          ck.check(tuple(got) == order and name in have and
                   float(got[name].value) == have[name], f'{tag}/value',
                   lambda: {'got': {k: np.asarray(v.value) for k, v in got.items()}})
      else:
        rc = wconfig.LinearCombinationRewardConfig({name: -2.0})
        r = judge(ck, tag, lambda: rewards.LinearCombinationReward(rc),
                  name in have, ValueError)
        if r is not None and name in have:
          mask = jnp.asarray([True, False, True, False])
          got = r.compute(st, None, mask)
          ck.close(f'{tag}/value', got, np.where(mask, -2.0 * have[name], 0))
      now = set(metrics.get_metric_names())
      ck.check({n for n in names if n in now} == set(have) and builtin <= now,
               f'{tag}/names')


def controlled(ck):
  """Which objects an environment or an agent may control."""
  for kind in list(OT) + [None, 'SDC', 0]:
    known = isinstance(kind, OT)
    for n in (1, 3):
      cfg = wconfig.EnvironmentConfig(max_num_objects=n, init_steps=1,
                                      controlled_object=kind)
      judge(ck, f'planning/{kind}/{n}', lambda: wenv.PlanningAgentEnvironment(
          dynamics.DeltaGlobal(), cfg), kind == OT.SDC, ValueError)
      st = scenes.state(scenes.log_traj(n, 3), scenes.metadata(n))

      def go():
        env = wenv.BaseEnvironment(dynamics.DeltaGlobal(), cfg)
        return env.step(env.reset(st), datatypes.Action(
            data=jnp.zeros((n, 3)), valid=jnp.ones((n, 1), bool)))

      judge(ck, f'multi/{kind}/{n}', go, known)
    for agent in list(wconfig.SimAgentType) + [None, 'IDM']:
      ok = kind in (OT.SDC, OT.NON_SDC) and isinstance(
          agent, wconfig.SimAgentType)
      judge(ck, f'sim agent/{agent}/{kind}', lambda: agents.create_sim_agents_from_config(
          wconfig.SimAgentConfig(agent_type=agent, controlled_objects=kind)),
            ok, NotImplementedError)


def sizes(ck):
  """Environments accept the scenes they were configured for, only."""
  for m, n, planning in itertools.product(range(1, 6), range(1, 6), (False, True)):
    cls = wenv.PlanningAgentEnvironment if planning else wenv.BaseEnvironment
    env = cls(dynamics.DeltaLocal(), wconfig.EnvironmentConfig(
        max_num_objects=m, init_steps=2))
    for batch in ((), (2,)):
      st = scenes.state(scenes.log_traj(n, 4, batch=batch),
                        scenes.metadata(n, batch=batch))
      judge(ck, f'sizes/environment={m}/scene={n}/planning={planning}/{batch}',
            lambda: env.reset(st), m == n)


def discrete(ck):
  """A discretizer has one range and one bin count per element."""
  for a, b, c in itertools.product(range(1, 5), repeat=3):
    d = judge(ck, f'discretizer/min={a}/max={b}/bins={c}',
              lambda: discretizer.Discretizer(
                  min_value=jnp.full(a, -1.0), max_value=jnp.full(b, 3.0),
                  bins=jnp.full(c, 4)), a == b == c)
    if d is None:
      continue
    for w in range(1, 5):
      got = judge(ck, f'discretizer/{a}/{b}/{c}/values={w}',
                  lambda: d.discretize(jnp.zeros((2, w))), w == c)
      if got is not None:
        ck.check(got[0].shape[-1:] == (1,) or np.shape(got)[-1] == 1,
                 f'discretizer/{a}/{b}/{c}/shape', np.shape(got))
  for make, size in ((dynamics.DeltaGlobal, 3), (dynamics.DeltaLocal, 3),
                     (dynamics.InvertibleBicycleModel, 2)):
    for c in range(1, 6):
      for inv in (True, False):
        judge(ck, f'discrete/{make.__name__}/bins={c}/{inv}',
              lambda: dynamics.DiscreteActionSpaceWrapper(
                  make(), bins=jnp.full(c, 2), bin_inverse=inv), c == size)


def data(ck):
  """Dataset options."""
  for routes, a, b in itertools.product((False, True), (None, 1, 2), (None, 1, 3)):
    judge(ck, f'data/routes={routes}/paths={a}/points={b}',
          lambda: womd_utils.get_features_description(
              max_num_objects=2, max_num_rg_points=3, include_sdc_paths=routes,
              num_paths=a, num_points_per_path=b),
          not routes or (a is not None and b is not None), ValueError)
  for fmt in list(wconfig.DataFormat) + [None, 'tfrecord', 'PROTO', 0]:
    judge(ck, f'data/format={fmt!r}', lambda: dataloader_utils.tf_examples_dataset(
        path='/nonexistent/a', data_format=fmt, preprocess_fn=lambda x: x),
          isinstance(fmt, wconfig.DataFormat), ValueError)
  ck.rule = ('every combination of options in the bound is tried on the real '
             'code and accepted or refused as the documented rule says')
  ck.sample({'history': 13, 'warm-up': 12, 'refused': 'ValueError'})


def observations(ck):
  """Nearest road points asked for, against those there are; frames."""
  for k, have in itertools.product(range(1, 6), repeat=2):
    st = scenes.state(scenes.log_traj(2, 3), scenes.metadata(2), rg=have)
    for fr in wconfig.CoordinateFrame:
      for fn in (datatypes.observation_from_state,
                 datatypes.sdc_observation_from_state):
        judge(ck, f'observation/{fn.__name__}/{fr.name}/top={k}/of={have}',
              lambda: fn(st, 1, k, fr), k <= have)
  st = scenes.state(scenes.log_traj(2, 3), scenes.metadata(2), rg=4)
  for fr in (None, 'SDC', 'global', 1):
    for fn in (datatypes.observation_from_state,
               datatypes.sdc_observation_from_state):
      judge(ck, f'observation/{fn.__name__}/frame={fr!r}',
            lambda: fn(st, 1, 2, fr), False)


PARTS = [configurations, without_routes, registry, controlled, sizes, discrete,
         data, observations]
