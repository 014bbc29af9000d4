"""C19: the metric report contains exactly what was asked for."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from waymax import config as wconfig
from waymax import dynamics
from waymax import env as wenv
from waymax import metrics

from wmc import core
from wmc import refmetrics
from wmc import scenes

LEVEL = 'model_checking'
BUILTIN = ('log_divergence', 'overlap', 'offroad', 'kinematic_infeasibility',
           'sdc_wrongway', 'sdc_progression', 'sdc_off_route')
SDC_ONLY = BUILTIN[4:]


def scene(n=3, T=4, t=2, batch=()):
  v = ((np.arange(n)[:, None] + np.arange(T)) % 3) != 1
  log = scenes.log_traj(n, T, batch=batch)
  sim = scenes.np_traj(scenes.log_traj(n, T, v, batch=batch, variant=1))
  sim['x'] = sim['x'] - 2040.0
  sim['y'] = sim['y'] + 2050.0
  return scenes.state(log, scenes.metadata(n, batch=batch), scenes.traj(**sim), t,
                      sdc_paths=scenes.paths(2, 5, batch=batch))


@core.sharded
def subsets(ck):
  """Every subset, alone and through the environment."""
  ck.rule = 'every subset of the built-in metrics, and orders of selected ones'
  st = scene()
  alone = {m: metrics.run_metrics(st, wconfig.MetricsConfig(metrics_to_run=(m,)))[m]
           for m in BUILTIN}
  # each name is wired to the quantity it names
  sim, log = scenes.np_traj(st.sim_trajectory), scenes.np_traj(st.log_trajectory)
  t = int(st.timestep)
  pth = {k: np.asarray(getattr(st.sdc_paths, k)) for k in
         ('x', 'y', 'valid', 'on_route', 'arc_length')}
  rg = {k: np.asarray(getattr(st.roadgraph_points, k)) for k in
        ('x', 'y', 'z', 'dir_x', 'dir_y', 'types', 'ids', 'valid')}
  xy = np.array([sim['x'][0, t], sim['y'][0, t]], float)
  start, end = (np.array([log['x'][0, i], log['y'][0, i]], float) for i in (0, -1))
  want = {
      'log_divergence': refmetrics.log_divergence(sim, log, t),
      'overlap': refmetrics.overlap(sim, t),
      'offroad': refmetrics.offroad(sim, t, rg),
      'kinematic_infeasibility': refmetrics.kinematic_infeasibility(sim, t),
      'sdc_wrongway': refmetrics.wrongway(xy, pth),
      'sdc_progression': refmetrics.progression(xy, sim['valid'][0, t], start, end, pth),
      'sdc_off_route': refmetrics.off_route(xy, sim['valid'][0, t], pth)}
  for m in BUILTIN:
    ck.close(f'named/{m}', alone[m].value, want[m][0], atol=2e-2, rtol=1e-4)
    ck.close(f'named/{m}/valid', alone[m].valid, want[m][1])
    ck.check(np.shape(alone[m].value) == (() if m in SDC_ONLY else (3,)),
             f'named/{m}/shape')
  names = set(metrics.get_metric_names())
  ck.check(set(BUILTIN) <= names, 'registry', sorted(names))
  sets = [c for r in range(len(BUILTIN) + 1)
          for c in itertools.combinations(BUILTIN, r)]
  sets += [p for p in itertools.permutations(BUILTIN[:4], 3)]
  sets += [('overlap', 'overlap'), BUILTIN[::-1]]
  for s in sets:
    if not ck.mine():
      continue
    cfg = wconfig.MetricsConfig(metrics_to_run=s)
    outs = [metrics.run_metrics(st, cfg)]
    if len(s) in (1, 3, 7) or ck.thorough:
      env = wenv.BaseEnvironment(dynamics.DeltaGlobal(), wconfig.EnvironmentConfig(
          max_num_objects=3, init_steps=1, metrics=cfg))
      outs.append(env.metrics(st))
    for out in outs:
      ck.check(set(out) == set(s), 'subset/keys', {'asked': s, 'got': sorted(out)})
      for m in out:
        same = np.array_equal(out[m].value, alone[m].value) and np.array_equal(
            out[m].valid, alone[m].valid)
        ck.check(same, f'subset/{m}', {'asked': s})
        ck.check(out[m].value.dtype == jnp.float32 and out[m].valid.dtype == bool,
                 f'subset/{m}/type')
    ck.part('selections', len(outs))
    ck.transitions += len(outs)
    ck.validated += 1
    ck.state(repr(s).encode())
  ck.sample({'asked': sets[40], 'got': sorted(sets[40])})


class _Custom(metrics.AbstractMetric):
  def __init__(self, k):
    self.k = k

  def compute(self, simulator_state):
    n = simulator_state.num_objects
    return metrics.MetricResult.create_and_validate(
        jnp.arange(n, dtype=jnp.float32) * self.k, jnp.arange(n) % 2 == 0)


def registration(ck):
  """Histories of registrations: added once, found by name, never replaced."""
  st = scene()
  before = set(metrics.get_metric_names())
  for m in ('nope', '', 'Overlap', 'overlap '):
    try:
      metrics.run_metrics(st, wconfig.MetricsConfig(metrics_to_run=('overlap', m)))
      ck.fail(f'unknown-accepted/{m}')
    except ValueError:
      ck.part('unknown names refused', 1)
  for k in range(1, 5):
    name = f'verif_custom_{k}'
    metrics.register_metric(name, _Custom(float(k)))
    for again in range(1, k + 1):
      for victim in (f'verif_custom_{again}', 'overlap'):
        try:
          metrics.register_metric(victim, _Custom(-1.0))
          ck.fail(f'replaced/{victim}')
        except ValueError:
          ck.part('re-registrations refused', 1)
    ck.check(set(metrics.get_metric_names()) - before ==
             {f'verif_custom_{j}' for j in range(1, k + 1)}, 'names')
    cfg = wconfig.MetricsConfig(metrics_to_run=tuple(
        f'verif_custom_{j}' for j in range(k, 0, -1)) + ('overlap',))
    out = metrics.run_metrics(st, cfg)
    for j in range(1, k + 1):
      got = out[f'verif_custom_{j}']
      ck.close(f'custom/{j}', got.value, np.arange(3) * float(j))
      ck.close(f'custom/{j}/valid', got.valid, np.arange(3) % 2 == 0)
    ck.transitions += k + 1
    ck.validated += 1
    ck.state(repr(('reg', k)).encode())


def route_metrics_need_routes(ck):
  """A configuration asking for route metrics without routes is refused."""
  for s in itertools.chain.from_iterable(
      itertools.combinations(BUILTIN, r) for r in (0, 1, 2, 7)):
    for include in (False, True):
      env = wconfig.EnvironmentConfig(metrics=wconfig.MetricsConfig(metrics_to_run=s))
      data = wconfig.DatasetConfig(path='x', include_sdc_paths=include)
      bad = not include and any(m in SDC_ONLY for m in s)
      try:
        wconfig.WaymaxConfig(data_config=data, env_config=env)
        ck.check(not bad, 'config-accepted', {'metrics': s})
      except ValueError:
        ck.check(bad, 'config-refused', {'metrics': s, 'routes': include})
      ck.part('top-level configurations', 1)
      ck.transitions += 1


PARTS = [subsets, registration, route_metrics_need_routes]
