"""Properties C10, C15-C20: background agents, metrics, rewards."""
from props_a import p as _p
P = []


def p(id, *a, **k):
  import props_a
  _p(id, *a, **k)
  P.append(props_a.P.pop())


p('C10', 'Background agents move exactly the objects they claim',
  'In the single-agent environment, an object moves as the last configured '
  'background agent that claims it says; the ego, when no agent claims it, '
  'moves by the given action, and every other object replays the log. A claim '
  'has no effect on an object whose box at the first logged step overlaps that '
  'of another object, both being present there. Each agent is '
  'initialised and called with its own parameters, its own carried state and '
  'its own random key, in the configured order; with no agents all other '
  'objects replay the log. The dynamics model the environment exposes moves '
  'the ego alone when applied to a single action.',
  ['inputs', 'configurations', 'histories'],
  'every pair of claims by two agents over three objects, every pattern of '
  'initial overlaps, zero to three agents in every order, ego index, '
  'whole episodes, with and without a random key',
  'which agent wins depends on the combination of claims, overlaps and order; '
  'tests run one or two agents with one fixed claim',
  ['waymax/env/planning_agent_environment.py', 'waymax/agents/agent_factory.py',
   'waymax/dynamics/abstract_dynamics.py', 'waymax/dynamics/state_dynamics.py'],
  [('claims minus initial overlaps', 'PlanningAgentEnvironment.step, '
    'PlanningAgentEnvironment.reset, initial overlap mask'),
   ('ego-only dynamics', 'PlanningAgentDynamics.forward/inverse')],
  'exhaustive product of claims x overlaps x episodes on the real environment '
  'against a NumPy reference simulation',
  '64 claim pairs x 8 overlap patterns; 0-3 agents in every order; overlap '
  'statement limited to objects present at the first logged step')

p('C15', 'Displacement and collision metrics agree with plain geometry',
  'Log divergence is the horizontal distance between the simulated and the '
  'logged position of the current step, and an object is in collision exactly '
  'when its rotated box overlaps that of another object that is present. '
  'Collision is symmetric, and unaffected by moving or turning the whole '
  'scene. An object never collides with itself or with an absent one. '
  'Divergence is valid where both the simulated and logged step are, collision '
  'where the simulated step is; absent objects have collision value 0.',
  ['inputs', 'histories'],
  'every placement of two boxes on a grid of offsets, headings and sizes; every '
  'validity combination of up to four objects at every clock value; batches',
  'geometry errors show only at particular headings or nested boxes; tests '
  'sample a few rectangles',
  ['waymax/metrics/overlap.py', 'waymax/metrics/imitation.py',
   'waymax/utils/geometry.py'],
  [('separating axes', 'geometry.has_overlap / compute_pairwise_overlaps'),
   ('masking', 'OverlapMetric.compute, LogDivergenceMetric.compute')],
  'exhaustive enumeration of relative box placements and validity patterns on '
  'the real metrics, against a separating-axis oracle in float64',
  'placements within 1e-3 m of touching are not judged; grid of offsets, '
  'headings and sizes stated in the evidence')

p('C16', 'Off-road and wrong-way values follow the map geometry',
  'An object is off-road exactly when some corner of its box lies on the outer '
  'side of its nearest road edge, where nearness weighs height difference '
  'heavily so that edges of another deck do not count; the sign does not '
  'depend on where along the edge the nearest point is. Invalid map points '
  'and points of other types have no influence. Wrong-way is the distance from '
  'the ego to the nearest valid point of its routes when that is above the '
  'threshold, and 0 otherwise.',
  ['inputs', 'configurations'],
  'every position, heading, size and height on a grid around straight, curved, '
  'closed and stacked edge layouts; every validity pattern of small route sets',
  'wrong signs show only at corners, polyline ends or between two edges; tests '
  'use a single straight edge',
  ['waymax/metrics/roadgraph.py'],
  [('signed distance', 'compute_signed_distance_to_nearest_road_edge_point'),
   ('corner sweep', 'is_offroad'), ('routes', 'WrongWayMetric.compute')],
  'exhaustive grid of poses x map layouts on the real metrics against a NumPy '
  'reference and against hand-labelled inside/outside regions',
  'poses whose nearest edge point is ambiguous, or on the edge within 1e-3 m, '
  'are not judged')

p('C17', 'Progress and off-route follow the ego along its own route',
  'Progression is the arc length travelled along the nearest on-route path, '
  'as a fraction of the arc length between the start and end of the logged '
  'drive, and 0 when these coincide. Off-route is the distance from the ego to '
  'its nearest on-route path, when that exceeds the distance threshold or '
  'exceeds the distance to another valid path by more than the margin, and 0 '
  'otherwise. Both are invalid when the ego is; invalid path points have no '
  'influence; batched and unbatched states agree.',
  ['inputs', 'configurations'],
  'every ego position, log endpoint pair and on-route assignment on a grid of '
  'layouts of up to four paths; every validity pattern of path points; both '
  'thresholds approached from both sides',
  'selection of the path is an argmin over many cases; tests use one route',
  ['waymax/metrics/route.py'],
  [('progression', 'ProgressionMetric.compute'),
   ('off-route', 'OffRouteMetric.compute')],
  'exhaustive enumeration of positions, assignments and validity on the real '
  'metrics against a NumPy reference',
  'ties of nearest path or point excluded; the fallback described in a '
  'docstring but not implemented is not claimed')

p('C18', 'Kinematic infeasibility flags exactly the infeasible moves',
  'The kinematic infeasibility metric is 1 for an object exactly when the '
  'acceleration or steering curvature needed for the move from the previous to '
  'the current simulated step exceeds the limits, and valid exactly when both '
  'steps are present. Any move made by the bicycle model under actions within '
  'the default limits is feasible. The ego is treated like every other object.',
  ['inputs', 'histories'],
  'every pair of speeds, heading, turn and validity on a grid at every clock '
  'value; every action within limits from every pose of a grid',
  'a completeness claim over all transitions of a dynamics model; tests use '
  'two hand-written transitions',
  ['waymax/metrics/comfort.py', 'waymax/dynamics/bicycle_model.py'],
  [('limits on the inferred action',
    'KinematicsInfeasibilityMetric.compute / kinematically infeasible')],
  'exhaustive grid of transitions on the real metric against a NumPy '
  'reference; closure check over the dynamics model',
  'transitions within tolerance of a limit are not judged')

p('C19', 'The metric report contains exactly the requested metrics',
  'The report of an environment or a direct call has one entry for each '
  'requested metric and no other, each equal to what the metric gives alone, '
  'whatever else is requested and in whatever order. A registered custom '
  'metric is found under its name; registering a taken name or asking for an '
  'unknown one is refused and leaves the registry as it was. Asking for a '
  'route metric in a configuration without routes is refused.',
  ['configurations', 'histories'],
  'every subset of the built-in metrics, every order of small subsets, every '
  'history of registrations of two names up to a depth',
  'the number of configurations is exponential; tests ask for two or three '
  'fixed sets',
  ['waymax/metrics/metric_factory.py', 'waymax/env/base_environment.py',
   'waymax/config.py'],
  [('registry', 'register_metric / get_metric_names / run_metrics'),
   ('configuration', 'EnvironmentConfig.__post_init__')],
  'exhaustive enumeration of metric subsets and registration histories on the '
  'real registry',
  'all 128 subsets; all registration histories to the depth in the evidence')

p('C20', 'Reward is the weighted sum of metric values of controlled objects',
  'The reward of an object is the sum over configured metrics of weight times '
  'metric value, counting an invalid value as 0 and an ego-only metric for '
  'every object, multiplied by whether the object is controlled. It is float, '
  'has the shape its spec says (the single-agent environment gives the ego '
  'entry alone), does not depend on the action values, and is all 0 when '
  'rewards are off. Batched scenes give the rewards of each scene alone. '
  'Unknown metric names are refused on construction.',
  ['inputs', 'configurations'],
  'weighted subsets of the seven metrics, every mask of controlled objects, '
  'scenes in which metrics are invalid for some objects, batched and not, each '
  'control mode and both environments',
  'broadcast errors show only for particular mixes of per-object and ego-only '
  'metrics and batch sizes; tests use one mix',
  ['waymax/rewards/linear_combination_reward.py',
   'waymax/env/base_environment.py', 'waymax/env/planning_agent_environment.py'],
  [('weighted sum', 'LinearCombinationReward.compute'),
   ('mask', 'BaseEnvironment.reward, PlanningAgentEnvironment.reward')],
  'exhaustive product of metric subsets x object masks x scenes on the real '
  'rewards against separately computed metrics',
  'quick: subsets of at most 2 or at least 6 metrics; thorough: all 128; '
  '16 masks of 4 objects')
