"""Properties C11-C14, C21-C23: planning reports, actors, observations."""
P = []


def p(id, *a, **k):
  import props_a
  props_a.p(id, *a, **k)
  P.append(props_a.P.pop())


p('C11', 'The single-agent environment reports about the ego, as its specs say',
  'Observation, reward and metrics of the single-agent environment are those '
  'of the ego alone: each metric equals its per-object value at the ego '
  '(ego-only metrics as they are), and the reward is a number per scene. '
  'Kinematic infeasibility, asked for, is 0 and not valid at the first '
  'simulated step. Action, reward and discount specs have the shape, type and '
  'bounds of what the environments take and give, for every dynamics model. '
  'Inconsistent set-ups are refused: actors and parameters of different '
  'numbers, a controlled-object setting other than the ego, a scene with '
  'another number of objects than configured, or missing actor states.',
  ['inputs', 'configurations', 'histories'],
  'every ego index, warm-up length, clock value of an episode, set of metrics '
  'and dynamics model, batched and not',
  'the ego selection depends on where the ego is and on the batch; tests put '
  'the ego at one index',
  ['waymax/env/planning_agent_environment.py', 'waymax/env/base_environment.py'],
  [('ego selection', 'PlanningAgentEnvironment.metrics/reward/observe'),
   ('specs', 'action_spec / reward_spec / discount_spec')],
  'exhaustive product of ego index x clock x metrics x dynamics on the real '
  'environments against per-object references',
  'episodes of 6 steps, 4 objects')

p('C12', 'Replaying the expert reproduces the log',
  'Driving any object with the expert action of any dynamics model reproduces '
  'its log, step after step, for every model that can express the logged '
  'moves, in both environments and through rollout; with missing logged steps '
  'it does so up to the first gap. The expert action of an object is valid '
  'exactly when it is present in the simulation now and in the log at the next '
  'step (pose model: the next step only). From a pose off the log the expert '
  'heads for the logged next pose. Actions are for the objects the actor '
  'controls.',
  ['inputs', 'histories'],
  'whole episodes x dynamics models x environments x ego index; every pattern '
  'of missing steps; a grid of displaced poses',
  'an inverse that is slightly off accumulates over an episode; tests compare '
  'one or two steps',
  ['waymax/agents/expert.py', 'waymax/env/rollout.py',
   'waymax/dynamics/bicycle_model.py', 'waymax/dynamics/delta.py'],
  [('log inversion', 'expert.infer_expert_action / DynamicsModel.inverse'),
   ('expert rollout', 'rollout_log_by_expert_sdc')],
  'exhaustive exploration of episodes, validity patterns and displacements on '
  'the real code against the log',
  'displacement models are judged on pose; tolerances stated in the check')

p('C13', 'Combining actors: the last actor that claims an object moves it',
  'Merging the outputs of several actors gives each object the action of the '
  'last listed actor whose claim covers it, with that actor\'s validity. '
  'Stock actors claim the objects they are told to: by default the expert '
  'claims the ego, background agents all others. The constant-speed actor '
  'moves the objects it claims straight on at the wanted speed (their current '
  'velocity if none is given), its action being valid for those present. The '
  'frozen agent keeps objects in place. An actor built from functions passes '
  'parameters, state, carried state and key through unchanged.',
  ['inputs', 'configurations'],
  'every assignment of claims to one to four actors over the objects, every '
  'heading, speed and validity of a grid, every ego index',
  'which actor wins depends on the combination of claims; tests merge two '
  'actors once',
  ['waymax/agents/actor_core.py', 'waymax/agents/constant_speed.py',
   'waymax/agents/expert.py', 'waymax/agents/agent_factory.py'],
  [('merge', 'actor_core.merge_actions'),
   ('constant speed', 'create_constant_speed_actor'),
   ('factory', 'actor_core.actor_core_factory')],
  'exhaustive enumeration of claims and states on the real actors against a '
  'NumPy reference', 'one to four actors, four objects')

p('C14', 'Background traffic follows its logged path at the IDM speed',
  'A waypoint-following agent places each object on its logged path, ahead by '
  'the distance it drives in the step at the wanted speed, with the heading and '
  'velocity of the path there; an object not in the simulation or without '
  'a logged path gives an invalid action. The IDM agent chooses that speed by '
  'the intelligent driver model from the object\'s speed and the gap and speed '
  'of the object ahead on its path, never negative. A queue of IDM '
  'objects behind a stopping leader whose paths cover the way does not run into '
  'it.',
  ['inputs', 'histories'],
  'every gap, speed, lead speed, heading and presence on a grid; every pose '
  'around straight, bending and parking logs; queues over whole episodes',
  'collision freedom is about every start and every schedule of the leader; '
  'tests check one action',
  ['waymax/agents/waypoint_following_agent.py', 'waymax/agents/sim_agent.py'],
  [('speed', 'IDMRoutePolicy.update_speed / _get_accel'),
   ('waypoints', 'WaypointFollowingPolicy.select_action')],
  'exhaustive grid of traffic placements and closed-loop queues on the real '
  'agents against a NumPy reference model',
  'placements within tolerance of a decision boundary are not judged')

p('C21', 'Multi-agent observations: own frame, own history, own flag',
  'The observation of every object shows every object, traffic light and road '
  'point of the state in the wanted frame: the world, the observer, or the ego. '
  'The last step is the current one and earlier ones are the steps '
  'before, steps before the start being invalid. The ego flag marks the '
  'observer. Positions and velocities are rotated, headings turned, and '
  'sizes, ids and validity are unchanged; what is seen by an absent observer '
  'is invalid. No later step is visible. Going through an intermediate frame '
  'ends in the same view; batches give the view of each state.',
  ['inputs', 'histories', 'configurations'],
  'every clock value x history length x frame x observer x scene; every pair '
  'of frames',
  'errors show only at particular clocks, e.g. early steps with a long '
  'history; tests use one clock value',
  ['waymax/datatypes/observation.py', 'waymax/datatypes/operations.py'],
  [('history', 'global_observation_from_state'),
   ('frames', 'transform_observation / ObjectPose2D / combine_two_object_pose_2d')],
  'exhaustive product of clock x history x frame x observer on the real code '
  'against a NumPy reference', '3-6 steps, 4 objects, three scenes')

p('C22', 'Keeping the nearest road points keeps exactly the nearest',
  'Filtering a road graph to k points keeps, for each reference point, the k '
  'nearest valid points, each once with all its own fields unchanged, and '
  'invalid fill if there are fewer; the order of input points does not '
  'matter. Every reference point of a batch has its own selection; asking for '
  'at least as many points as there are keeps them all. Road edges are '
  'boundaries and medians and nothing else.',
  ['inputs', 'configurations'],
  'every validity pattern of the points x every k x every reference point; '
  'every batch shape; ties; every road type',
  'an index mix-up shows only at particular validity patterns or batch ranks; '
  'tests use one',
  ['waymax/datatypes/roadgraph.py'],
  [('top k', 'filter_topk_roadgraph_points'), ('edges', 'is_road_edge')],
  'exhaustive enumeration of validity patterns x k x references on the real '
  'code against a sorted reference',
  'up to 6 points; points at the same distance are judged as a set')

p('C23', 'The ego observation is the ego entry of the multi-agent one',
  'The single-agent observation equals the entry of the multi-agent '
  'observation for the ego, whatever the ego index, with the ego\'s routes '
  'added and expressed in the same frame. Taking one observer out of a '
  'multi-agent observation gives that observer\'s part, for any batch. The '
  'frame-free observation is the world view, repeated for each observer.',
  ['inputs', 'configurations', 'histories'],
  'every ego index x clock x history length x frame x batch, with and without '
  'routes; every observer',
  'the ego index and the batch rank interact; tests use one of each',
  ['waymax/datatypes/observation.py', 'waymax/datatypes/route.py'],
  [('ego view', 'sdc_observation_from_state'), ('one observer', 'for_obj')],
  'exhaustive product of ego index x clock x history x frame x batch on the '
  'real code against the multi-agent view and NumPy',
  'quick: half of the combinations; thorough: all')
