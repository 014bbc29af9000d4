"""C30, C33-C35: whole-simulator properties and pictures."""
P = []


def p(id, *a, **k):
  import props_a
  props_a.p(id, *a, **k)
  P.append(props_a.P.pop())


ALL = [
       'waymax/env/base_environment.py',
       'waymax/env/planning_agent_environment.py', 'waymax/env/rollout.py',
       'waymax/dynamics/abstract_dynamics.py', 'waymax/datatypes/observation.py',
       'waymax/datatypes/operations.py', 'waymax/metrics/overlap.py',
       'waymax/metrics/roadgraph.py', 'waymax/metrics/route.py',
       'waymax/metrics/comfort.py', 'waymax/agents/waypoint_following_agent.py',
       'waymax/rewards/linear_combination_reward.py']

p('C30', 'A simulation does not depend on how, or beside what, it is executed',
  'An episode (its states, termination and truncation flags, metrics, rewards, '
  'observations and expert actions) is the same whether it is run step by step '
  'or in one compiled loop, compiled or not, once or again on the same '
  'environment object, alone or in a batch of any shape built by vmap or by '
  'leading dimensions. In a batch every scene is unaffected by the contents of '
  'the other scenes - even if those hold NaN, infinities, huge coordinates or '
  'nothing valid - and by the clocks they have reached.',
  ['histories', 'inputs'],
  'every action sequence in the bound x every start clock x every scene x every '
  'execution mode x every neighbour and position in the batch',
  'tests run one scene one way; leakage between scenes, hidden state in an '
  'environment object or shape-dependent code shows only when the same history '
  'is replayed in every mode beside every neighbour',
  ALL,
  [('step, metrics, reward', 'BaseEnvironment / PlanningAgentEnvironment'),
   ('observation', 'datatypes.observation_from_state / sdc_observation_from_state'),
   ('expert', 'agents.create_expert_actor and DynamicsModel.inverse')],
  'exhaustive exploration of episodes (scene x start x action word) of 7 '
  'environment worlds on the real code, each replayed in every execution mode '
  'and beside every neighbour and compared with the plain run',
  'floats compared to 1e-4 relative, since compiled and batched arithmetic may '
  'differ in the last bits')

p('C33', 'Pictures show the scene they were asked to show',
  'A picture of a state, an observation or a Brax time step shows one box for '
  'each object present at the asked step, at its pose and size, in the colour of '
  'its role (the controlled kind, context, or overlapping another present '
  'object), earlier steps as history dots and later ones as small boxes, and '
  'nothing for absent ones; the valid road points of drawable kinds and the valid '
  'lights of that step in the colour of their state; labels with the object '
  'indices when asked; for a Brax step also the valid route points and valid '
  'metrics. The visible window is centred on the chosen agent with the configured '
  'extents. It is drawn from the trajectory asked for (log or simulation) and '
  'from the chosen batch element; shapes that do not fit are refused.',
  ['inputs'],
  'every validity pattern of the objects, step, trajectory source, role, overlap '
  'structure, light state, road kind, centre agent and batch element in the bound',
  'tests check only that an image comes out; a wrong step, colour, agent or '
  'trajectory is invisible to them and depends on the combination of settings',
  ['waymax/visualization/viz.py', 'waymax/visualization/utils.py',
   'waymax/visualization/color.py'],
  [('state', 'viz.plot_simulator_state'), ('observation', 'viz.plot_observation'),
   ('brax', 'viz.plot_single_agent_brax_timestep'),
   ('boxes', 'viz.plot_trajectory / utils.plot_numpy_bounding_boxes')],
  'exhaustive enumeration of small scenes and settings; what the real code draws '
  'is read back as geometry from the figure and compared with a NumPy oracle',
  'the geometry handed to matplotlib is judged exactly, pixels only on samples of '
  'the scenes; overlap within 2e-2 m of contact is not judged')

p('C34', 'The order and number of unused entries in a scene are immaterial',
  'Listing the objects, traffic lights, routes or road lines of a scene in '
  'another order, with actions in the same order, changes nothing but that order '
  'in the states, metrics, rewards, observations and expert actions of an '
  'episode. Adding entries that are marked invalid (absent objects, lights, '
  'routes or road points, anywhere in the list and with any finite content) changes '
  'nothing for the valid ones.',
  ['histories', 'inputs'],
  'every permutation of the entries and every padding (kind, place, content) x '
  'every action word and start clock x scene in the bound',
  'tests use one listing of a scene; index arithmetic that happens to be right '
  'for the first object, or a reduction over padding, shows only when the same '
  'episode is replayed under every order and padding',
  ALL,
  [('step', 'BaseEnvironment.step / PlanningAgentEnvironment.step'),
   ('metrics', 'metrics.run_metrics'), ('observation', 'sdc_observation_from_state'),
   ('agents', 'agents.IDMRoutePolicy')],
  'exhaustive exploration of episodes of 7 environment worlds on the real code, '
  'each replayed under every permutation and padding and compared after undoing it',
  'the order of points inside a road line is part of the scene and is kept; '
  'floats compared to 1e-4 relative')

p('C35', 'Moving the whole scene moves everything in it and changes nothing else',
  'Turning a scene by any angle and shifting it moves the simulated poses, '
  'velocities, observations in world coordinates and world-frame actions the same '
  'way, and leaves validity, flags, metrics, rewards, body-frame actions and '
  'observations in object coordinates as they were. Headings that differ by full '
  'turns are the same heading.',
  ['histories', 'inputs'],
  'every motion of a set covering all quadrants, oblique angles and large shifts '
  'x every action word, start clock and scene in the bound',
  'tests use scenes in one place; a missing rotation, a mixed-up axis or an angle '
  'wrapped too late is right for one heading and wrong for others',
  ALL,
  [('dynamics', 'waymax/dynamics/*.py compute_update / inverse'),
   ('frames', 'datatypes.transform_trajectory and observation'),
   ('metrics', 'waymax/metrics/*.py'), ('agents', 'agents.IDMRoutePolicy')],
  'exhaustive exploration of episodes of 7 environment worlds on the real code, '
  'each replayed under every rigid motion of the set and compared after moving '
  'the result of the plain run',
  'expert displacement actions at the per-axis limit are exempt (the limit is a '
  'box in world axes by design)')

p('C36', 'Set-ups that cannot work are refused, those that can are accepted',
  'A configuration is refused with an error when it cannot be honoured, and only '
  'then: a history longer than the warm-up; route metrics without routes (in the '
  'top-level configuration, and when computed on a scene that has none); a metric '
  'or reward name that is not registered, or registered twice; a planning '
  'environment that controls anything but the ego; a controlled kind, background '
  'agent kind, observation frame or data format that does not exist; a scene with '
  'another object count than configured; more nearest road points than there '
  'are; routes from the dataset without their sizes; a discretizer whose range '
  'ends and bin counts differ in number, or values of another width. A refused '
  'registration changes nothing; a registered metric can be run and rewarded at '
  'once.',
  ['inputs', 'histories'],
  'every combination of the options up to the bound; every history of '
  'registrations and runs up to the depth',
  'tests build a few valid configurations; whether a combination is silently '
  'accepted and misbehaves later needs the whole grid',
  ['waymax/config.py', 'waymax/metrics/metric_factory.py',
   'waymax/env/planning_agent_environment.py', 'waymax/env/base_environment.py',
   'waymax/rewards/linear_combination_reward.py',
   'waymax/agents/agent_builder.py', 'waymax/dynamics/discretizer.py',
   'waymax/datatypes/observation.py', 'waymax/dataloader/womd_utils.py',
   'waymax/dataloader/dataloader_utils.py'],
  [('configurations', '__post_init__ of EnvironmentConfig and WaymaxConfig'),
   ('metric registry', 'metric_factory.register_metric / run_metrics'),
   ('discretizer', 'Discretizer.__init__ / discretize')],
  'exhaustive enumeration of option grids, and of registration histories to '
  'depth 3 (4) against a dictionary model, on the real code',
  'which exception is raised is judged only where the code documents it')

p('C37', 'A full-size recorded drive is simulated to its last step as specified',
  'A dataset record of full size (128 objects, 91 steps, thousands of road points, '
  '16 lights, routes), read from a file by the public generator, gives a scene in '
  'which a whole 80-step episode - any controlled kind, dynamics model or '
  'background traffic - follows the transition rules at every step and reports, '
  'at every state, the clock, metrics, rewards, observations and expert actions '
  'that the rules define for that state; the episode ends exactly at the last '
  'recorded step. How many objects, steps and points there are, and how many of '
  'the objects are loaded, makes no difference to how each is treated.',
  ['histories', 'inputs'],
  'every environment kind x record x action plan (clock at which the plan '
  'switches) x every step of the drive',
  'tests use few steps, or compare whole runs with themselves; a fault that needs '
  'many objects, a late step or all parts together is out of their reach',
  ALL + ['waymax/dataloader/womd_dataloader.py',
         'waymax/dataloader/womd_factories.py'],
  [('read', 'dataloader.simulator_state_generator'),
   ('simulate', 'BaseEnvironment / PlanningAgentEnvironment'),
   ('report', 'metrics, rewards, observations, expert actions')],
  'exhaustive exploration of full-size episodes (environment x record x action '
  'plan, every state to the last) of the real code against NumPy references',
  'off-road is judged every fourth state (second in the thorough tier) and views '
  'for three observers per state')

p('C38', 'Simulations can be branched, interleaved, saved and resumed at will',
  'Environments, agents, metrics, rewards and interfaces hold nothing of a '
  'simulation: everything is in the states they return. However operations on '
  'several simulations that share these objects are interleaved - resets, steps, '
  'observations, metrics, two branches going on from one state, a state stored '
  'and read back (pickle, copy, flattened arrays), single scenes and batches in '
  'turn - each gives what it gives on objects used for nothing else, and no state '
  'held by the user changes. Likewise two dm_env interfaces around one '
  'environment, rollouts with one actor, and two data streams from one '
  'configuration do not disturb each other.',
  ['histories', 'schedules'],
  'every window of operations up to the depth (all of them in one long history), '
  'per environment and interface',
  'tests run one simulation per object from start to end; a value remembered in an '
  'object, or changed in place in a state handed out before, is only seen when '
  'another simulation uses it in between',
  ALL + ['waymax/env/wrappers/dm_env_wrapper.py',
         'waymax/env/wrappers/brax_wrapper.py', 'waymax/agents/actor_core.py',
         'waymax/dataloader/dataloader_utils.py'],
  [('states', 'reset / step of the environments and wrappers'),
   ('agents', 'select_action and the state agents carry'),
   ('streams', 'dataloader_utils.get_data_generator')],
  'exhaustive exploration of operation interleavings on the real objects: a de '
  'Bruijn history holding every window up to depth 3 (4) of ten operations, '
  'compared after each operation with runs on fresh objects',
  'something remembered for longer than the depth without showing within it is '
  'not looked for; depth 2 (3) for the single-agent environments')
