"""Properties C01-C09: state transitions and dynamics."""
P = []


def p(id, title, statement, over, text, why, files, mechanism, technique, note,
      level='model_checking'):
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                why=why, files=files, mechanism=mechanism, technique=technique,
                note=note, level=level))


p('C01', 'Reset replays exactly the warm-up prefix of the log',
  'Resetting either environment on a scenario gives a simulation whose first '
  'warm-up steps equal the log in every recorded quantity, whose later steps '
  'are all marked invalid and filled with -1, and whose clock stands on the '
  'last warm-up step. The log, the map, the traffic lights, the routes and '
  'the object metadata come out unchanged. The outcome depends only on the '
  'scenario log and the configured warm-up length, not on what simulation, '
  'clock or random key the incoming state carried.',
  ['inputs', 'configurations', 'histories'],
  'every scenario (object count, length, validity pattern, leading batch '
  'shape), every warm-up length from 1 to the episode length, and any earlier '
  'simulation content, including a state stepped any number of times',
  'a test resets one scenario from a fresh state; the guarantee is about every '
  'warm-up length and every state a reset may be called on',
  ['waymax/env/base_environment.py', 'waymax/env/planning_agent_environment.py',
   'waymax/datatypes/simulator_state.py', 'waymax/datatypes/object_state.py'],
  [('fill then copy the log prefix',
    'BaseEnvironment.reset / PlanningAgentEnvironment.reset, '
    'update_state_by_log, fill_invalid_trajectory')],
  'exhaustive enumeration of scenarios/warm-ups/restart histories on the real '
  'environments against a NumPy reference',
  'all (objects, steps, warm-up) up to 3x5x5, all 256 validity patterns of a '
  '2x4 log, restarts after every prefix of an episode, batches, one full-size '
  'scenario; exact equality')

p('C02', 'A step writes one time step and leaves everything else alone',
  'Stepping either environment advances the clock by one and writes exactly '
  'the next step of the simulated trajectories. Every earlier and later '
  'simulated step, the log, the map, the traffic lights, the routes and the '
  'object metadata are bit-for-bit unchanged, and the arrays passed in are '
  'not modified.',
  ['histories', 'inputs', 'configurations'],
  'every history of joint actions (valid or not, in or out of range) from '
  'reset, for every dynamics model and control mode',
  'a frame condition is about everything an operation must not touch in any '
  'reachable state; a test inspects a few fields after a few steps',
  ['waymax/dynamics/abstract_dynamics.py', 'waymax/env/base_environment.py',
   'waymax/env/planning_agent_environment.py', 'waymax/datatypes/operations.py'],
  [('write of the next slice', 'DynamicsModel.forward, update_by_slice_in_dim'),
   ('clock', 'BaseEnvironment.step, PlanningAgentEnvironment.step')],
  'breadth-first exploration of reachable environment states, each transition '
  'compared with a reference transition relation',
  'all joint-action histories to depth 3 over 26 configurations and 2 '
  'scenarios (3 objects, 5 steps), all 256 flag combinations of an object at '
  '3 clock values, every clock value of a 91-step episode; exact equality')

p('C03', 'Controlled objects follow the action, all others replay the log',
  'On each step, exactly the objects selected by the configured control mode '
  'take the position, heading and velocity that the dynamics model gives for '
  'their own action; every other object takes the logged position, heading and '
  'velocity of the next step, and so does a selected object that is absent '
  'from the current step, unless its action is valid and places it. All '
  'objects keep the elevation and size they had in the current simulated step '
  'and take the logged timestamp.',
  ['histories', 'inputs', 'configurations'],
  'every history of joint actions, each dynamics model, each control mode '
  '(ego only, modelled objects, valid objects; with and without late entry), '
  'every combination of per-object flags',
  'who is controlled depends on the combination of mode, metadata, warm-up '
  'validity and late-entry setting; tests check one or two combinations',
  ['waymax/dynamics/abstract_dynamics.py', 'waymax/env/base_environment.py',
   'waymax/env/planning_agent_environment.py',
   'waymax/datatypes/operations.py'],
  [('selection of controlled objects', '_get_control_mask, get_control_mask'),
   ('merge of update and log', 'update_state_with_dynamics_trajectory')],
  'breadth-first exploration of reachable environment states, each transition '
  'compared with a reference transition relation',
  'same state space as C02; controlled motion within 2e-4 (headings modulo a '
  'full turn), replayed motion and carried fields exact')

p('C04', 'An object\'s validity follows its control and its log',
  'A controlled object that is currently valid stays valid on the next step '
  'whatever its log says. Any other object takes its logged validity when '
  'late entry is allowed, and otherwise is valid only if it is currently valid '
  'and logged as valid, so that without late entry no invalid object ever '
  'becomes valid after warm-up.',
  ['histories', 'inputs', 'configurations'],
  'every validity history of the log, every control mode, late entry on and '
  'off, every history of joint actions with valid and invalid actions',
  'validity is a state machine per object driven by five booleans; tests only '
  'visit the all-valid path and one entry or exit',
  ['waymax/dynamics/abstract_dynamics.py', 'waymax/env/base_environment.py'],
  [('next validity', 'update_state_with_dynamics_trajectory')],
  'breadth-first exploration of reachable environment states, each transition '
  'compared with a reference transition relation',
  'same state space as C02; exact')

p('C05', 'Displacement and pose dynamics do exactly what their action says',
  'A displacement action moves an object by the given distances along the '
  'world axes (or along the object\'s own axes for the local variant) and '
  'turns it by the given angle, and its new velocity is the displacement over '
  'the step time; a pose action places the object at the given pose and '
  'velocity. Each object is moved by its own action only.',
  ['inputs'],
  'every current pose (all quadrants, both sides of the heading seam, far '
  'from the origin), every action on a grid over and beyond the range, every '
  'validity combination, any batch shape',
  'frame mix-ups agree on the headings and displacements a test happens to '
  'use; only covering the product of headings and displacements separates them',
  ['waymax/dynamics/delta.py', 'waymax/dynamics/state_dynamics.py',
   'waymax/dynamics/abstract_dynamics.py', 'waymax/utils/geometry.py'],
  [('updates', 'DeltaGlobal.compute_update, DeltaLocal.compute_update, '
    'StateDynamics.compute_update'), ('one step', 'DynamicsModel.forward')],
  'exhaustive product of poses x actions x validity on the real models against '
  'a NumPy reference',
  'full product grid; tolerance 2e-4')

p('C06', 'Bicycle dynamics integrate acceleration and curvature as specified',
  'For acceleration a and curvature k, after limiting both to their ranges, '
  'the object advances by its velocity plus half the acceleration along its '
  'heading, its heading changes by curvature times distance travelled along '
  'the path, and its new velocity points along the new heading with the speed '
  'increased by a times the step time. Normalised actions in [-1, 1] mean the '
  'same physical limits.',
  ['inputs', 'configurations'],
  'every speed, heading, acceleration and curvature on a grid that exceeds the '
  'limits, both normalisation modes, several limits',
  'limits, normalisation and heading wrap interact; tests use a single '
  'straight or turning example',
  ['waymax/dynamics/bicycle_model.py'],
  [('update', 'InvertibleBicycleModel.compute_update')],
  'exhaustive product of speeds x headings x actions x configurations on the '
  'real model against a NumPy reference',
  'full product grid; tolerance 2e-4')

p('C07', 'Inferring an action and applying it reproduces the transition',
  'For a transition a dynamics model can make, inferring the action from the '
  'two steps and applying it from the first reproduces the second; for one it '
  'cannot make, the inferred action is the one limited to the range. An '
  'inferred action is valid exactly when both steps are valid (for a pose '
  'action, which needs only its target, when the latter is), and the pair of '
  'steps used is the given time step and the one after it.',
  ['inputs', 'histories'],
  'every transition made by any action of a grid (including its limits) from '
  'any pose, each dynamics model, every validity combination, every time step '
  'of a trajectory',
  'a round trip is a relation between two functions over all inputs; tests '
  'check each function on a handful of points',
  ['waymax/dynamics/delta.py', 'waymax/dynamics/bicycle_model.py',
   'waymax/dynamics/state_dynamics.py'],
  [('inverse', 'DynamicsModel.inverse of each model, '
    'compute_inverse of the bicycle model')],
  'exhaustive product of poses x actions x validity: forward then inverse on '
  'the real models, against a NumPy reference',
  'full product grid; ambiguous points (zero speed of the bicycle, a half-turn) '
  'excluded; tolerance stated in the check')

p('C08', 'The action grid and its flat index are in exact correspondence',
  'Every flat index decodes to a distinct point of the evenly spaced grid over '
  'the ranges, in row-major order with both ends included, and encoding that '
  'point gives the index back. Any other point is encoded as its nearest grid '
  'point, coordinate by coordinate, and a point outside the range as the '
  'nearest end.',
  ['inputs', 'configurations'],
  'every bin count per dimension in bounds for 1 to 4 dimensions, symmetric '
  'and asymmetric ranges, every index, every grid point displaced within its '
  'cell, points beyond the range',
  'index arithmetic errors appear only for unequal bin counts or particular '
  'digits; tests use one or two grids',
  ['waymax/dynamics/discretizer.py'],
  [('index arithmetic', 'Discretizer.discretize / make_continuous')],
  'exhaustive enumeration of indices and displaced points on the real code '
  'against a mixed-radix reference',
  'all indices of 13 grids (quick) or ~250 grids (thorough)')

p('C09', 'A discrete action means the continuous action it stands for',
  'Applying a discrete action moves an object exactly as the wrapped dynamics '
  'model moves it under the decoded continuous action, and the advertised '
  'range of indices is the number of grid points. Inferring a discrete action '
  'gives, by rounding, the grid action nearest to the inferred continuous '
  'action and, by search, an action whose outcome is nearest to the observed '
  'one over all actions, for every object of the scene.',
  ['inputs', 'configurations'],
  'every discrete action from several poses for each wrapped model, every '
  'validity combination, both inference modes, every object including non-ego '
  'ones, batched scenes',
  'optimality of a search is a claim over all alternatives; a test compares one '
  'expected index, and only for the ego object',
  ['waymax/dynamics/discretizer.py'],
  [('wrapper', 'DiscreteActionSpaceWrapper'),
   ('search', 'DiscreteActionSpaceWrapper._one_step_search or equivalent')],
  'exhaustive enumeration of discrete actions x poses, forward and inverse, '
  'against a NumPy reference and brute-force minimum',
  'every action of grids up to 105 actions; 12 objects per scene for the '
  'search; ties excluded by comparing distances rather than indices')
