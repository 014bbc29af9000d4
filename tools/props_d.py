"""Properties C24-C26: rollouts and environment wrappers."""
P = []


def p(id, *a, **k):
  import props_a
  props_a.p(id, *a, **k)
  P.append(props_a.P.pop())


p('C24', 'A rollout equals stepping the environment by hand',
  'Rolling an actor out for k steps gives k+1 entries: entry i holds the state '
  'after i steps, its observation and metrics, the action the actor chose there '
  'and the reward of taking it; the last entry has a zero, invalid action. The '
  'states are those of resetting and stepping by hand with the reported '
  'actions. At each step the actor gets the current state, its parameters, the '
  'carried state it returned last, and a random key of its own, different for '
  'each step and from that of its initialisation, determined by the key given. '
  'The same holds for batched scenes.',
  ['inputs', 'configurations', 'histories'],
  'every environment kind, warm-up length, number of steps up to the end of '
  'the log, scene, ego index, with batches',
  'an off-by-one between action, reward and state shows only when whole '
  'rollouts are compared entry by entry; tests look at shapes',
  ['waymax/env/rollout.py'],
  [('scan', 'rollout._step'), ('final entry', 'last_output / padding_action')],
  'exhaustive enumeration of rollouts on the real code, each entry replayed '
  'step by step against the environment',
  '3 objects, 5 steps; an actor whose action spells out what it was given')

p('C25', 'The dm_env interface follows the episode protocol',
  'Reset starts an episode on the next scene of the data source (FIRST); each '
  'step applies the action to the state held and returns the observation after '
  'it and the reward of the step; the step that reaches the end of the log or '
  'a termination is LAST, with discount 0 exactly for a termination, others '
  'MID with discount 1. Stepping or reading the state before a successful '
  'reset, resetting onto a scene without steps left, and stepping after LAST '
  'are refused with the documented errors; reset then works again, with '
  'nothing carried over. Scalar discrete actions may be squeezed. Specs match '
  'what is exchanged. The ready-made ego environment runs the configured '
  'background agents.',
  ['histories', 'inputs', 'configurations'],
  'every sequence of resets (on scenes of different lengths), steps and reads '
  'up to a depth, per environment, batch and way of ending',
  'protocol errors need particular call sequences, e.g. a step after a refused '
  'reset; tests follow one good path',
  ['waymax/env/wrappers/dm_env_wrapper.py', 'waymax/env/abstract_environment.py'],
  [('automaton', 'DMEnvWrapper.reset/step/simulation_state'),
   ('assembly', 'make_sdc_dm_environment')],
  'exhaustive exploration of call sequences on the real wrapper against a '
  'protocol automaton, every call compared',
  'depth 6 (quick) and 8 (thorough); what follows an exhausted data source is '
  'not specified')

p('C26', 'The Brax interface returns exactly what the environment does',
  'Resetting and stepping through the Brax wrapper gives the states, '
  'observations, rewards and metrics of the wrapped environment: after reset '
  'reward 0 and discount 1, after a step the reward and metrics of the state '
  'stepped from and the observation of the one stepped to. done is termination '
  'or truncation of the state returned, also after reset, discount 0 exactly '
  'on termination. The time step given in is not changed, every time step has '
  'the same structure, and works under scan, jit and batches.',
  ['histories', 'configurations', 'inputs'],
  'every action sequence over whole episodes per environment, warm-up length '
  'up to the whole log, batch, termination and truncation time',
  'the combination of termination and truncation times with episode ends '
  'is not covered by single-step tests',
  ['waymax/env/wrappers/brax_wrapper.py', 'waymax/env/abstract_environment.py'],
  [('wrapping', 'BraxWrapper.reset/step'),
   ('ends', 'AbstractEnvironment.termination/truncation')],
  'exhaustive exploration of action sequences on the real wrapper, each '
  'transition compared with the wrapped environment',
  'episodes of 5 steps (6 thorough), two joint actions per state')
