"""Properties C27-C33: data, exports, and the building blocks."""
P = []


def p(id, *a, **k):
  import props_a
  props_a.p(id, *a, **k)
  P.append(props_a.P.pop())


p('C27', 'The data pipeline returns every record, once per repeat, nothing else',
  'Reading a file, or a set of shards path@N (files path-XXXXX-of-YYYYY), '
  'returns exactly the records written, each once per repetition, whatever the '
  'number of parallel loading shards, the shuffling, and the split by scenario '
  'or by object. Batches have exactly the requested dimensions; only an '
  'incomplete last batch is dropped, and only if asked. A dataset repeated '
  'without limit never ends and keeps returning every record. The processes of '
  'a distributed run get whole files, each file at exactly one process. The '
  'same configuration and seed give the same order again; one file alone is '
  'read in its own order. The generator yields the post-processed elements, '
  'with a leading axis of the local devices when distributed.',
  ['inputs', 'configurations'],
  'every layout of records over files, number of shards, repetition, batching, '
  'shuffling, granularity, process split and device split in the bounds',
  'loss and duplication show only for particular combinations of file sizes, '
  'shards and batch sizes; tests read one record of one file',
  ['waymax/dataloader/dataloader_utils.py', 'waymax/config.py'],
  [('sharding and batching', 'dataloader_utils.tf_examples_dataset'),
   ('file names', 'dataloader_utils.generate_sharded_filenames'),
   ('generator', 'dataloader_utils.get_data_generator')],
  'exhaustive enumeration of pipeline configurations on the real code with '
  'files written by the check; multisets and order of every run compared',
  'up to 5 files of up to 4 records; 1 to 20 shards; up to 6 processes '
  '(simulated by the process index) and 2 devices')

p('C28', 'A dataset record becomes exactly the scene it describes',
  'Preprocessing joins past, current and future in this order, keeps every '
  'other field, wraps the heading to [-pi, pi], marks the steps -1/0/1, and '
  'limits every per-object field to the first max_num_objects objects; without '
  'aggregation the fields come as recorded. The scene holds each recorded cell '
  'in the matching field (traffic lights with object before time), box sizes '
  'averaged over the valid steps of the object (-1 if none), objects valid iff '
  'tracks_to_predict is not -1, modelled iff it is 1, the ego and interest '
  'flags iff 1, no object controlled, paths iff asked for. It starts at clock '
  '0 with the simulation equal to the log there and empty after. The same from '
  'serialized records, for any batch shape and time window; unknown windows '
  'and paths of unknown size are refused.',
  ['inputs', 'configurations'],
  'every cell of records with all-distinct content, all flag and validity '
  'values, windows, batches, object limits and path options',
  'tests look at a few cells of one recorded scene that is not shipped with '
  'the repository',
  ['waymax/dataloader/womd_dataloader.py', 'waymax/dataloader/womd_factories.py',
   'waymax/dataloader/womd_utils.py'],
  [('preprocessing', 'preprocess_womd_example / aggregate_time_tensors'),
   ('construction', 'simulator_state_from_womd_dict'),
   ('parsing', 'get_features_description / preprocess_serialized_womd_data')],
  'exhaustive enumeration of records and options on the real code, each output '
  'cell compared with a numpy reading of the record',
  'up to 27 objects in dictionaries (all flag combinations), 128 in records')

p('C29', 'Exporting a running simulation keeps its history and nothing else',
  'Exporting a state with at least num_history past steps gives a record in '
  'the requested format whose past and current steps are the simulated '
  'trajectory and the logged traffic lights of those times (speed and its '
  'direction -1 where invalid), whose object flags and ids are those of the '
  'scene (-1 for invalid objects), whose road is that of the scene, and whose '
  'future is absent. Reading it back gives the same history, flags, lights and '
  'road, with no valid future. Only requested fields are returned. With '
  'validation the export is refused unless exactly the needed history has been '
  'simulated. The same when compiled, and as tensors.',
  ['inputs', 'configurations', 'histories'],
  'every number of objects, history and future length, export time and '
  'validity pattern in the bounds, and states reached by stepping',
  'no test exercises the export; window mistakes need a time beyond the '
  'history length and a simulation that differs from the log',
  ['waymax/dataloader/womd_utils.py', 'waymax/dataloader/womd_factories.py'],
  [('export', 'womd_utils.simulator_state_to_womd_dict'),
   ('import', 'womd_factories.simulator_state_from_womd_dict')],
  'exhaustive enumeration of states and times on the real code, each export '
  'compared with a numpy reference and read back',
  'up to 3 objects (5 thorough), history up to 4, unbatched; fewer steps than '
  'the history is outside the documented domain')

p('C31', 'Array operations and scene structures do what their names say',
  'Slicing and pasting along an axis take and write exactly the cells at the '
  'given start (one per scene where given so, whatever index type), leaving '
  'inputs unchanged; masked updates write where the mask is; one-hot selection '
  'gives the entry at the one-hot index of every field and scene; masked means '
  'and masked values ignore invalid cells whatever they hold. Two structures '
  'are equal exactly when all fields have the same values and the same '
  'optional parts. Each control mode selects its objects. Derived quantities '
  '(speed, stacked fields, box corners, vehicle and pedestrian flags, clock '
  'and remaining steps, current states) are those of the same cells. '
  'Validation refuses wrong shapes and types and nothing else.',
  ['inputs'],
  'every operation over every start, axis, batch shape, mask and field of the '
  'structures in the bounds',
  'tests try one example per helper; a wrong axis, wrong scene of a batch or a '
  'NaN in an invalid cell needs the full product of shapes, starts and masks',
  ['waymax/datatypes/operations.py', 'waymax/datatypes/array.py',
   'waymax/datatypes/object_state.py', 'waymax/datatypes/simulator_state.py',
   'waymax/datatypes/traffic_lights.py', 'waymax/datatypes/route.py',
   'waymax/datatypes/roadgraph.py', 'waymax/datatypes/action.py'],
  [('slices', 'operations.dynamic_slice / update_by_slice_in_dim'),
   ('masks', 'operations.update_by_mask / select_by_onehot / masked_mean'),
   ('structures', 'MaskedArray, Trajectory, SimulatorState')],
  'exhaustive enumeration of operations, starts, shapes, masks and single-field '
  'changes on the real code, compared cell by cell with numpy',
  'arrays of up to 6 steps, batches of up to 2 dimensions')

p('C32', 'Frames, boxes and angles follow plane geometry',
  'A pose maps its own position to the origin and its own heading to zero; '
  'every point, direction, heading, velocity and box is turned and moved by '
  'it without changing lengths or sizes, and going through an intermediate '
  'frame ends at the same place as going directly. The corners of a box are '
  'at half length and half width along its heading and across. Two boxes '
  'overlap exactly when no line separates them: symmetric, the same in every '
  'frame, and in the pairwise table never with itself. Wrapped angles lie in '
  '[-pi, pi] and differ by whole turns from the given ones. All this for any '
  'batch shape, any pose and any distance from the origin.',
  ['inputs'],
  'every combination of headings around the circle, positions near and far, '
  'box sizes, relative placements around contact, and batch shapes',
  'tests use a few aligned boxes and a single pose; sign and axis mistakes can '
  'cancel for those and show only for oblique headings or far scenes',
  ['waymax/utils/geometry.py', 'waymax/datatypes/observation.py',
   'waymax/datatypes/object_state.py'],
  [('frames', 'geometry.pose_from_xy_yaw / transform_points / transform_direction'),
   ('chained poses', 'observation.combine_two_object_pose_2d'),
   ('boxes', 'geometry.corners_from_bboxes / has_overlap / compute_pairwise_overlaps'),
   ('angles', 'geometry.wrap_yaws')],
  'exhaustive enumeration of a lattice of poses, points and box pairs on the '
  'real code, compared with float64 numpy geometry',
  'box pairs closer to exact contact than 1e-3 are not judged (float32)')
