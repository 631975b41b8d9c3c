"""The properties, and what MANIFEST.json says about each; `gen.py` writes the
two files from this."""

S, I, P, H, C, F, K = ('schedules', 'inputs', 'programs', 'histories',
                       'configurations', 'fault_sequences', 'crash_points')

PROPS = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique,
         note, state=(), level='model_checking', observe=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, quant=quant,
        why=why, files=files, mechanism=mechanism, state=state,
        technique=technique, note=note, level=level, observe=observe))


prop('C01', 'Spatial index returns exactly the items stored nearby',
     'Items stored in the block index under points are returned by a query if '
     'and only if the block of their point lies within the query radius (in '
     'blocks) of the block of the queried point, each as often as it was '
     'stored and none ever lost or invented. This holds for any order of '
     'insertions and queries, any number of dimensions, negative coordinates '
     'and block borders. Points that are not numeric tuples are refused with '
     'KeyError and leave the index unchanged; so are cell sizes which are not '
     'positive.',
     [H, I], 'every sequence of insertions and queries over points in any '
     'number of dimensions, every cell size and container',
     'The tests insert a few random non-negative points and never compare '
     'queries with what was stored.',
     ['crowddynamics/core/block_list.py'],
     [{'name': 'MutableBlockList', 'where': 'crowddynamics/core/block_list.py'}],
     'explicit-state enumeration of insertion/query histories on the real '
     'index against a dictionary model',
     'Exhaustive to the stated depth over a point alphabet that covers block '
     'interiors, corners and both signs; floor of an exact multiple of the '
     'cell size is taken as exact.')

prop('C04', 'Saved arrays load back exactly, in order',
     'For every sequence of frames and dump flags sent to the array storage, '
     'loading that basename yields one array per dump, in dump order, holding '
     'exactly the frames sent since the previous dump as they were when they '
     'were sent. Frames not yet dumped do not appear, other files of the '
     'directory do not interfere, and the concatenated load is those arrays '
     'stacked.',
     [H, I], 'every sequence of (frame, flag), frame shape and dtype, '
     'basename, and number of dumps',
     'One test saves random data once; order beyond ten files, basenames that '
     'prefix each other and frames changed after sending are never tried.',
     ['crowddynamics/io.py'],
     [{'name': 'save_npy', 'where': 'crowddynamics/io.py'},
      {'name': 'load_npy', 'where': 'crowddynamics/io.py'}],
     'explicit-state enumeration of send/dump histories on the real storage '
     'against a list model',
     'Exhaustive over flag histories to the stated length, over frame kinds, '
     'basenames and interleavings of two storages; trusts NumPy file format.')

prop('C05', 'The data table holds its header and every dumped record',
     'For every sequence of records and dump flags sent to the table storage, '
     'the file holds the header of the first record and then exactly the '
     'records sent up to the last dump, one row each, in order, readable with '
     'any CSV reader whatever the values contain. Nothing is repeated or '
     'lost between dumps, and records changed after sending do not change '
     'what is written.',
     [H, I], 'every sequence of (record, flag) and every record contents',
     'The test sends one record and never reads the file back.',
     ['crowddynamics/io.py'],
     [{'name': 'save_csv', 'where': 'crowddynamics/io.py'}],
     'explicit-state enumeration of send/dump histories on the real storage '
     'against a list model',
     'Exhaustive over flag histories to the stated length and record shapes; '
     'ASCII text, records with one set of keys.')

prop('C06', 'Acknowledged dumps survive crashes and failed writes',
     'Once a dump of the array or table storage has returned, a crash of the '
     'process at any later point, including in the middle of a later write, '
     'leaves that dump loadable and unchanged. What can be read after the '
     'crash is exactly acknowledged data followed at most by (part of) the '
     'dump in progress, and a failed write of the table is reported to the '
     'sender.',
     [K, F], 'every crash point and torn-write position of every history',
     'No test crashes the process or fails a write.',
     ['crowddynamics/io.py'],
     [{'name': 'save_npy', 'where': 'crowddynamics/io.py'},
      {'name': 'save_csv dumper', 'where': 'crowddynamics/io.py'}],
     'exhaustive fault injection: the real storage in a child process, killed '
     'or its writes torn at every byte offset by the kernel file size limit',
     'Every fault point of the enumerated histories; process crashes, not '
     'power loss.', level='fault_enumeration')

prop('C07', 'Geometries survive the JSON file',
     'Saving named geometries (any kind, empty or missing ones, or lists and '
     'named groups of them) and loading the file returns the same names and '
     'the same geometries, coordinate for coordinate. Saving again to the '
     'same file replaces its contents, what cannot be saved leaves them, and '
     'the file is always one valid JSON document.',
     [I, H], 'every geometry kind in every container, and every sequence of '
     'saves', 'The JSON functions have no test.',
     ['crowddynamics/io.py'],
     [{'name': 'save_geometry_json, load_geometry_json',
       'where': 'crowddynamics/io.py'}],
     'exhaustive enumeration of geometry values, containers and save '
     'sequences on the real code against coordinate tuples',
     'shapely is absent here; a stand-in with its 1.6 interface provides the '
     'geometry classes, so the check trusts that stand-in.')

prop('C08', 'Logic trees are built as written and evaluated children first',
     'After any sequence of tree-building operations the tree has exactly the '
     'parents and ordered children those operations describe; an injected '
     'node takes the place before or after its target without losing any '
     'node. Each update evaluates every node of the whole tree once, children '
     'before parents and siblings in the order attached, and a name looked up '
     'from any node finds the first such node of the whole tree.',
     [P, H], 'every sequence of building operations and every tree shape',
     'One test builds one tree of four nodes.',
     ['crowddynamics/simulation/base.py',
      'crowddynamics/simulation/multiagent.py'],
     [{'name': 'LogicNodeBase', 'where': 'crowddynamics/simulation/base.py'},
      {'name': 'MultiAgentSimulation.update',
       'where': 'crowddynamics/simulation/multiagent.py'}],
     'explicit-state breadth-first exploration of all forests under all '
     'building operations, each state rebuilt on the real classes',
     'Exhaustive for 4 (5) nodes; larger trees by shape only.')

prop('C09', 'Simulations run until their exit condition holds',
     'A run evaluates the exit condition before every update and performs '
     'updates exactly until it first holds; without a condition it only ends '
     'by an error. The iteration counter equals the completed updates, errors '
     'reach the caller, and simulations never share data or metadata.',
     [H, P], 'every sequence of condition answers, failing step and '
     'interleaving of several simulations',
     'The test only constructs an empty simulation.',
     ['crowddynamics/simulation/base.py',
      'crowddynamics/simulation/multiagent.py'],
     [{'name': 'SimulationBase.run',
       'where': 'crowddynamics/simulation/base.py'}],
     'explicit-state enumeration of condition histories, failing steps and '
     'interleavings on the real classes against a counter model',
     'Exhaustive to the stated length over truthy and falsy values.')

prop('C10', 'A simulation process ends its stream exactly once',
     'A simulation process puts exactly one end marker on its queue, after '
     'everything its simulation put there, however the simulation ends: by '
     'stop requests at any point, by a simulation error or by any other '
     'error. After a stop request at most the update already decided on is '
     'completed.',
     [S, F], 'every placement of stop requests between the actions of the '
     'process, and every failing update',
     'The test file is empty.',
     ['crowddynamics/simulation/multiagent.py'],
     [{'name': 'MultiAgentProcess.run',
       'where': 'crowddynamics/simulation/multiagent.py'}],
     'exhaustive schedule exploration: stop requests placed at every '
     'scheduling point of the real process body, replayed on real processes',
     'All schedules of up to 2 (3) stop requests over the first actions; the '
     'stop flag itself is trusted to be atomic.')

prop('C23', 'Configurations load completely or are refused',
     'A configuration checked against a specification is loaded with every '
     'value converted and within its range, or refused with a validation '
     'error if any single value is missing, malformed or out of range. Files '
     'which are missing or not parsable are refused. The '
     'shipped body types satisfy their specification and are geometrically '
     'consistent, and simulations named in a configuration are imported from '
     'its folder without moving the caller.',
     [I, C], 'every combination of valid and invalid values, and every layout '
     'of modules and functions', 'The configuration module has no test.',
     ['crowddynamics/config.py', 'crowddynamics/conf/body_types.cfg'],
     [{'name': 'load_config', 'where': 'crowddynamics/config.py'},
      {'name': 'import_simulation_callables',
       'where': 'crowddynamics/config.py'}],
     'exhaustive enumeration of configurations with up to 2 (3) deviating '
     'values against a restated specification',
     'Exhaustive over the value alphabet; trusts configobj to parse INI.')

prop('C31', 'Working directory, class import and deprecation helpers',
     'A scope that changes the working directory always returns to the '
     'previous one, however it is left; importing subclasses from a file '
     'returns exactly the proper subclasses defined or named there, in order. '
     'A deprecated function behaves as before and warns once per call, and '
     'every error of the package can be caught as its family and as the '
     'standard error it specialises.',
     [P, I], 'every nesting of scopes and way of leaving them, every small '
     'module, every call shape', 'None of these helpers has a test.',
     ['crowddynamics/utils.py', 'crowddynamics/exceptions.py'],
     [{'name': 'remember_cwd, import_subclasses',
       'where': 'crowddynamics/utils.py'},
      {'name': 'deprecated', 'where': 'crowddynamics/exceptions.py'}],
     'exhaustive enumeration of scope nestings, module texts and call shapes '
     'on the real functions',
     'Exhaustive to the stated depth.')

prop('C02', 'Placed agents never overlap agents or obstacles',
     'Agents added to a simulation in groups never overlap an agent already '
     'placed (where it stands by then) nor an obstacle, whatever their number, sizes, shapes, positions '
     'and cell size. A proposal is taken exactly when it fits. The array holds '
     'exactly the agents taken, in order, with the attributes proposed. A '
     'group is given up after ten times as many refusals as it has agents, '
     'not before; what was placed until then stays.',
     [H, I], 'every sequence of proposed agents, sizes, obstacle set, cell '
     'size and group',
     'No test adds an agent; agents spanning several cells or rejected in the '
     'middle of a group are never exercised.',
     ['crowddynamics/simulation/agents.py', 'crowddynamics/core/block_list.py'],
     [{'name': 'Agents.add_non_overlapping_group',
       'where': 'crowddynamics/simulation/agents.py'},
      {'name': 'overlapping_circles, overlapping_three_circles',
       'where': 'crowddynamics/simulation/agents.py'}],
     'explicit-state enumeration of proposal histories on the real placement '
     'code against exact rational geometry',
     'Exhaustive to the stated depth over a position and size alphabet that '
     'straddles cell borders; Python-level semantics of the compiled functions.')

prop('C03', 'Shoulders follow the position and orientation of the agent',
     'At every moment, after any history of attribute changes, placements and '
     'integration steps, the shoulders of a three-circle agent lie at the '
     'distance of its shoulder offset on either side of its position, '
     'perpendicular to its orientation, the left one counterclockwise of the '
     'direction it faces. Shoulders derived by the object, by the array and '
     'by the integrator agree.',
     [H], 'every sequence of attribute changes, placements and steps',
     'No test reads the shoulders.',
     ['crowddynamics/simulation/agents.py', 'crowddynamics/core/integrator.py'],
     [{'name': 'ThreeCircle, shoulders',
       'where': 'crowddynamics/simulation/agents.py'},
      {'name': 'velocity_verlet_integrator, euler_integrator',
       'where': 'crowddynamics/core/integrator.py'}],
     'explicit-state enumeration of change histories on the real objects and '
     'arrays against the closed formula',
     'Exhaustive over histories of the stated depth from an operation '
     'alphabet with extreme values.')

prop('C11', 'An integration step follows the scheme within its time bounds',
     'One integration step moves every agent, and rotates every three-circle '
     'agent, exactly by the documented formulas of its scheme (Euler or '
     'velocity Verlet) with one common time step, for any history of forces '
     'and torques. The step lies between the given bounds and shrinks so '
     'that the fastest agent moves at most 1.1 times what the largest target '
     'velocity covers in the longest step; agents do not affect one another '
     'otherwise.',
     [H, I], 'every sequence of forces and torques and every mix of speeds',
     'The integrator is only benchmarked.',
     ['crowddynamics/core/integrator.py'],
     [{'name': 'adaptive_timestep, euler_integration, '
               'velocity_verlet_integration',
       'where': 'crowddynamics/core/integrator.py'}],
     'explicit-state enumeration of force histories on the real integrators '
     'against the recurrences on plain numbers',
     'Exhaustive over the stated alphabets; results compared up to rounding.')

prop('C12', 'Contact, driving and fluctuation forces follow their formulas',
     'The contact force between two surfaces, the driving force towards the '
     'target velocity, the torque towards the target orientation and the '
     'random fluctuations are, for all parameters, exactly the documented '
     'formulas: rotation the shorter way round, also across the cut at pi; '
     'fluctuations in every direction alike, scaled by the mass or inertia of '
     'the agent and bounded. Driving force and torque are added to those '
     'present, for each agent from its own attributes only.',
     [I], 'every distance, normal, velocity, parameter, angle and mix of agents',
     'Tests only call these functions with random arguments and check types.',
     ['crowddynamics/core/motion/contact.py',
      'crowddynamics/core/motion/adjusting.py',
      'crowddynamics/core/motion/fluctuation.py'],
     [{'name': 'force_contact', 'where': 'crowddynamics/core/motion/contact.py'},
      {'name': 'force_adjust_agents, torque_adjust_agents',
       'where': 'crowddynamics/core/motion/adjusting.py'},
      {'name': 'force_fluctuation, torque_fluctuation',
       'where': 'crowddynamics/core/motion/fluctuation.py'}],
     'exhaustive enumeration of argument grids, agent mixes and random draws '
     'on the real functions against the documented formulas',
     'Exhaustive over the stated grids; results compared up to rounding.')

prop('C13', 'Every pair in sight and every wall acts exactly once',
     'The forces and torques after one interaction step equal the sum over '
     'all pairs of agents within sight, each pair once with forces in opposite '
     'directions scaled by the constants of each agent, contact forces only '
     'where bodies overlap, and over all walls they touch. This holds for any '
     'number and arrangement of agents, of either type, whatever their order '
     'in the array and the cell size (at least sight plus both radii) used to '
     'find the pairs. Agents do not act on themselves.',
     [I], 'every arrangement, order and type of agents, cell size and walls',
     'The tests check only that the interaction runs.',
     ['crowddynamics/core/interactions.py', 'crowddynamics/simulation/logic.py'],
     [{'name': 'agent_agent_block_list, agent_obstacle',
       'where': 'crowddynamics/core/interactions.py'}],
     'explicit-state enumeration of arrangements of agents and walls on the '
     'real interaction code against sums over all pairs',
     'Exhaustive over the stated arrangements; results compared up to '
     'rounding.')

prop('C14', 'Distances between bodies are the smallest over their parts',
     'The distance between two bodies, and between a body and a wall, is the '
     'smallest skin-to-skin distance over all their circles, negative when '
     'they overlap; the normal is the unit vector between the parts that '
     'realise it, directed from the second body (or wall) to the first (zero '
     'for circles with the same centre), and the moments of rotation are the '
     'documented ones of each agent\'s own nearest part.',
     [I], 'every pair of positions, radii and orientations, every wall',
     'The tests check only the types of the results.',
     ['crowddynamics/core/distance.py'],
     [{'name': 'distance_circles, distance_three_circles, '
               'distance_circle_line, distance_three_circle_line',
       'where': 'crowddynamics/core/distance.py'}],
     'exhaustive enumeration of configurations on the real functions against '
     'exact rational geometry over all pairs of parts',
     'Exhaustive over the stated grids.')

prop('C15', 'Social force repels from the first predicted contact',
     'The force of anticipatory avoidance is zero unless the bodies would '
     'touch within the time considered when both keep their velocities; '
     'otherwise it is minus the gradient of the interaction energy, a '
     'function of the time of the first contact of any of their parts, capped '
     'in size. It acts in opposite directions on the two agents, with the '
     'constants of each, independent of their order and of other agents.',
     [I], 'every pair of positions, velocities, sizes and orientations',
     'The tests check only that the result has the right type.',
     ['crowddynamics/core/motion/power_law.py'],
     [{'name': 'force_social_circular, force_social_three_circle',
       'where': 'crowddynamics/core/motion/power_law.py'}],
     'exhaustive enumeration of pair configurations on the real functions '
     'against the first contact over all parts and the gradient of the energy',
     'Exhaustive over the stated grids; results compared up to rounding.')

prop('C16', 'Agents see what no wall hides, and detect the nearest such exit',
     'Two segments intersect exactly when they have a point in common, '
     'whichever way they are given, also when parallel or degenerate. A line '
     'of sight is free exactly when it meets no wall. An agent detects the '
     'nearest exit in free sight and within range, or none; the logic node '
     'gives that target to followers who detected one, ends their following, '
     'and leaves everybody else unchanged. The position of an exit is the '
     'mean of the points of a line, the centroid of an area.',
     [I], 'every pair of segments, set of walls, exits and agents',
     'No test has collinear or touching segments or more than one exit.',
     ['crowddynamics/core/geom2D.py', 'crowddynamics/core/evacuation.py',
      'crowddynamics/simulation/logic.py'],
     [{'name': 'line_intersect', 'where': 'crowddynamics/core/geom2D.py'},
      {'name': 'exit_detection', 'where': 'crowddynamics/core/evacuation.py'},
      {'name': 'ExitDetection', 'where': 'crowddynamics/simulation/logic.py'}],
     'exhaustive enumeration of segment pairs and scenes on the real functions '
     'against exact rational intersection',
     'Exhaustive over the stated grids.')

prop('C17', 'Herding agents follow the nearest neighbours they see',
     'Agents that herd follow at most the given number of neighbours: exactly '
     'the nearest ones within sight range, in free line of sight, and in '
     'the documented relation of headings to them. The direction they take '
     'is the documented average over those they follow, of unit length, and '
     'the result for one agent does not depend on the order of the agents or '
     'on the cells used to find them.',
     [I], 'every arrangement of agents, headings, walls, ranges and numbers',
     'No test reads which neighbours are followed.',
     ['crowddynamics/core/steering/collective_motion.py'],
     [{'name': 'find_nearest_neighbors, herding_interaction, '
               'herding_relationship',
       'where': 'crowddynamics/core/steering/collective_motion.py'}],
     'explicit-state enumeration of arrangements on the real functions against '
     'all pairs with exact visibility',
     'Exhaustive over the stated arrangements.')

prop('C18', 'Followers follow the nearest leader they see and remember it',
     'A follower takes the direction of the nearest leader in sight and in '
     'range; it remembers whom it follows when the leader moves out of sight, '
     'changes over only when the documented rule says so, and falls back to '
     'what it knew (or to herding) when there is nobody to follow, along '
     'every history of scenes. Leaders and agents that do not follow are '
     'never redirected.',
     [H], 'every history of positions, headings and walls',
     'No test runs more than one step of following.',
     ['crowddynamics/core/steering/collective_motion.py',
      'crowddynamics/simulation/logic.py'],
     [{'name': 'leader_follower_interaction, '
               'leader_follower_with_herding_interaction',
       'where': 'crowddynamics/core/steering/collective_motion.py'}],
     'explicit-state enumeration of histories of scenes on the real update '
     'against a small state machine',
     'Exhaustive to the stated depth.')

prop('C19', 'Navigation maps guide around obstacles to the target',
     'Following the direction map of a target from any place of the domain '
     'that can reach it leads to the target without crossing an obstacle, at '
     'any resolution that resolves the passages. The grid covers the domain, '
     'a position is read from the cell it lies in, and directions near an '
     'obstacle are the documented mix with the direction away from it. Agents '
     'without a target, and agents outside of the map, keep their direction.',
     [I, C], 'every domain, set of obstacles and targets, resolution, radius '
     'and start',
     'No test follows a direction map.',
     ['crowddynamics/core/steering/quickest_path.py',
      'crowddynamics/core/steering/obstacle_handling.py',
      'crowddynamics/core/steering/navigation.py',
      'crowddynamics/simulation/field.py', 'crowddynamics/simulation/logic.py'],
     [{'name': 'shortest_path, meshgrid, direction_map',
       'where': 'crowddynamics/core/steering/quickest_path.py'},
      {'name': 'obstacle_handling',
       'where': 'crowddynamics/core/steering/obstacle_handling.py'},
      {'name': 'Navigation', 'where': 'crowddynamics/simulation/logic.py'}],
     'exhaustive exploration of the walks from every cell of the maps the '
     'real code computes, and of map contents',
     'Exhaustive over the scenes and resolutions stated; the fast marching '
     'and line drawing packages are stand-ins.')

prop('C28', 'Vector algebra follows its definitions',
     'Rotations, angles, dot and cross products, norms, normalisation, '
     'truncation and polygon areas follow their definitions for every vector '
     'and angle, zero, tiny and huge ones included, one at a time or as '
     'arrays: angles are wrapped to one turn, normalised vectors have unit '
     'length (zero stays zero), truncation keeps the direction and changes '
     'only what is longer.',
     [I], 'every vector, angle and polygon',
     'The tests sample random vectors and leave out zero and huge ones.',
     ['crowddynamics/core/vector2D.py', 'crowddynamics/core/geom2D.py'],
     [{'name': 'vector2D', 'where': 'crowddynamics/core/vector2D.py'}],
     'exhaustive enumeration of value grids and operation sequences on the '
     'real functions against the definitions',
     'Exhaustive over the stated grids; results compared up to rounding.')

prop('C22', 'Measured densities count every agent in the cell it stands in',
     'On a grid of cells that starts at the cell of the smallest coordinates '
     'and ends at that of the largest, the classical density of a cell is '
     'the number of agents standing in it per area of the cell; the first '
     'Voronoi density is the documented sum of the shares of the Voronoi '
     'cells (limited to the bounding box of the agents), so that it adds up '
     'to the number of agents; the second is the number of agents in the cell '
     'per total area of their Voronoi cells, and zero where nobody stands.',
     [I], 'every set of positions, negative ones included, and cell size',
     'The tests only look at one arrangement.',
     ['crowddynamics/core/quantities.py'],
     [{'name': 'density_classical, density_voronoi_1, density_voronoi_2',
       'where': 'crowddynamics/core/quantities.py'}],
     'explicit-state enumeration of arrangements on the real functions '
     'against exact half-plane clipping',
     'Exhaustive over the stated alphabets of positions; the Voronoi diagram '
     'and the polygon package are stand-ins.')

prop('C20', 'A field answers about its present geometry',
     'Grids, distance and direction maps of a field are those of its present '
     'domain, obstacles and targets, and of the step, target, radius and '
     'strength asked for, whatever was asked of this or another field before '
     'and whatever geometry was replaced since. Invalid geometry is refused '
     'and leaves field and answers as they were; asking for maps without '
     'domain or targets, or for something which is no target, is refused.',
     [H], 'every history of geometry replacements and queries',
     'The tests ask a fresh field once; the answers are cached.',
     ['crowddynamics/simulation/field.py'],
     [{'name': 'Field', 'where': 'crowddynamics/simulation/field.py'}],
     'explicit-state enumeration of histories of replacements and queries on '
     'the real class against memory-less recomputation',
     'Exhaustive to the stated depth over the stated geometries.')

prop('C21', 'Samples are uniform over the line, polygon or spawn',
     'Sampled points lie on the line, inside the polygon (or its convex hull '
     'when it is not convex), or inside the chosen spawn and not within the '
     'radius of an obstacle, whatever the draws; no part is preferred: the '
     'share of the draws which lands in a part is its share of the length or '
     'area, independent of what was sampled before.',
     [I], 'every shape and every sequence of random draws',
     'Tests look at a few random draws.',
     ['crowddynamics/core/sampling.py', 'crowddynamics/simulation/field.py'],
     [{'name': 'polygon_sample, linestring_sample',
       'where': 'crowddynamics/core/sampling.py'},
      {'name': 'sample_spawn', 'where': 'crowddynamics/simulation/field.py'}],
     'exhaustive enumeration of the draws (the random source replaced by '
     'choices) on the real samplers, shares compared with measures',
     'Exhaustive over the stated grids of draws and shapes.')

prop('C24', 'Bodies follow their body type, radius and ratios',
     'An agent of a body type has radius, mass and target velocity drawn one '
     'by one from the mean and scale of that type, within the scale of the '
     'mean, except for those given, which are kept; torso, shoulder and '
     'shoulder distance are the ratios of the radius, also after the radius '
     'or a ratio changed; the rotational moment is 4 pi (m/80) (r/0.27)^2 '
     'unless given. None of it depends on the order in which the values were '
     'set. A body type is chosen once, out of the table of body types: '
     'another one or an unknown one is refused and changes nothing.',
     [I, H], 'every order of settings, set of given values and draws',
     'The tests construct agents in one order with random draws.',
     ['crowddynamics/simulation/agents.py', 'crowddynamics/core/rand.py',
      'crowddynamics/conf/body_types.cfg'],
     [{'name': 'BodyType', 'where': 'crowddynamics/simulation/agents.py'}],
     'explicit-state enumeration of setting histories and draws on the real '
     'classes against formulas on plain numbers',
     'Exhaustive over the stated settings, orders and draws.')

prop('C25', 'Agents convert to array records and back without loss',
     'The record of an agent holds every attribute of its type (and nothing '
     'of the body type) with the value of the agent; reading it into any '
     'other agent of the type gives an agent with the same record; arrays '
     'of another length are refused untouched. Struct types of classes have '
     'a field per trait of the right kind and shape, in order, own ones '
     'before inherited ones, less what is excluded. Attributes refuse values '
     'outside of their range, vectors which are not of the plane and '
     'directions without unit length.',
     [I, H], 'every combination of attribute values and class hierarchy',
     'The tests look at default values.',
     ['crowddynamics/simulation/agents.py', 'crowddynamics/traits.py'],
     [{'name': 'AgentType, is_model',
       'where': 'crowddynamics/simulation/agents.py'},
      {'name': 'class_to_struct_dtype, validators',
       'where': 'crowddynamics/traits.py'}],
     'explicit-state enumeration of attribute values, class hierarchies and '
     'read-back histories on the real classes',
     'Exhaustive over pairs of attribute values and the stated hierarchies.')

prop('C26', 'Commands run the simulations they name with their options',
     'Every simulation class of the Python files of the directory, and '
     'nothing else, becomes a command; a chain of commands runs exactly these '
     'simulations in this order, each a new one as many times as --num says, '
     'with every option given reaching the attribute of its name with the '
     'right type (a choice stands for the value of that name) and all others '
     'at their defaults. Invalid options, unknown commands and wrong levels '
     'are refused before anything runs. Concatenation writes the saved parts '
     'in order into one file of the named directory.',
     [I], 'every set of simulations, options and chain of commands',
     'The tests only list simulations in an empty directory.',
     ['crowddynamics/cli.py', 'crowddynamics/traits.py',
      'crowddynamics/utils.py'],
     [{'name': 'simulation_commands', 'where': 'crowddynamics/cli.py'},
      {'name': 'trait_to_option', 'where': 'crowddynamics/traits.py'}],
     'exhaustive enumeration of command lines on the real command group, '
     'with simulations that tell what ran',
     'Exhaustive over the stated options, chains and modules.')

prop('C27', 'Activity and targets reached are counted exactly',
     'After every step the agents outside of the domain, and only these, are '
     'inactive and their number is in the data of the simulation, also for '
     'agents that return. For every target that is a polygon the data holds, '
     'under the index of that target, the number of agents that have been '
     'inside it at any step so far: it never decreases, counts each agent '
     'once, and targets of other kinds have no counter. Nothing else of the '
     'agents or the data changes.',
     [H, I], 'every history of positions, domain and set of targets',
     'The tests never run these nodes.',
     ['crowddynamics/simulation/logic.py'],
     [{'name': 'InsideDomain, TargetReached',
       'where': 'crowddynamics/simulation/logic.py'}],
     'explicit-state enumeration of histories of positions on the real logic '
     'nodes against exact even-odd tests and sets',
     'Exhaustive to the stated depth over the stated places and targets.')

prop('C29', 'Exit capacity and order to the exit match their definition',
     'The capacity of a narrow exit is the coefficient times the whole '
     'number of agents (or layers of them) that fit next to each other: zero '
     'below the width of one agent, never less for a wider door, and both '
     'estimates agree when a layer is as wide as an agent. The agents are '
     'numbered once each by how many of them are closer to the exit. The '
     'positions are left as they were.',
     [I], 'every width and every arrangement of agents around the door',
     'The tests call these with random values and compare nothing.',
     ['crowddynamics/core/evacuation.py'],
     [{'name': 'narrow_exit_capacity, agent_closer_to_exit',
       'where': 'crowddynamics/core/evacuation.py'}],
     'exhaustive enumeration of a bounded grid of widths and arrangements on '
     'the real functions against exact rational arithmetic',
     'Exhaustive over the grids; the functions are pure, so the states are '
     'their inputs.')

prop('C32', 'Random clocks tick at the drawn times, players in their order',
     'A Poisson clock yields the running sums of the drawn waiting times, '
     'all of them before the end of the window and none left out. The '
     'players of the timings tick in increasing order of time, each by a '
     'clock of its own, whatever is drawn and however much of the generator '
     'is used; the array of players stays as it was. Random vectors have '
     'the magnitude asked for and the direction of the drawn angle.',
     [I, H], 'every sequence of random draws',
     'The tests look at a few random runs.',
     ['crowddynamics/core/rand.py'],
     [{'name': 'poisson_clock, poisson_timings',
       'where': 'crowddynamics/core/rand.py'}],
     'exhaustive enumeration of the draws (the random source replaced by '
     'choices) on the real generators against running sums',
     'Exhaustive to the stated number of draws.')

prop('C30', 'What a simulation saved is what it was',
     'The saving node runs once per iteration, after all nodes from Reset '
     'down, and asks its condition once. Whenever it answers yes, the files '
     'hold the agents and the data of every iteration so far, in order, as '
     'they were at the end of each one, as many frames as rows; whatever '
     'happens afterwards (an error of any node, the end of the run) takes '
     'nothing away. Metadata and geometry of the field are there from the '
     'start and load back equal. Simulations saving into one base directory '
     'do not touch the files of each other.',
     [H, I, F], 'every answer pattern of the condition, place of the node, '
     'error and interleaving of simulations',
     'The tests never save a simulation.',
     ['crowddynamics/simulation/logic.py', 'crowddynamics/io.py',
      'crowddynamics/simulation/base.py',
      'crowddynamics/simulation/multiagent.py'],
     [{'name': 'SaveSimulationData',
       'where': 'crowddynamics/simulation/logic.py'},
      {'name': 'save_npy, save_csv, save_geometry_json',
       'where': 'crowddynamics/io.py'}],
     'explicit-state enumeration of answer patterns, error points and '
     'interleavings on real simulations writing real files, against what a '
     'witness copied',
     'Exhaustive to the stated number of iterations.')

prop('C34', 'Geometries become segments, arrays and grid cells completely',
     'Every edge of every part of a geometry, holes included, becomes one '
     'segment and one linear obstacle, however parts are nested, and nothing '
     'else does; the array of a geometry lists all parts by kind. Drawn on a '
     'grid, a geometry sets exactly the cells of its lines and areas: lines '
     'without gaps, areas up to their border, holes left as they were, what '
     'lies outside of the grid ignored, in any order of the parts. No '
     'geometry means no obstacles; other things are refused.',
     [I], 'every geometry, nesting and place relative to the grid',
     'The tests convert a handful of shapes and compare one of them.',
     ['crowddynamics/core/geometry.py'],
     [{'name': 'geom_to_linesegment, geom_to_array, draw_geom',
       'where': 'crowddynamics/core/geometry.py'}],
     'exhaustive enumeration of geometries over a lattice on the real '
     'functions against exact integer geometry',
     'Exhaustive over the lattice; cells within a cell of the border of an '
     'area may count either way, except those on the border of the shell.')

prop('C35', 'An iteration adds all forces once and moves by their sum',
     'In one iteration of a simulation each agent is moved by the integration '
     'of the sum of the forces (and torques) of all nodes present, '
     'fluctuation, adjusting, other agents and obstacles, each taken once '
     'from the state before the iteration, in any order of these nodes; the '
     'sum is kept for the next iteration and the forces start from zero. '
     'Time grows by the step, within its bounds, iterations by one. '
     'Nothing else of the agents changes and simulations do not touch each '
     'other.',
     [H, I, C], 'every history of directions and draws, scene and tree',
     'The tests never compare what an iteration does.',
     ['crowddynamics/simulation/logic.py',
      'crowddynamics/simulation/multiagent.py',
      'crowddynamics/core/interactions.py', 'crowddynamics/core/integrator.py',
      'crowddynamics/core/motion/adjusting.py',
      'crowddynamics/core/motion/fluctuation.py',
      'crowddynamics/core/steering/orientation.py'],
     [{'name': 'Reset, Integrator, Adjusting, AgentAgentInteractions',
       'where': 'crowddynamics/simulation/logic.py'},
      {'name': 'MultiAgentSimulation.update',
       'where': 'crowddynamics/simulation/multiagent.py'}],
     'explicit-state enumeration of histories of whole real simulations, each '
     'step checked as a relation of states against plain-number physics',
     'Exhaustive to the stated depth; states in which rounding decides '
     'between two contacts are not continued.')

prop('C36', 'The fields and simulations of the package are sound',
     'Fields of any size have a domain of that size which holds their '
     'obstacles, targets and spawns; exits have the given widths and nothing '
     'stands in them; from every spawn all targets can be reached, and one '
     'leaves only through them. The geometry of fields follows changed sizes '
     'where they are observed. Simulations start with as many agents as '
     'asked for, inside of the spawns, off the obstacles and each other, '
     'with their roles and targets; each iteration drives them towards their '
     'direction, keeps everything finite and counts time.',
     [C, I], 'every size of the fields and every draw of the agents',
     'The tests of the examples need packages that are not installed, and '
     'only run them.',
     ['crowddynamics/examples/fields.py',
      'crowddynamics/examples/simulations.py',
      'crowddynamics/examples/collective_motion.py',
      'crowddynamics/examples/validation.py',
      'crowddynamics/simulation/agents.py', 'crowddynamics/simulation/field.py'],
     [{'name': 'HallwayField, RoomWithOneExit, FourExitsField',
       'where': 'crowddynamics/examples/fields.py'},
      {'name': 'Hallway, RoomWithOneExit',
       'where': 'crowddynamics/examples/simulations.py'}],
     'exhaustive enumeration of a grid of sizes and of the first random draws '
     'on the real classes; flood filling decides what can be reached',
     'Exhaustive over the stated sizes and first draws; later draws are fixed '
     'and evenly spread.')

prop('C37', 'Logic nodes act on the simulation as it is',
     'What a node of the logic does in an update is determined by the '
     'agents, the field and the settings as they are at that update: agents '
     'moved, added, removed or exchanged, geometry replaced, settings '
     'changed, and updates of other nodes or other simulations in between '
     'are all taken into account and leave no other trace. Nothing is '
     'remembered except in the records of the agents (whom they follow, '
     'previous forces), the counters of targets reached and, for the nodes '
     'which count agents inside of the domain and at targets, the domain and '
     'targets they were made for.',
     [H, I], 'every history of updates and changes in between',
     'The tests update nodes of fresh simulations only.',
     ['crowddynamics/simulation/logic.py', 'crowddynamics/simulation/field.py',
      'crowddynamics/core/interactions.py',
      'crowddynamics/core/steering/collective_motion.py'],
     [{'name': 'LogicNode.update of every node',
       'where': 'crowddynamics/simulation/logic.py'}],
     'explicit-state enumeration of histories of updates and changes on the '
     'real nodes, compared with a fresh node of a fresh simulation at every '
     'step',
     'Exhaustive to the stated depth over the stated worlds.')

prop('C38', 'Drawings show the field as it is',
     'A drawing of a field holds the outline of its domain, of every obstacle, '
     'spawn and target that is there, each at its coordinates and named in '
     'the legend by its index, and nothing else; the distance map lies over '
     'the domain and an arrow starts at every n-th node of the grid in the '
     'direction of the map there. The visible range is centred on the data, '
     'holds it with its margin and has the ratio of sides asked for. Figures '
     'are shown and saved only as asked for and only when complete. A drawn '
     'logic tree has every node and edge of the whole tree.',
     [I], 'every field, shape, extent of data, grid and tree',
     'No test draws anything.',
     ['crowddynamics/visualizations.py'],
     [{'name': 'add_geom, add_field, add_distance_map, add_direction_map, '
               'plot_field, set_aspect, figure, render_tree',
       'where': 'crowddynamics/visualizations.py'}],
     'exhaustive enumeration of fields, shapes, extents and trees on the real '
     'functions with a recording stand-in of the drawing package',
     'Exhaustive over the stated alphabets; nothing is said about pixels.')

prop('C39', 'Classes and functions are described as they are declared',
     'The table of a class has one row for every trait, own ones before '
     'inherited ones in the order of their declaration, with its name, '
     'symbol, default value and help, readable as the table it is marked up '
     'as; docstrings are completed with the given texts and the texts '
     'computed from the class, and nothing else about the class changes. The '
     'description of a function has every parameter except self, in order, '
     'with its default value and annotation.',
     [I], 'every class hierarchy, docstring and list of parameters',
     'None of these helpers has a test.',
     ['crowddynamics/traits.py', 'crowddynamics/utils.py'],
     [{'name': 'table_of_traits, class_traits, Rst',
       'where': 'crowddynamics/traits.py'},
      {'name': 'interpolate_docstring, parse_signature',
       'where': 'crowddynamics/utils.py'}],
     'exhaustive enumeration of class hierarchies, docstrings and parameter '
     'lists on the real functions, read back by independent parsers',
     'Exhaustive over the stated alphabets.')

prop('C40', 'Groups of agents have the members their settings describe',
     'At any time a group has exactly the members which its present size, '
     'type and attributes describe, none of them from earlier settings: one '
     'for each item of a collection (which also determines the size), or as '
     'many as the size from the next items of a generator or from one call '
     'each of a function, all of the type asked for and none shared. It has '
     'no members while one of the three is missing, and no item is used up '
     'then. This holds in whatever order and however often the three are '
     'set. Attributes that are not valid, or not enough, are refused. All '
     'members are placed, in order, as often as the group is added.',
     [I, H], 'every history of settings of a group',
     'The tests build groups in one go from random attributes.',
     ['crowddynamics/simulation/agents.py'],
     [{'name': 'AgentGroup', 'where': 'crowddynamics/simulation/agents.py'},
      {'name': 'Agents.add_non_overlapping_group',
       'where': 'crowddynamics/simulation/agents.py'}],
     'explicit-state enumeration of histories of settings on the real class '
     'against a model of the three settings',
     'Exhaustive over the stated settings and depths.')
