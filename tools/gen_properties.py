#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
I = 'include/DynamicObstacleAvoidance/'
AG, ENV, MOD = ['src/Agent.cpp', I+'Agent.hpp'], ['src/Environment.cpp', I+'Environment.hpp'], ['src/Modulation.cpp', I+'Modulation.hpp']
OBS = ['src/Obstacle/Obstacle.cpp', I+'Obstacle/Obstacle.hpp']
ELL = ['src/Obstacle/Ellipsoid.cpp', I+'Obstacle/Ellipsoid.hpp']
AGG = ['src/Obstacle/Aggregate.cpp', I+'Obstacle/Aggregate.hpp']
HUL = ['src/Obstacle/StarShapeHull.cpp', I+'Obstacle/StarShapeHull.hpp']
POSE = ['src/State/Pose.cpp', I+'State/Pose.hpp']
STATE = ['src/State/State.cpp', I+'State/State.hpp']
MATH = ['src/Utils/MathTools.cpp', I+'Utils/MathTools.hpp']
GEN = ['src/Utils/ObstacleGeneration/Aggregation.cpp', I+'Utils/ObstacleGeneration/Aggregation.hpp']
PLT = ['src/Utils/Plotting/PlottingTools.cpp', I+'Utils/Plotting/PlottingTools.hpp']

prop('C01', 'Agents are values: copies are complete, independent and never shared',
 'A copied, assigned or transformed agent reports the same margin, velocities and envelope rule as its source (a transformed one differs only by its pose, and the envelope that follows from it). Changing either of the two afterwards never changes anything the other one reports, its envelope included. The source of a copy or of a transformation is left exactly as it was.',
 ['histories', 'inputs'], 'every agent, every pose to transform by, every later sequence of mutations of the copy or of the source',
 'No test copies an agent; the aliasing only shows for a copy that is mutated later, for arbitrary histories.',
 AG, [('copy construction and assignment', 'Agent::Agent(const Agent&), Agent::operator='), ('transformed copy', 'Agent::transformed')],
 [('envelope', 'ellipsoid owned by the agent', I+'Agent.hpp')], ['agent getters', 'envelope getters'])

prop('C02', 'The safety envelope of an agent always reflects its current state',
 'After any construction and any sequence of changes of an agent, its envelope equals the one a new agent built with the same pose, velocities and margin would have. The envelope is centred ahead of the agent along its direction of motion (on the agent when it is at rest), its longest half-axis points along the heading, and it always extends by at least the safety margin around both the agent and the centre.',
 ['histories', 'inputs'], 'all constructors, all mutators in any order, all velocities (zero included) and margins',
 'Tests only build agents and set their velocity once; a stale or lagging envelope depends on the order of the mutations.',
 AG, [('envelope refresh in every mutator', 'Agent::update_envelope and its callers')],
 [('envelope', 'look-ahead ellipsoid used to switch the avoidance on', I+'Agent.hpp')], ['Agent::get_envelope'])

prop('C03', 'Every stored orientation is a unit quaternion of the rotation asked for',
 'Whatever quaternion (of any length and sign) a pose, state, obstacle or agent is built from or given later, the orientation it reports is a unit quaternion that describes the same rotation. Composing, inverting and copying poses keeps it so.',
 ['inputs', 'histories'], 'all quaternions, all ways of building or changing a pose, all compositions of poses',
 'Tests use unit quaternions almost only; the invariant ranges over all quaternions and all histories.',
 POSE + STATE + OBS + AG, [('normalisation', 'Pose constructors, Pose::set_orientation')],
 [('orientation', 'unit quaternion of a pose', I+'State/Pose.hpp')], ['get_orientation of Pose, State, Obstacle and Agent'])

prop('C04', 'Poses form a group acting on points',
 'Applying a composed pose to a point gives the same result as applying the right pose and then the left one, and composing in place gives the same pose as composing into a new one. A pose composed with its inverse, on either side, is the identity; the inverse undoes the application to any point; the identity pose changes nothing. None of these operations changes its operands, apart from composing in place which changes its left operand only.',
 ['inputs'], 'all poses and points',
 'The tests of poses sample a handful of rotations about one axis, on which most errors of order or of frame cancel.',
 POSE, [('composition, inverse and action', 'Pose::operator*=, Pose::operator*, Pose::inverse')], (), ['Pose operators'])

prop('C05', 'Geometric queries only depend on relative placement, in the right frames',
 'Moving an obstacle, its reference point and the points or agents it is queried with by one and the same rigid motion changes no distance, no inside/outside answer and no intersection answer, and moves every returned point with it. Normals are given in the frame of the obstacle that is asked; modulation matrices, repulsions and the final velocity are given in the world frame. No query adds, compares or returns quantities that are expressed in different frames.',
 ['inputs'], 'all placements and orientations of obstacles and agents (rotations about the vertical axis where the library works in the plane)',
 'Tests place obstacles at the origin or with no rotation, where a missing or a repeated change of frame is invisible.',
 ELL + HUL + AGG + MOD + AG, [('change of frame', 'get_pose().inverse() * point at the start of each query'), ('back to the world', 'Modulation::compute_modulation_matrix')], (), ['compute_distance_to_point', 'point_is_inside', 'compute_normal_to_agent', 'compute_interesection_points', 'compute_modulation_matrix', 'modulate_velocity'])

prop('C06', 'Quantities are dimensionally consistent (uniform scaling)',
 'Scaling every length of a scene (positions, half-axes, margins, velocities) by one factor leaves distances to obstacles, inside/outside answers, normals, modulation matrices and weights unchanged. Points, hull radii and velocities scale with the factor and areas with its square.',
 ['inputs'], 'all scenes and all scale factors, apart from the fixed absolute thresholds that the library documents',
 'Tests work at one scale only, where a power too many or too few is a constant factor among others.',
 ELL + HUL + MOD, [('normalisation of coordinates by the half-axes', 'Ellipsoid::compute_distance_to_point and siblings')], (), ['compute_distance_to_point', 'area', 'compute_interesection_points', 'compute_modulation_matrix'])

prop('C07', 'Modulation eigenvalues: blocked at contact, never reversed, identity far away',
 'At or inside the surface (distance at most 1) the eigenvalue along the reference direction is exactly 0 and the tangential ones exactly 2; beyond it the former lies in [0,1), the latter are equal and lie in (1,2], they always sum to 2, and they move monotonically towards 1 as the distance grows. A larger reactivity factor never weakens the avoidance, and the modulation matrix applies exactly these eigenvalues.',
 ['inputs'], 'all distances (negative, zero, below, at and beyond 1) and all positive reactivity factors',
 'The tests evaluate a few distances; bounds and monotonicity quantify over a continuum, and the breaking inputs sit at the boundary.',
 MOD, [('eigenvalues', 'Modulation::compute_diagonal_eigenvalues')], (), ['compute_diagonal_eigenvalues', 'compute_modulation_matrix'])

prop('C08', 'Obstacle weights: non-negative, sum to one, only critical obstacles if any',
 'For any list of distances the weights are non-negative and sum to one. As soon as one obstacle is at or below the critical distance, the critical obstacles share the weight equally and all others get exactly zero; otherwise every weight is positive and a closer obstacle never weighs less than a farther one. Each weight belongs to the obstacle with the same rank in the list.',
 ['inputs'], 'all numbers of obstacles, all distances, critical distances and positive powers',
 'No test looks at the weights; equal or boundary distances and mixed critical and non critical lists are never sampled.',
 MOD, [('weights', 'Modulation::weight_obstacles')], (), ['weight_obstacles', 'modulate_velocity'])

prop('C09', 'The commanded velocity is always finite',
 'Whatever the configuration (agent on a surface, on a centre or at rest, coinciding obstacles, repulsion on or off), the velocity returned by the modulation has no NaN and no infinite component. When the computation degenerates the result is exactly zero velocity.',
 ['inputs', 'configurations'], 'all scenes and options, including those in which an intermediate value overflows or is undefined',
 'Degenerate configurations are isolated points of the input space, which sampled tests miss.',
 MOD, [('final guard', 'end of Modulation::modulate_velocity')], (), ['modulate_velocity'])

prop('C10', 'Free motion is untouched',
 'With no obstacle, or in local mode with an envelope that meets no obstacle, the returned velocity is exactly the velocity of the agent. In every other case all listed obstacles take part in the modulation, whether or not the local mode is on.',
 ['inputs', 'configurations'], 'all agents, environments and options',
 'The tests only check one free configuration; which option enables which shortcut is not observable on it.',
 MOD + AG + OBS, [('shortcuts', 'start of Modulation::modulate_velocity')], (), ['modulate_velocity'])

prop('C11', 'Obstacle motion: relative velocity in, same velocity out',
 'The modulation acts on the velocity of the agent minus the weighted sum over the obstacles of their surface velocity at the agent (linear plus angular velocity crossed with the lever arm from the centre of the obstacle), and adds exactly that sum back to the result. Each contribution is scaled by its weight and by a factor that is 1 at contact, lies in (0,1] and never grows with the distance. With obstacles at rest nothing is added.',
 ['inputs'], 'all obstacle velocities, positions, distances and weights, any number of obstacles',
 'Moving obstacles are only exercised by a smoke test without any assertion.',
 MOD, [('relative velocity', 'Modulation::compute_relative_velocities'), ('adding it back', 'Modulation::modulate_velocity')], (), ['compute_relative_velocities', 'modulate_velocity'])

prop('C12', 'Repulsion acts only when asked, only near, and points out of the obstacle',
 'The velocity of the agent is only ever changed by repulsion when the option is on, and only by obstacles whose distance to the agent is below the threshold. The repulsion of a solid obstacle points from its reference point to the agent; that of an aggregate points the same way for an agent outside of it and the opposite way inside. Its strength never grows with the distance.',
 ['inputs', 'configurations'], 'all agents, obstacles, margins, thresholds and options',
 'No test turns the repulsion on with an assertion.',
 MOD + OBS + ELL + AGG, [('threshold', 'Obstacle::generate_repulsion'), ('direction', 'compute_repulsion_vector of each kind'), ('strength', 'Obstacle::get_repulsion_factor')], (), ['generate_repulsion', 'compute_repulsion_vector', 'modulate_velocity'])

prop('C13', 'Queries are pure: same scene, same answer, nothing changed',
 'Distance, normal, inside, intersection, path, area, sampling, modulation and drawing queries change no observable attribute of the agent, the obstacles or the environment, keep no memory from one call to the next and use no randomness. The only exception is the planar mode of the modulation, which moves nothing but the reference points of the obstacles. Distinct objects never share hidden mutable state.',
 ['histories', 'schedules'], 'all sequences of queries on all scenes',
 'A hidden write or a static cache only shows for particular sequences of calls; tests call each query once per object.',
 MOD + OBS + ELL + AGG + HUL + AG + MATH, [('const member functions and value parameters', 'all queries')], (), ['all query functions'])

prop('C14', 'Environment registry: unique names, typed errors, no partial change',
 'Adding an obstacle makes exactly that obstacle retrievable under its name and leaves the others alone; adding a second one with a registered name, or removing or looking up a name that is not registered, raises the dedicated exception and changes nothing. Removing a name makes that one, and only that one, unavailable. Registration does not depend on the options or on the order of the calls.',
 ['histories', 'inputs'], 'all sequences of additions, removals and look-ups, all names',
 'The tests add and remove at most one obstacle; interference between entries needs longer histories.',
 ENV + [I+'Exceptions/ObstacleAlreadyExistsException.hpp', I+'Exceptions/ObstacleNotInEnvironmentException.hpp'], [('registry', 'Environment::add_obstacle, remove_obstacle, operator[]')],
 [('obstacle_map', 'registered obstacles by name', I+'Environment.hpp')], ['Environment operations'])

prop('C15', 'Updating the environment lists every registered obstacle exactly once',
 'After an update the list used for the avoidance contains every registered obstacle exactly once, itself (not a copy) or inside exactly one aggregate, and nothing else; earlier content never survives. Without aggregation it contains the registered obstacles themselves and no aggregate. Updating never changes what is registered.',
 ['histories', 'configurations'], 'all registries, both aggregation settings, all earlier histories',
 'The tests update environments with a few fixed scenes.',
 ENV + GEN, [('list rebuild', 'Environment::update'), ('aggregation', 'Aggregation::aggregate_obstacles')],
 [('obstacle_list', 'obstacles used by the modulation', I+'Environment.hpp')], ['Environment::update', 'Environment::get_obstacle_list'])

prop('C16', 'Aggregation partitions obstacles into their connected components',
 'Two obstacles end up in the same aggregate exactly when a chain of intersecting obstacles links them. Obstacles that intersect nothing stay themselves, every aggregate has at least two members, no obstacle is lost or duplicated, and every aggregate leaves the aggregation with hulls that were computed from its final members.',
 ['inputs'], 'all finite sets of obstacles and all intersection relations between them, in any order',
 'The merging of partial groups depends on the order in which the links are found; the tests only use two or three groups.',
 GEN + AGG, [('grouping', 'Aggregation::aggregate_obstacles')], (), ['Aggregation::aggregate_obstacles'])

prop('C17', 'Aggregates stay consistent with their members',
 'However an aggregate was assembled, its name is built from the sorted names of its members, its position and reference point are the mean of their positions, and every member shares its reference point. Once it is refreshed, both hulls are centred there and describe all current members. Building it at once or one member at a time, in any order, gives the same aggregate.',
 ['histories', 'inputs'], 'all sets of members and all orders and ways of adding them',
 'Tests build one aggregate one way; consistency is about all ways to reach the same membership.',
 AGG + HUL, [('construction and growth', 'Aggregate constructors, Aggregate::add_primitive, Aggregate::set_reference_position')],
 [('primitives', 'members', I+'Obstacle/Aggregate.hpp'), ('inside_hull/outside_hull', 'star shaped hulls', I+'Obstacle/Aggregate.hpp')], ['Aggregate getters', 'its distance and inside queries'])

prop('C18', 'The kind of an obstacle always tells its real type',
 'Every way of building or copying an obstacle of a concrete kind leaves it with the kind name of its real class and nothing changes it later. Code that treats an obstacle as a particular kind does so only where that kind has been established.',
 ['inputs', 'histories'], 'all constructors of all kinds, all downcasts',
 'A wrong kind or cast is undefined behaviour that only shows for particular combinations of kinds.',
 OBS + ELL + AGG + HUL + AG + GEN, [('kind names', 'constructors calling set_type'), ('downcasts', 'static_cast in Obstacle, Agent, Aggregation')],
 [('type', 'name of the kind', I+'Obstacle/Obstacle.hpp')], ['get_type', 'is_intersecting'])

prop('C19', 'Every obstacle kind really answers the queries asked through a base handle',
 'Each query a caller can make through a generic handle (normal, distance, inside, drawing, intersection, closedness, printing, and for members of an aggregate line intersection) reaches the implementation of the actual kind, never a placeholder or another kind. Intersecting is answered for every pair of ellipsoids and aggregates, in both orders.',
 ['programs', 'inputs'], 'all kinds of obstacle and all queries of the common interface',
 'Tests mostly call the concrete class; a signature that does not override, or a missing implementation, silently answers with a constant.',
 OBS + ELL + AGG + HUL, [('virtual dispatch', 'virtual functions of Obstacle and their overrides')], (), ['Obstacle interface'])

prop('C20', 'Everything reported is initialised',
 'Every attribute an object reports after any of its constructors, and every value a query computes from it, is determined by the arguments: no uninitialised memory is read, whatever the constructor and whichever branch is taken.',
 ['inputs', 'histories'], 'all constructors, all observers, all paths',
 'Uninitialised memory usually happens to be zero in tests.',
 POSE + STATE + OBS + ELL + AGG + HUL + AG + ENV + MOD, [('member initialisation', 'constructors')], (), ['getters and queries of every class'])

prop('C21', 'Angular look-up in a hull is total and periodic',
 'For every query angle the look-up yields two valid, cyclically consecutive surface samples: the first sample not below the angle and its successor, wrapping to the first one past the end. No query on a hull reads outside its samples.',
 ['inputs'], 'all angles, the ends of the range included, and all hull resolutions',
 'Out of range indices only occur on the small angular interval past the last sample.',
 MATH + HUL, [('look-up', 'MathTools::find_closest_points')], (), ['find_closest_points', 'StarShapeHull queries'])

prop('C22', 'Sampling helpers meet their contract',
 'Linear sampling returns exactly the asked number of evenly spaced values, starting and ending exactly at the given ends, and raises a catchable standard exception for fewer than two; grid sampling returns every pair of the two samplings exactly once, the second coordinate running fastest. Converting a point to polar coordinates and back is the identity for every point, the origin included, sorting samples by angle only permutes them (the comparison of two samples is a strict order by their angles), the sign of a number is -1, 0 or 1 as it is negative, zero or positive, and a random number lies between its bounds.',
 ['inputs'], 'all intervals, all sizes, all points',
 'Not covered by any test; the count and the ends matter for all sizes.',
 MATH, [('linspace, gridspace, polar conversions', 'src/Utils/MathTools.cpp')], (), ['MathTools functions'])

prop('C23', 'Margins and half-axes only ever make obstacles bigger',
 'Increasing a half-axis or a safety margin of an ellipsoid (none of them degenerate) never increases the distance reported for a point and never turns an inside answer into outside. The margins of the obstacle and of the agent both count, component by component, in distance and normal; the margin of the obstacle counts in inside, line and overlap tests, and in samples and area exactly when asked for; a larger agent margin never hides an intersection of the agent with an obstacle.',
 ['inputs'], 'all ellipsoids, all margins per axis, all points and agents',
 'Tests use no margin or equal margins on all axes, on which swapped or dropped margins are invisible.',
 ELL + OBS + AG, [('inflated lengths', 'Ellipsoid queries'), ('margin of the agent', 'Obstacle::compute_distance_to_agent, Agent::in_obstacle')], (), ['compute_distance_to_point', 'compute_distance_to_agent', 'point_is_inside', 'in_obstacle'])

prop('C24', 'Answers about several obstacles are the logical combination of the single ones',
 'Intersecting a list or an aggregate means intersecting at least one of its elements, and being inside an aggregate means being inside its outer hull or one of its members; its distance and normal are those of its inner hull for a point inside of it and those of its outer hull elsewhere. A path exists exactly when every closed obstacle has the agent and the target on the same side; open obstacles never block. Empty lists intersect nothing and block nothing, and the order of the elements never matters.',
 ['inputs'], 'all numbers of elements and all combinations of single answers',
 'The tests sample one combination per function; folds go wrong on the order or on the number of elements.',
 OBS + AGG + AG, [('folds', 'Obstacle::is_intersecting, Obstacle::is_intersecting_aggregate, Aggregate::point_is_inside, Agent::exist_path')], (), ['is_intersecting', 'point_is_inside', 'exist_path'])

prop('C25', 'Hulls are rebuilt from scratch, bounded below and on the right side',
 'The hull built from members and a centre depends on nothing else, in particular not on what it was before; every radius is at least the minimum radius, and a hull with no member is that circle. In each direction the inside hull follows the nearest and the outside hull the farthest surface point of the members on the ray from the centre, up to a smoothing that mixes in a small share of the neighbouring directions only. A hull reports being closed exactly when all its radii exceed the minimum by the closing tolerance.',
 ['histories', 'inputs'], 'all members, centres, resolutions and earlier contents of the hull',
 'No test rebuilds a hull; a stale neighbour changes radii by a few percent only.',
 HUL, [('hull construction', 'StarShapeHull::compute_from_primitives'), ('closedness', 'StarShapeHull::is_closed')],
 [('surface points', 'polar and cartesian samples', I+'Obstacle/StarShapeHull.hpp')], ['hull queries after each rebuild'])

prop('C26', 'Ownership: destroyable through any handle, nothing leaked or freed twice',
 'An obstacle may be destroyed through a generic handle, and objects that own memory release it exactly once, whatever is copied or assigned before. No query returns a reference or pointer to something that dies with the call.',
 ['programs', 'histories'], 'all kinds, all handles, all object lifetimes',
 'Such errors are undefined behaviour that tests pass by luck.',
 OBS + ELL + AGG + HUL + AG + ENV, [('virtual destructor, shared handles, by-value returns', 'class definitions')], (), ['destruction', 'returned references'])

prop('C27', 'Attributes are stored and reported faithfully, one at a time',
 'Each constructor argument ends up in the attribute it names and each unspecified attribute has its documented default; each mutator changes exactly its attribute (and the envelope, for agents; the reference points of its members, for aggregates), and each getter reports the value last set. Copies of poses, states and ellipsoids report the same attributes as their source.',
 ['inputs', 'histories'], 'all constructors, all attribute values, all sequences of mutators on all classes',
 'Tests set a few attributes with symmetric values, on which exchanged components or attributes are invisible.',
 POSE + STATE + OBS + ELL + AG + ENV, [('constructors, getters, setters', 'headers of every class')], (), ['getters'])

prop('C28', 'Normals are unit vectors and the frames built on them orthonormal',
 'Every normal a kind reports is a unit vector along the outward gradient of its own distance, or, for hulls, perpendicular to the edge between the two samples around the agent. The basis built around a normal and the frame built around a direction are orthonormal for every direction, the vertical one included, with that normal or direction as first axis; the reference basis has the unit direction from the reference point to the agent as first axis and the same tangent.',
 ['inputs'], 'all unit normals and directions, all curvature factors',
 'Tests only use planar directions, for which a missing normalisation or a broken fallback is invisible.',
 MOD + ELL + HUL + AGG, [('bases', 'Modulation::compute_basis_matrices, compute_dynamical_system_frame'), ('normals', 'compute_normal_to_agent of each kind')], (), ['compute_basis_matrices', 'compute_normal_to_agent'])

prop('C29', 'Drawings show the plane they are asked for',
 'Every curve, marker and label of an "xy" drawing uses the first and second coordinate of one and the same quantity and every one of an "xz" drawing the first and third; an unknown plane draws nothing wrong. The outline of an ellipsoid is drawn with its half-axes and, dashed, its safety outline with the half-axes plus the margin; each panel of a configuration shows all its elements in one plane, complete before it is saved or shown; a picture is saved exactly when a name is given and shown exactly when asked.',
 ['inputs', 'configurations'], 'all obstacles, agents, histories and both planes',
 'Plots are never asserted on.',
 PLT + ELL + AGG + HUL, [('drawing', 'draw of each kind, PlottingTools')], (), ['calls of the plotting library'])

prop('C30', 'Public headers stand alone',
 'Every public header compiles when it is the only one included, when it is included twice and together with any other, and the program that uses it links.',
 ['programs'], 'all headers, all orders of inclusion',
 'The tests include the headers in one fixed order.',
 [I], [('include guards and includes', 'all headers')], (), ['compilation of client programs'])

prop('C31', 'Textual dumps report every attribute under its name',
 'Printing a pose, state, agent or obstacle writes all of its attributes, each next to its own label, with the components in order, and changes nothing. The dump of a kind contains that of the common attributes and of all its members.',
 ['inputs'], 'all objects of all kinds',
 'Only looked at by eye.',
 POSE + STATE + OBS + ELL + AGG + AG, [('stream operators', 'operator<< and print')], (), ['operator<<'])

prop('C32', 'Line and ellipsoid: exact intersection for every direction of the line',
 'In the plane of the first two axes of an ellipsoid, the two points returned for a line lie on the line and on the inflated outline of the ellipsoid, for every direction of the line (axis-parallel ones included), and an intersection is reported exactly when the line meets the outline. A degenerate line reports none, and shifting the reference point uses the line along the velocity of the agent and puts it midway between the two points.',
 ['inputs'], 'all lines, ellipsoids, poses and margins',
 'Not covered by any test; vertical lines are a set of measure zero.',
 ELL + OBS, [('line intersection', 'Ellipsoid::compute_interesection_points'), ('reference point', 'Obstacle::shift_reference_point')], (), ['compute_interesection_points', 'shift_reference_point'])

prop('C33', 'An answer depends on what an obstacle is, not on how it is described',
 'Distance, normal, inside, overlap, line, sampling and area answers about an ellipsoid depend on its pose, half-axes, curvature factors and margin only: not on its name, its velocities or its reference point; and naming its axes differently (turning its frame by a quarter or a third turn and exchanging half-axes, margins and curvature factors accordingly) describes the same obstacle. An agent is in an obstacle when the ball of its margin (at least 0.1) around its position overlaps it; its overlap and path answers do not depend on its velocities or orientation. The commanded velocity depends neither on the names and the order of the obstacles nor on the orientation and spin of the agent.',
 ['inputs'], 'all ellipsoids, agents and scenes; one or two obstacles (three in the thorough tier)',
 'Tests use one description of each obstacle.',
 ELL + OBS + MOD, [('distance', 'Ellipsoid::compute_distance_to_point'), ('area', 'Ellipsoid::area'), ('agent in an obstacle', 'Agent::in_obstacle'), ('commanded velocity', 'Modulation::modulate_velocity')], (), ['compute_distance_to_point', 'is_intersecting', 'in_obstacle', 'area', 'modulate_velocity'])

prop('C34', 'The commanded velocity is the weighted mean of what each obstacle asks for',
 'With one obstacle the commanded velocity is its modulation matrix applied to the velocity relative to the obstacle, plus the velocity of the obstacle. With several, the speed relative to the obstacles is the mean of the modulated speeds by the obstacle weights, and the direction is the mean of the modulated directions (as angles to the relative velocity) by the same weights. While an obstacle is within the critical distance, those beyond it have no influence.',
 ['inputs'], 'all agents and obstacles of any kind; exact closed form for an agent along an axis and obstacles that ask for any velocity (one to three obstacles); every direction by comparison of value graphs',
 'Tests check a few trajectories; the combination is only visible for several obstacles with different weights.',
 MOD, [('weighted combination', 'Modulation::modulate_velocity'), ('weights', 'Modulation::weight_obstacles')], (), ['modulate_velocity'])

prop('C35', 'One surface: all queries agree on where the surface of an obstacle is',
 'For an ellipsoid the distance is 0 at its centre, grows along every ray from it (with the power of twice the curvature factor where that is the same for all axes) and is exactly 1 on its outline inflated by its margin (and by the margin asked with, which for an agent is its own). In the plane of its first two axes a point at a distance below 1 is reported inside and one above 1 outside, and the sampled outline points and the points where a line meets the ellipsoid have distance 1. For a hull, a point at a multiple t of a surface sample has distance t to an outer and 1/t to an inner hull, and is inside exactly when it is nearer to the centre than the surface.',
 ['inputs'], 'all poses, half-axes, margins, points, lines; hulls with any radii',
 'Tests ask single queries at a few points and never compare two queries with each other.',
 ELL + HUL + OBS, [('distance', 'Ellipsoid::compute_distance_to_point, StarShapeHull::compute_distance_to_point'), ('membership', 'point_is_inside'), ('samples and lines', 'Ellipsoid::sample_from_parameterization, Ellipsoid::compute_interesection_points')], (), ['compute_distance_to_point', 'point_is_inside'])

prop('C40', 'Agents converge to their attractor',
 'An agent that follows the modulated velocity of a dynamical system with a single attractor reaches the attractor, except from a set of starting points of measure zero.',
 ['inputs', 'histories'], 'all scenes and starting points', 'Tests simulate a few trajectories.',
 MOD, [('modulation', 'Modulation::modulate_velocity')], (), ['trajectories'])
prop('C41', 'Agents never enter an obstacle along a trajectory',
 'An agent that starts outside of all obstacles and follows the modulated velocity with a small enough time step stays outside.',
 ['inputs', 'histories'], 'all scenes and starting points', 'Tests simulate a few trajectories.',
 MOD, [('modulation', 'Modulation::modulate_velocity')], (), ['trajectories'])
prop('C42', 'The sampled intersection test finds every overlap',
 'Two ellipsoids whose inflated outlines overlap are always reported as intersecting, and disjoint ones never are.',
 ['inputs'], 'all pairs of ellipsoids', 'Tests use a few pairs.',
 ELL, [('sampling', 'Ellipsoid::is_intersecting_ellipsoid')], (), ['is_intersecting'])
prop('C43', 'The modulated velocity is continuous in the state',
 'The returned velocity varies continuously with the state of agent and obstacles as long as no obstacle crosses the critical distance.',
 ['inputs'], 'all scenes', 'Continuity needs all pairs of neighbouring states.',
 MOD, [('modulation', 'Modulation::modulate_velocity')], (), ['modulate_velocity'])
prop('C44', 'A velocity is computed within a bounded time',
 'One call of the modulation takes a time bounded by the number of obstacles times a constant, short enough for a control loop.',
 ['inputs', 'schedules'], 'all scenes', 'Tests do not measure it.',
 MOD, [('modulation', 'Modulation::modulate_velocity')], (), ['wall clock'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
