RM = "EnvironmentSimulator/Modules/RoadManager/"
RML = "EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp"
SEL = "EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp"
SE = "EnvironmentSimulator/Modules/ScenarioEngine/"
SRC = SE + "SourceFiles/"
OSC = SE + "OSCTypeDefs/"
CTRL = "EnvironmentSimulator/Modules/Controllers/"
PB = "EnvironmentSimulator/Modules/PlayerBase/"

P = [
dict(id="R01", title="Lane and road coordinates map to the world pose OpenDRIVE defines",
     statement="Placing an object at a lane position (road, lane, offset, s) or road position (road, s, t) yields exactly the world position and orientation that the OpenDRIVE "
               "description of that road defines (reference line, elevation, superelevation, lane offset, lane widths, lane heights, header offset), and the reported road heading, pitch, "
               "curvature, lane width and coordinates are those of that point. The result does not depend on where the object was placed before.",
     over=["inputs", "histories"], forall="all valid road descriptions (any chain of line/arc/spiral/poly3/paramPoly3 geometries with any profile records) x all positions on them x all previous placements",
     why="The unit tests look at a few hand made roads at a few positions, with position objects that were placed once; boundaries between records and combinations of profiles are hardly touched.",
     files=[RM + "RoadManager.cpp", RML],
     mech=[("geometry evaluation", RM + "RoadManager.cpp: Line/Arc/Spiral/Poly3/ParamPoly3::EvaluateDS"), ("lane coordinates", RM + "RoadManager.cpp: Position::SetLanePos, Lane2Track, Track2XYZ"),
           ("profiles", RM + "RoadManager.cpp: Road::GetZAndPitchByS, UpdateZAndRollBySAndT, LaneSection::GetWidth, GetCenterOffset")],
     tech="generated OpenDRIVE networks and placement histories against an independent OpenDRIVE evaluator",
     note="Random networks, thousands per quick run, 30 placements each; sampled geometry types (poly3, paramPoly3) are compared with a tolerance."),
dict(id="R02", title="World coordinates map to the road, s, t and lane at that point",
     statement="Placing an object by world coordinates on a road surface reports that road, the s and t of the point and the lane containing it (or the closest lane of the requested lane types), "
               "whatever position the object had before. The world position itself is kept, and z, heading, pitch and roll are interpreted absolute or relative to the road as requested.",
     over=["inputs", "histories"], forall="all road networks without ambiguous overlap x all points on a road x all previous positions x all placement calls and position modes",
     why="Unit tests probe a handful of points on a handful of roads, mostly from a fresh position object; the lookup keeps state (last road, last sample point) and its answer must not depend on it.",
     files=[RM + "RoadManager.cpp", RML],
     mech=[("closest road search", RM + "RoadManager.cpp: Position::XYZ2TrackPos"), ("lane lookup", RM + "RoadManager.cpp: Position::Track2Lane, Road::GetClosestLaneInfo"),
           ("position modes", RM + "RoadManager.cpp: Position::SetInertiaPosMode, EvaluateRoadZHPR")],
     tech="generated networks and world placement histories; round trip road coordinates -> world (independent evaluator) -> road coordinates",
     note="Points are generated from known road coordinates; points near crossing or touching roads are left out as ambiguous."),
dict(id="R04", title="Moving along the road follows lanes and links by the given distance",
     statement="Moving an object a distance along the road, or looking ahead that distance, ends exactly that far along its lane, crossing lane section and road borders along the lane and road links "
               "independent of road orientation, taking the junction branch closest to the requested angle, and keeping lane offset and relative heading. The end of the network is reported as such and "
               "the position stays at it; looking ahead never changes the object's position.",
     over=["inputs", "histories"], forall="all linked road networks x all start positions and headings x all sequences of moves, forward and backward, and look-ahead queries",
     why="Unit tests move along a few shipped networks, where lane ids seldom shift between sections and roads are mostly linked end to start.",
     files=[RM + "RoadManager.cpp", RML],
     mech=[("movement", RM + "RoadManager.cpp: Position::MoveAlongS, MoveToConnectingRoad"), ("lane links", RM + "RoadManager.cpp: Road::GetConnectedLaneIdAtS, LaneSection::GetConnectingLaneId"),
           ("look-ahead", RM + "RoadManager.cpp: Position::GetProbeInfo, GetRoadLaneInfo")],
     tech="model-based histories of moves and queries on generated linked networks, model in travel coordinates",
     note="Networks are chains with at most one junction; all links are one to one."),
dict(id="R05", title="Distance between positions is the travel distance along the road network",
     statement="The difference between two positions reports the distance along the road from the first to the second (positive when ahead of the first object with respect to its heading), the lateral "
               "difference and the number of lanes between them, across any chain of connected roads independent of their orientation and lane sections. Positions that no road chain connects are reported as unreachable.",
     over=["inputs", "configurations"], forall="all linked road networks x all pairs of positions and headings",
     why="Unit tests measure a few pairs on shipped networks; sign and lane mapping depend on orientation of every road on the way.",
     files=[RM + "RoadManager.cpp", RML],
     mech=[("route search", RM + "RoadManager.cpp: RoadPath::Calculate, CheckRoad"), ("difference", RM + "RoadManager.cpp: Position::Delta, Distance")],
     tech="generated linked networks and position pairs against distances computed in travel coordinates",
     note="Lane links are one to one and the first position's lane is linked all the way."),
dict(id="S02", title="A trigger fires exactly when its conditions say so",
     statement="A start trigger is true exactly when all conditions of at least one of its condition groups hold, where each condition applies its rule (=, !=, <, <=, >, >=) to the current value of a variable, parameter or the "
               "simulation time, its edge (none, rising, falling, risingOrFalling) relative to the previous evaluation, and its delay. An event starts in the step where its trigger becomes true and in no other, for any number of executions.",
     over=["inputs", "histories"], forall="all triggers (groups, conditions, rules, value types, edges, delays) x all histories of value changes and time steps",
     why="The truth of a condition with edge and delay depends on the whole history of checks; unit tests use a few scenarios with one or two conditions each and a fixed time step.",
     files=[OSC + "OSCCondition.cpp", OSC + "OSCCondition.hpp", SRC + "StoryboardElement.cpp"],
     mech=[("condition evaluation", OSC + "OSCCondition.cpp: OSCCondition::Evaluate, CheckEdge, ConditionDelay"), ("groups", OSC + "OSCCondition.cpp: Trigger::Evaluate, ConditionGroup::Evaluate"),
           ("values", OSC + "OSCCondition.cpp: TrigByVariable, TrigByParameter, TrigBySimulationTime")],
     tech="generated triggers and value histories against a reference trigger evaluator",
     note="Value conditions only (variables, parameters, time); thousands of histories per quick run."),
dict(id="S01", title="Storyboard elements follow their life cycle, priorities and execution counts",
     statement="Stories, acts, maneuver groups, maneuvers, events and actions go through standby, running and complete exactly as their triggers, priorities and maximum execution counts demand: an event starts when its trigger fires, "
               "overwrite ends the other running events of its maneuver, skip does not start beside a running event, parallel runs beside them; an action ends running actions of the same domain of the same object; an element completes when all its children have completed; "
               "a group or event is repeated up to its count and never beyond; a stop trigger completes everything below it; state conditions on other elements see every state they pass. Every change is reported by the state change callback.",
     over=["inputs", "histories"], forall="all storyboards x all trigger combinations (time, variables, states of other elements) x all histories of variable changes and time steps",
     why="The order of trigger evaluation, ending, resetting and restarting across nested elements has a large state space; the unit tests run a few scenarios and look at a few states.",
     files=[SRC + "StoryboardElement.cpp", SRC + "Storyboard.cpp", SRC + "Action.cpp", OSC + "OSCCondition.cpp"],
     mech=[("state machine", SRC + "StoryboardElement.cpp: Start, Stop, End, EvalTriggers, PropagateStateFromChildren, Reset"), ("priorities and domains", SRC + "Storyboard.cpp: Event::Start"),
           ("state conditions", OSC + "OSCCondition.cpp: TrigByState")],
     tech="generated storyboards and histories against a reference state machine (model-based testing)",
     note="One actor per maneuver group; groups that repeat have events with count one or unlimited; thousands of storyboards per quick run."),
dict(id="S04", title="Speed actions follow the requested transition within the performance limits",
     statement="From the step it starts, a speed action takes the object's speed from its current value to the target (absolute, or relative another object as delta or factor) along the requested shape (step, linear, sinusoidal, cubic) "
               "over the requested time, distance or rate, stretched only as far as the vehicle's maximum acceleration (speed increasing) or deceleration (speed decreasing) demands and capped at its maximum speed. It completes in the step where the transition is over, "
               "with exactly the target speed, which is then held; a continuous action keeps running. A new action interrupts the old one and starts from the current speed, and every repetition behaves like the first execution. The object moves speed times dt along its lane in every step.",
     over=["inputs", "histories"], forall="all speed actions x all performance limits x all sequences of starts, interruptions and repetitions x all time step sequences",
     why="The unit tests check a few transitions at a few times with one time step; interruption, repetition, reverse driving, limits and uneven steps combine freely.",
     files=[OSC + "OSCPrivateAction.cpp", OSC + "OSCPrivateAction.hpp"],
     mech=[("speed action", OSC + "OSCPrivateAction.cpp: LongSpeedAction::Start, Step"), ("transition dynamics", OSC + "OSCPrivateAction.cpp: TransitionDynamics"), ("motion", SRC + "ScenarioEngine.cpp: defaultController")],
     tech="generated action sequences and step histories against closed form transitions",
     note="Straight road; targets following a changing reference are checked against limits, end value and completion only."),
dict(id="S05", title="Lane change and lane offset actions follow the requested transition",
     statement="A lane change takes the object from its current lateral position to the centre of the target lane (absolute id, or counted from another object's lane without counting lane zero, in that object's driving direction) plus target offset, along the requested shape over the "
               "requested time, distance or rate, independent of curvature, lane widths and driving direction. A lane offset action does the same within the lane, with a duration given by the maximum lateral acceleration. The action completes in the step where the transition is over, exactly at the target lateral "
               "position and in the target lane; afterwards the position is kept. While changing lane the object travels speed times dt along its path, with its nose in the direction of motion. An interrupting action starts from the position reached so far.",
     over=["inputs", "histories"], forall="all lane change and lane offset actions x all roads and directions x all sequences of starts and interruptions x all time step sequences",
     why="The unit tests check a few transitions at a few times; relative targets, driving directions, lane offsets, interruption and uneven steps combine freely.",
     files=[OSC + "OSCPrivateAction.cpp", OSC + "OSCPrivateAction.hpp"],
     mech=[("lane change", OSC + "OSCPrivateAction.cpp: LatLaneChangeAction::Start, Step"), ("lane offset", OSC + "OSCPrivateAction.cpp: LatLaneOffsetAction::Start, Step"), ("transition dynamics", OSC + "OSCPrivateAction.cpp: TransitionDynamics")],
     tech="generated action sequences and step histories against closed form transitions",
     note="Single road with constant lane widths and constant curvature."),
dict(id="S03", title="Entity conditions measure what they say, for any or all triggering entities",
     statement="A condition on entities is true in a step exactly when the measured quantity of the current objects satisfies it: distances to objects and positions (longitudinal, lateral, Euclidean; in entity or road coordinates; between reference points or bounding boxes), time headway, "
               "time to collision, speed, relative speed, acceleration, angle, reached position, collision, stand still and off-road duration, travelled distance and clearance. With rule 'any' one triggering entity is enough, with 'all' every one of them must satisfy it; an undefined quantity satisfies nothing. "
               "The result depends only on the current scene, not on the order of entities or on earlier evaluations.",
     over=["inputs", "histories"], forall="all sets of objects, bounding boxes and motions x all entity conditions and thresholds x all sets of triggering entities",
     why="Unit tests evaluate a few conditions with one triggering entity each; signs, overlaps, undefined values and the any/all combination depend on the scene.",
     files=[OSC + "OSCCondition.cpp", SRC + "Entities.cpp"],
     mech=[("conditions", OSC + "OSCCondition.cpp: TrigBy*::CheckCondition, EvalDone"), ("distances", SRC + "Entities.cpp: Object::Distance, FreeSpaceDistance*, CollisionAndRelativeDistLatLong, TimeToCollision")],
     tech="generated scenes and conditions against independent geometry",
     note="Flat straight road of any direction; thresholds within 1e-4 of the measured value are not judged. One known finding (free space distance to a point in road coordinates)."),
dict(id="S12", title="Collisions, free space and trailers follow the bounding boxes of all parts",
     statement="With collision detection on, after every step the collision list of each object names exactly the other objects whose bounding boxes overlap its own (and that are not on another level), symmetrically and without duplicates, however objects moved. Free space distance and time to collision "
               "between vehicles with trailers is the minimum over all parts of both combinations, whichever part is asked for. A towed trailer's coupler is on the hitch of the vehicle in front after every step. The sampled distance of SE_SimpleGetDistanceToObject is a value that was true at its time stamp, and never older than promised.",
     over=["inputs", "histories"], forall="all sets of objects, boxes, trailers and positions x all histories of reported positions",
     why="Unit tests check a few scenes; overlap of rotated boxes, start and end of contact, combinations with trailers on either side and repeated queries depend on the history.",
     files=[SRC + "Entities.cpp", SRC + "ScenarioEngine.cpp"],
     mech=[("collisions", SRC + "ScenarioEngine.cpp: DetectCollisions"), ("boxes", SRC + "Entities.cpp: CollisionAndRelativeDistLatLong, FreeSpaceDistance, Distance"), ("trailers", SRC + "Entities.cpp: AlignTrailers; ScenarioEngine.cpp: step"), ("sampled distance", SRC + "ScenarioEngine.cpp: GetDistance, UpdateDistance")],
     tech="generated scenes and histories against independent box geometry",
     note="Straight flat road for road coordinates; the sign of lateral distances in road coordinates is not judged; separations within 1e-3 m are not judged."),
dict(id="S07", title="Every form of position puts the entity at the place it describes",
     statement="World, lane, road, relative lane (ds or dsLane), relative road, relative object and relative world positions, with absolute or relative orientation, place a teleported entity at the pose that the OpenSCENARIO definition gives for the current pose of the referenced object: "
               "lane counting skips lane zero, offsets are in road or driving direction as stated, distances along roads, headings relative to road, lane direction or object, heights relative to the road. Init teleports resolve references in any order, and chains of references follow the current, not the initial, positions.",
     over=["inputs", "histories"], forall="all roads x all forms of positions and orientations x all chains of references x all times",
     why="Unit tests try a few positions each on a few roads; signs depend on side of the road, traffic rule, orientation and on the pose the reference has at that moment.",
     files=[SRC + "OSCPosition.cpp", "EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp"],
     mech=[("parsing", SRC + "ScenarioReader.cpp: parseOSCPosition, moveInitObjectActions"), ("relative positions", "EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp: Position::EvaluateRelation"), ("teleport", OSC + "OSCPrivateAction.cpp: TeleportAction")],
     tech="generated scenarios against an independent pose computation",
     note="Single roads, and networks of linked roads for relative lane positions; foot points of world positions on curved and sloping roads are only approximate in esmini and are compared with matching tolerance."),
dict(id="S10", title="A scenario runs the same, whatever ran before and whatever is asked on the way",
     statement="A valid scenario loads and runs without crash or hang. With the same seed and the same sequence of steps it produces exactly the same simulation, bit by bit: every object state, storyboard and condition event and variable in every step, whether it runs in a fresh process or after any other scenarios, "
               "completed, abandoned, or rejected as invalid, and whether or not its state is queried between the steps.",
     over=["inputs", "histories"], forall="all scenarios x all earlier scenarios in the same process x all interleaved queries",
     why="Unit tests run scenarios one at a time and compare a few values; leftovers in static state and side effects of queries show only in histories of several scenarios.",
     files=["EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp", SRC + "ScenarioEngine.cpp", SRC + "ScenarioReader.cpp", "EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp"],
     mech=[("init and close", "EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp: SE_Init*, SE_Close, resetScenario"), ("static state", SRC + "ScenarioReader.cpp: parameters, variables, storyboard_element_triggers; CommonMini.cpp: SE_Env, SE_Rand"), ("controllers", "EnvironmentSimulator/Modules/Controllers/*: Step"), ("all actions", OSC + "OSCPrivateAction.cpp")],
     tech="differential: fresh process against process with history, over generated kitchen-sink scenarios",
     note="Options set with SE_SetOption are part of the input and are not varied between the runs."),
dict(id="S08", title="Parameters, variables and expressions mean the same in every scope",
     statement="Every attribute given by a parameter or an expression gets the value that the expression has (usual operator precedence, all documented operators, functions and constants, to six decimals) with the parameter values of its scope: declarations in catalogs, stories, maneuvers and vehicles shadow outer ones inside, and only inside; "
               "assignments of a catalog reference replace defaults for that instance only; values set in the declaration callback replace declared ones, and everything depending on them is evaluated anew. Getters, setters and set, add and multiply actions of parameters and variables respect names and types. "
               "References to undeclared names and invalid expressions are rejected.",
     over=["inputs", "histories"], forall="all declarations, expressions and nestings of scopes x all overriding values x all sequences of modifications",
     why="Unit tests evaluate some fixed expressions and a few scenarios; precedence, text substitution, shadowing and restoring of scopes combine freely.",
     files=[SRC + "Parameters.cpp", SRC + "ScenarioReader.cpp", SRC + "simple_expr.c", "externals/expr/expr.h", SRC + "ScenarioEngine.cpp"],
     mech=[("parameters", SRC + "Parameters.cpp: ReadAttribute, parseParameterDeclarations, RestoreParameterDeclarations, set/getParameterValue*"), ("expressions", "externals/expr/expr.h: expr_create, expr_eval; simple_expr.c"), ("catalogs", SRC + "ScenarioReader.cpp: ResolveCatalogReference"), ("callback", SRC + "ScenarioEngine.cpp: parseScenario, EraseClean*")],
     tech="generated declarations, expression trees and scopes against a scope model with interval arithmetic",
     note="Results whose exact value depends on rounding at a discontinuity are not judged. String concatenation only of words and numbers."),
dict(id="R03", title="Queries on the road network answer what the OpenDRIVE file says",
     statement="Whatever the road network: roads and junctions are found by their ids (numeric or string) and by index, with their length; lanes by type mask and index, with type and width at any s; the number and ids of drivable lanes, lane type at a position, speed limit in m/s and its original unit, road type and traffic rule at any s; "
               "road signs with position, dimensions, orientation and validity records; the geo reference. Scenario positions address the same roads by the same ids. Handles, ids and indices out of range are refused with the documented error value, never answered with other data and never by a crash.",
     over=["inputs"], forall="all road networks x all roads, s values, lane masks, indices and handles, in range or not",
     why="Unit tests query some roads of a few files; ids that look like numbers, missing units or records, masks and out-of-range arguments are not sampled.",
     files=["EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp", "EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp", "EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp"],
     mech=[("queries", "EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp: RM_Get*"), ("parsing", "EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp: OpenDrive::LoadOpenDriveFile, EstablishUniqueIds"), ("ids in scenarios", SRC + "ScenarioReader.cpp: ResolveRoadIdFromStr")],
     tech="generated OpenDRIVE networks against the generating model",
     note="The heading of signs is only judged where lanes are parallel to the reference line."),
dict(id="S06", title="Velocity, acceleration, rates, odometer and road position match the motion",
     statement="After every step, for every object and whatever moves it (actions, controllers, trailers, external reports): velocity is the displacement over the step, acceleration and angular rates the change of velocity and heading, local acceleration their projection, the odometer grows by exactly the distance moved (not by teleports) and never shrinks, the wheels of a vehicle turn by the distance rolled, forwards or backwards, and steer as the change of heading demands, "
               "simulation time is the sum of the steps, and road, lane, s, t and offset describe the same place as x and y. Values reported from outside, before the step or in the object callback, are taken over exactly and those not reported are derived from them.",
     over=["inputs", "histories"], forall="all scenarios x all step sequences x all sequences of reports",
     why="Unit tests compare some values of fixed scenarios; the relations have to hold for each way of moving, mixes of reported and derived values, empty and uneven steps, wrapping angles.",
     files=[SRC + "ScenarioEngine.cpp", "EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp", SRC + "Entities.cpp", "EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp"],
     mech=[("derived motion", SRC + "ScenarioEngine.cpp: prepareGroundTruth, step"), ("reports", "EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp: SE_ReportObject*"), ("dirty bits", "EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp: Frame; CommonMini.hpp: DirtyBits"), ("road coordinates", "EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp: XYZ2TrackPos")],
     tech="kinematic invariants over generated scenarios and report sequences",
     note="Objects at the end of the road are stopped by esmini even if a speed is reported. Road coordinates of world positions are compared with esmini's sampling tolerance."),
dict(id="S11", title="A recording replays the simulation, also when cut off",
     statement="A recording (.dat) contains for every recorded time exactly the state every object had: pose, speed, road coordinates, wheels, controller, visibility, size, name, from its appearance to its deletion, whatever the steps; decoding it (directly, or with dat2csv, also resampled) yields these states at these times, in order. "
               "A file cut off at any byte still yields all complete time steps before the cut, without crash or hang.",
     over=["inputs", "histories", "crash_points"], forall="all scenarios x all step sequences x all points at which writing stops",
     why="Unit tests compare recordings of fixed scenarios; values are recorded only when they change, so objects coming, going, stopping and changing in unusual order decide, and truncated files are hardly sampled.",
     files=["EnvironmentSimulator/Applications/replayer/Replay.cpp", "EnvironmentSimulator/Applications/replayer/dat2csv.cpp", "EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.hpp", "EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp"],
     mech=[("writing", "EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.*: DatWriter"), ("reading", "EnvironmentSimulator/Applications/replayer/Replay.cpp: Replay, CreateMergedDatfile"), ("conversion", "EnvironmentSimulator/Applications/replayer/dat2csv.cpp")],
     tech="round trip over generated scenarios, with injected truncation",
     note="Cuts inside the file header are only checked for absence of crash."),
dict(id="S13", title="Object sensors list exactly the objects in their field of view",
     statement="After every step the list of an ideal object sensor holds exactly the objects, other than its host, that are visible for sensors and whose reference point lies within near and far distance and within half the opening angle of the sensor direction, as seen from the mounting "
               "point on the host in its current pose; never more than the capacity of the sensor, each object once, and nothing for a host that was deleted. Visibility actions, added and deleted objects take effect in the same step.",
     over=["inputs", "histories"], forall="all object poses x all sensor mountings, ranges, opening angles and capacities x all histories of visibility changes, additions and deletions",
     why="No unit test looks at sensor lists with sideways mounting, more objects than capacity, or deleted objects.",
     files=[SRC + "IdealSensor.cpp", PB + "playerbase.cpp", SEL],
     mech=[("field of view", SRC + "IdealSensor.cpp: ObjectSensor::Update"), ("sensor list", SEL + ": SE_AddObjectSensor, SE_FetchSensorObjectList"), ("visibility", OSC + "OSCPrivateAction.cpp: VisibilityAction")],
     tech="generated object and sensor histories against an independent field of view computation",
     note="Objects within a small margin of the border may be listed or not."),
dict(id="S14", title="Objects can be added, reported, queried and deleted at any time",
     statement="Objects added or deleted through the library interface appear or vanish at once: number, order, ids, names, types, boxes, properties and states of the remaining objects are unaffected, new ids are never reused, trailers go with the vehicle that tows them, and no collision "
               "list, sensor list, distance or callback refers to a deleted object. Calls with an unknown or deleted object id or index, or without a scenario, return the documented error value and change nothing. Reported poses are kept by added objects until the next report. "
               "Each registered object callback is called once per step with its own data, and not after SE_Close.",
     over=["histories", "inputs"], forall="all sequences of add, delete, report, step, query, callback, sensor, close and init calls x all valid and invalid arguments",
     why="Unit tests never delete an object and make few calls with bad arguments; interactions between deletion and later calls are not sampled at all.",
     files=[SEL, SRC + "Entities.cpp", PB + "playerbase.cpp"],
     mech=[("object list", SRC + "Entities.cpp: addObject, removeObject"), ("interface", SEL + ": SE_AddObject, SE_DeleteObject, SE_GetId, getObjectById, SE_RegisterObjectCallback")],
     tech="stateful generated call sequences against a model of the object list",
     note="Objects the storyboard acts upon are not deleted through the interface."),
dict(id="S15", title="Trajectories are followed exactly, in space and time",
     statement="An object following a trajectory is on the curve described by its shape (polyline, clothoid, clothoid spline, NURBS; absolute and relative vertices as of the start of the action) in every step: without timing, by the distance it has driven since the start; with timing, where the time "
               "stamps (scaled, offset, in the absolute or relative domain) put it, at the speed this implies. Its heading is the tangent or the specified heading, also when reversing. At the end it goes on straight for the rest of the step, and the action ends in that step, for every actor and every execution alike.",
     over=["inputs", "schedules", "histories"], forall="all trajectory shapes x timing x following modes x step sequences x actors, repetitions, interruptions and speed changes",
     why="Unit tests follow a few fixed trajectories with one step size, once, with one actor and mostly starting at time zero.",
     files=[OSC + "OSCPrivateAction.cpp", RM + "RoadManager.cpp"],
     mech=[("action", OSC + "OSCPrivateAction.cpp: FollowTrajectoryAction"), ("shapes", RM + "RoadManager.cpp: PolyLineShape, ClothoidShape, ClothoidSplineShape, NurbsShape, RMTrajectory::Freeze")],
     tech="generated trajectories and step sequences against closed-form curves (Gauss-Legendre clothoids, de Boor NURBS, piecewise motion)",
     note="Closed trajectories, starting from standstill, and NURBS with timing are not compared; corners are bounded."),
dict(id="S16", title="An action acts alike for each of its actors, at every execution",
     statement="What a private action does depends only on its specification and the state of its actor and of referenced entities at the time it starts: an action with several actors does for each of them "
               "exactly what an action with that single actor does, and its second and later executions do exactly what a first execution started in the same step would do, whatever "
               "interrupted or completed earlier ones. This holds for speed, speed profile, lane change, lane offset, longitudinal and lateral distance, trajectory, route, position, synchronize, teleport, light, visibility, "
               "override and controller actions with all their options.",
     over=["inputs", "histories"], forall="all private actions and options x all pairs of actors x all histories of execution, interruption and repetition",
     why="Unit tests run each action once, with one actor; state kept from an earlier execution, or shared between actors, does not show.",
     files=[OSC + "OSCPrivateAction.cpp", OSC + "OSCPrivateAction.hpp", SRC + "Storyboard.cpp", SRC + "ScenarioReader.cpp"],
     mech=[("one action per actor", SRC + "ScenarioReader.cpp: parseOSCPrivateAction"), ("start of actions", OSC + "OSCPrivateAction.cpp: Start methods"),
           ("repetition", SRC + "Storyboard.cpp: Event::Start")],
     tech="generated scenarios, run twice: shared and repeated actions against separate single use actions (metamorphic relation)",
     note="Traces of both runs must agree in every step; no model of the actions is needed. Timed NURBS trajectories are left out."),
dict(id="S17", title="A vehicle with a route follows it through every junction",
     statement="A vehicle with an assigned route, or a position to acquire, takes at every junction the road that its route takes, whatever the orientation of the roads, their lane sections and the angles of the alternatives: it moves forward by the distance its speed demands, in the lane that continues its own over section and road borders, "
               "heading along its lane, on the roads of the route only, also when a new route is assigned on the way; several vehicles follow their own routes independently. The reported route consists of the given waypoints and one on every road between them, in order and in the lane of the path, and its length is the distance along the roads from the first to the last waypoint.",
     over=["inputs", "histories"], forall="all road networks x all routes x all speeds and steps x all times of assignment",
     why="Unit tests drive a few routes on two or three networks; orientation of roads, lane sections between waypoints, several waypoints on a road and assignment on the way combine freely.",
     files=[RM + "RoadManager.cpp", OSC + "OSCPrivateAction.cpp", SEL],
     mech=[("route", RM + "RoadManager.cpp: Route::AddWaypoint, SetTrackS, MovePathDS, SetPathS"), ("path finding", RM + "RoadManager.cpp: RoadPath::Calculate, CheckRoad"), ("junctions", RM + "RoadManager.cpp: Position::MoveToConnectingRoad"), ("actions", OSC + "OSCPrivateAction.cpp: AssignRouteAction, AcquirePositionAction"), ("queries", SEL + ": SE_GetRoutePoint, SE_GetRouteTotalLength")],
     tech="generated networks, routes and assignments against a model of the network in travel coordinates",
     note="Networks with one junction; the first waypoint is on the road where the vehicle is, since esmini ignores a route that the vehicle is not on."),
]
