HEAD = r"""# Deciding semantic properties of esmini by property-based testing

(Written by `tools/gen_design.py` from `tools/design_text.py`, the checks and the property list.)

## 1. What is decided, and where

esmini is used through two C libraries: `esminiLib` (the scenario player: OpenSCENARIO on OpenDRIVE) and `esminiRMLib` (the road manager
alone). Everything a user relies on is visible there, so every check drives those public interfaces, from files (OpenDRIVE, OpenSCENARIO,
catalogs) that it generates itself, and judges only what the interfaces report: states of objects, storyboard and condition events
(callbacks), road queries, recordings. No check looks at the source text, no check needs hooks in /repo, and a change that keeps the
behaviour cannot be noticed.

The R properties are about the road network (placement, inverse lookup, moving, distance, queries), the S properties about scenario
execution (storyboard, triggers, conditions, actions, positions, parameters, kinematics, geometry of objects, sensors, object
management, recordings, repeatability).

## 2. Machinery

- `run.py <ID> --tier quick|thorough [--seed N]` builds both libraries from /repo's current working tree (a CMake project of our own in
  `build_src`, output in `/verif/build`, ignored by git; about 16 s from nothing, cmake and ninja on 8 cores) and runs one check.
- `lib/pbt.py` is the engine: case number *i* of a run with seed *s* is generated by `gen(rng(s, i))` as a JSON document; `run(case)` turns
  it into files, drives the library and compares with the oracle. Each case runs in its own forked process with a time and file size limit
  (so crashes, endless loops and exceptions through the C interface are results, not accidents), eight workers in
  parallel. Allocated and released memory is filled with a pattern (`mallopt(M_PERTURB)`) to make uses of released or uninitialised memory visible.
- A failing case is confirmed (three times more, with a longer time limit for hangs), then shrunk: generic JSON shrinking (drop list
  elements, simplify numbers and strings, plus candidates of the check) while the same kind of violation remains, and written to
  `replays/`. `run.py <ID> --replay FILE` runs it again.
- Oracles discard cases for which they have no sound answer (`Discard`); discards are counted. Evidence states generated, discarded and
  non-trivial cases, by the rule of each check (quoted below), classes of cases reached and samples.
- Quick: about 15-45 s of generated cases after the build; thorough: 15 minutes of cases, same oracles.
- `lib/odr.py` independent OpenDRIVE evaluator and file writer (lines, arcs, spirals by numerical quadrature, poly3, paramPoly3, elevation,
  superelevation, lane offset, widths, heights, sections); `lib/net.py` linked networks (roads of either orientation, sections with shifted
  lane ids, junctions, both traffic rules) with a model in travel coordinates; `lib/osc.py` scenario writer; `lib/kitchen.py` scenarios with
  everything; `lib/story.py` storyboard model; `lib/boxes.py` oriented boxes; `lib/capi.py`, `lib/sim.py` bindings.
- Known findings: `known_findings.json`. An entry with status `known` has the specific case; the check replays it at every run and prints
  KNOWN-FINDING if it still fails; the generators avoid exactly that circumstance, so that any other violation is reported. `fixed` entries
  suppress nothing.

Verification level of all checks: `exploration` (nothing is proved; the claims are "held on everything generated").

## 3. Properties
"""

PROPS = {
"R01": ("`lib/odr.py` evaluates the same road description independently (position, heading, pitch, roll, curvature, lane width).",
        "Tolerances 1e-3..1e-2 m for closed form geometries; poly3/paramPoly3, which esmini samples by arc length, get a tolerance from their own sampling error. Placements on record borders accept either side.",
        "History dependence (position objects that were elsewhere before) is generated explicitly."),
"R02": ("Round trip: a point with known road coordinates is evaluated by `lib/odr.py`, given as world coordinates, and must come back as the same road, s, t, lane.",
        "Points closer to another road, or equally close to two places of one road, are discarded; s and t compared within the accuracy of esmini's 1 m (OSI) sampling of the reference line.",
        ""),
"R03": ("The generated description itself: answers are looked up in the JSON from which the file was written.",
        "OSI based queries are not built in this sandbox.",
        "Invalid ids and indices are part of every case: they must be answered with the documented error and not disturb anything."),
"R04": ("The network model in travel coordinates (`lib/net.py`): a move adds to one coordinate; section and road borders and orientation are resolved by the model.",
        "Tree shaped networks (one junction with branches); lanes that end are avoided as they have no defined continuation.",
        ""),
"R05": ("Differences in travel coordinates of the model; positions on different branches are unreachable.",
        "No loops (the shortest way is unique); lane difference counted along links.",
        ""),
"S01": ("A reference state machine of OpenSCENARIO's storyboard (init/standby/running/complete, start, end, stop, skip transitions, priorities, execution counts) written from the standard and the user guide.",
        "Order of events within a step follows the documented order of elements; ambiguous cases (several conflicting things in the same step whose result the documentation leaves open) are discarded.",
        "Histories of hundreds of steps with interacting elements."),
"S02": ("A reference evaluator of condition groups with edges, delays and rules, fed with the values the check has set.",
        "Values avoid comparing floating point numbers at the last bit; delays avoid exact ties with time steps.",
        ""),
"S03": ("Independent geometry (boxes, road coordinates of a straight road) on the reported states.",
        "Thresholds closer than the tolerance to the measured value are skipped. Straight roads only, as esmini approximates free space in road coordinates elsewhere.",
        ""),
"S04": ("Closed forms of the transition shapes, limited by performance; integrated over the same steps.",
        "Over-distance transitions use esmini's documented meaning; distance transitions reaching the speed limit of the vehicle are avoided (left alone, see section 5).",
        ""),
"S05": ("Closed form of the lateral profile as function of time, distance or rate; lateral acceleration limit gives the peak relation.",
        "Lateral rate large compared with speed is left out (esmini bends the heading only up to a limit).",
        ""),
"S06": ("Invariants over the history: finite differences of reported poses give velocity, acceleration, rates, odometer; road coordinates must describe the reported world position.",
        "Quantities that were reported from outside are compared with the report instead.",
        ""),
"S07": ("Definition of each position form, evaluated with `lib/odr.py`.",
        "One road of any shape, or (relative lane positions) a network of linked roads with several lane sections; routes and trajectories as positions are covered by S16 and S15.",
        ""),
"S08": ("Scope model (innermost declaration wins, assignments evaluated in the outer scope) with interval arithmetic for expressions.",
        "esmini prints results with six decimals into further strings; intervals take this into account.",
        "Rejection of undeclared names and malformed expressions is also required (no crash, no silent default)."),
"S10": ("Differential: bit by bit the same trace in a fresh process and after other scenarios in the same process, with getters in between.",
        "Same binary and same seeds; wall clock dependent options are not used.",
        ""),
"S11": ("Differential: states reported by the API after each step = decoded recording = dat2csv output; for cuts: exactly the complete records before the cut.",
        "Values that the format stores as float are compared as floats.",
        "Crash points: the file may end at any byte."),
"S12": ("`lib/boxes.py`: separating axis test and exact distance of oriented boxes.",
        "Near-touching boxes (1 cm) are skipped.",
        ""),
"S13": ("Field of view (range, opening angle, direction) computed from the reported states and bounding box centres/corners.",
        "Objects at the very border of the field of view are skipped.",
        ""),
"S14": ("Model of the list of objects and their poses; error codes as documented in the header file.",
        "Threads are out of scope (the library is documented single threaded).",
        "Operation sequences including ids that exist no more, closing and starting again."),
"S15": ("Independent evaluation of polyline, clothoid, clothoid spline and NURBS curves with their timing.",
        "NURBS are compared with a tolerance for esmini's sampling; what tests pin although it is questionable (initial speed with position mode, stopping at the start when moving backwards) is accepted.",
        ""),
"S16": ("Metamorphic: one action shared by two actors and executed repeatedly = separate actions, one per actor and execution, started in the same steps.",
        "Timed NURBS are left out (see section 5). Conflicts within one action type are resolved in the same order in both scenarios.",
        "Finds state that leaks between actors or executions in any action without a model of the action."),
"S17": ("Network model in travel coordinates (`lib/net.py`): the path of the route gives road, lane and heading for every distance travelled.",
        "One junction with 2-3 branches, 1-3 roads before and 1-2 after it, up to 4 vehicles, up to two routes each.",
        ""),
}

MIDDLE = r"""
## 4. Not applicable

- OSI output (osi_version, OSIReporter): the OSI library is not available offline, esmini is built without it here; nothing can be observed.
- Graphics (OpenSceneGraph viewer): not built here.
- Listed as not claimed in MANIFEST.json: none; everything in properties.jsonl is decided by a check.

## 5. Findings

All were found by the checks on the original tree, reproduced with shrunk cases, and repaired unless stated otherwise.
"""

SEEDS = r"""
Behaviour found questionable but left alone, because tests or documentation pin it or it is a matter of definition: skip transitions are
not reported by the callback; `inRoadDrivingDirection` quirk of the road manager; execution counts on repeated group execution; Stop passes
through standby; speed action over distance above the maximum speed; expressions have six decimals; entities at the end of the road keep
their speed until the next step; lateral movement comes on top of the longitudinal one; closed trajectories stop at their end; initial
speed of timed polylines in position mode; banking compensation of lock-on-lane. The checks accept these.

Timed NURBS executed repeatedly with an initial distance offset differ slightly from their first execution; it is not understood well enough
to call it a defect and excluded from S15/S16.

### False alarms that were corrected

While developing, alarms that turned out to be the oracle's fault led to: tolerances at record borders and for sampled geometries (R01, R02),
discarding of points with several equally close roads (R02), of events whose start and stop conditions coincide in a step (S01), of conditions
at ties (S02, S03), a slack for heading while driving backwards (S05), of sensor borders (S13), acceptance of either meaning where the user guide
leaves it open (S15: moving back over the start). All of these are properties of the oracle, stated in the check, not suppressions.

## 6. Planted bugs

Each was written from the property text and the code, confirmed to build, to pass the stable tests, and to be shown by its demo.
Besides these, about 90 smaller mutants were tried in scratch copies during the work (not kept); those missed at first led to
stronger generators: reports of wheel and velocity data (S06), trailers of targets (S12), several lane sections (R04), interrupted actions (S05),
heading of paths (S05), memory patterns (all).
"""

CAUGHT = {}

TAIL = r"""
## 7. Costs

Build from nothing 16-20 s; quick checks 30-70 s each including the build; thorough about 15 minutes each. Memory below 4 GB.
"""
