#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os

V, L, S = "src/vehicle.rs", "src/link.rs", "src/simulation.rs"
ACC, PF, LIGHT, CON, GRP, CRV = ("src/vehicle/acceleration.rs", "src/vehicle/pathfinding.rs", "src/light.rs",
                                 "src/conflict.rs", "src/group.rs", "src/link/curve.rs")
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": x, "meaning": "internal state the property depends on", "where": files[0]} for x in state]
    if observe:
        a["observe_at"] = observe
    if hook:
        a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Every step moves every vehicle by bounded, self-consistent kinematics",
     "In a step of dt seconds a vehicle's speed never becomes negative, never rises by more than its maximum acceleration times dt and never falls by more than 6 m/s² times dt. "
     "The distance it travels along its route - also when it crosses from one link to the next - is the average of its old and new speed times dt, so it never moves backwards and a stopped vehicle that stays stopped does not move.",
     ["inputs", "histories"], "all positions, speeds, vehicle attributes, surrounding vehicles, traffic controls and step lengths",
     "The one integration test runs a single vehicle from rest on an empty road with dt = 0.1 and only asserts that the position grows.",
     [V, ACC, S], [("velocity/position integration", V + " integrate"), ("acceleration clamp", ACC + " acc"), ("link advance", V + " advance")],
     ["pos_mid", "vel", "link_id after step"], ["position, velocity, pending acceleration"], "place a vehicle at an arbitrary position and speed")

prop("C02", "Followers react to the vehicle ahead as the intelligent driver model demands",
     "A vehicle behind another one - on the same link or on the next link of its route - accelerates exactly as the intelligent driver model allows for its own headway, maximum acceleration and comfortable deceleration and a 2 m standstill gap, and brakes hard when the bumper gap is 2 m or less. "
     "A smaller gap or a slower leader never makes it accelerate more, and a faster leader that is not closer than 2 m plus the headway never makes it brake.",
     ["inputs"], "all gaps, speeds of both vehicles, lengths, headways, accelerations and step lengths",
     "No test puts two vehicles on the road.",
     [ACC, L, V], [("IDM acceleration", ACC + " idm"), ("leader lookup on the link", L + " apply_accelerations"), ("leader lookup across links", L + " process_vehicles")],
     ["vel after step"], None, "place vehicles at arbitrary positions and speeds")

prop("C03", "A vehicle that is able to stop never runs into the vehicle ahead",
     "A vehicle that could stop half a metre behind the vehicle ahead of it by braking with 5.5 m/s², if that one braked with 6 m/s², still can after any step, so the two never touch and vehicles on a link never swap order. "
     "This holds whether the vehicle ahead is stopped, braking as hard as it can, or moving, and whether it is on the same link or the next one.",
     ["inputs", "histories"], "all safe starting states up to 20 m/s, vehicle lengths, and all sequences of steps up to 0.2 s (inductive), for four kinds of drivers",
     "No test puts two vehicles on the road, and safety is a statement about every reachable state, not one run.",
     [ACC, L, V, S], [("car following", L + " apply_accelerations"), ("IDM acceleration", ACC + " idm"), ("emergency clamp", ACC + " acc")],
     ["pos_front / pos_rear after step"], None, "place vehicles at arbitrary positions and speeds")

prop("C04", "Speed limits are kept, approached and anticipated",
     "A vehicle at or below its desired speed - the link's limit times its own adjustment factor - never exceeds it, a faster one slows down in every step, and a slower one with a free road ahead speeds up. "
     "A vehicle about to enter a slower link brakes for it as soon as meeting the new limit takes more than its comfortable deceleration, with as much as it takes but at most twice the comfortable deceleration, and is not slowed before that.",
     ["inputs", "histories"], "all speeds, limits, adjustment factors, distances to the slower link and step lengths",
     "The integration test never reaches the limit and has one link.",
     [ACC, L], [("current limit", ACC + " apply_current_speed_limit"), ("upcoming limit", ACC + " apply_speed_limit"), ("who is limited", L + " apply_accelerations")],
     ["vel after step"], None, "place vehicles at arbitrary positions and speeds")

prop("C05", "A frozen vehicle brakes fully, stays stopped, and can be released",
     "While a vehicle is frozen it decelerates at 6 m/s² until it stands still and then does not move, regardless of the road, controls and other vehicles around it. "
     "The frozen status reads back as last set for that vehicle only, freezing twice is the same as once, and after one unfreeze the vehicle drives exactly as if it had never been frozen.",
     ["inputs", "histories"], "all vehicle states, orders of freeze/unfreeze/remove calls and step lengths",
     "No test freezes a vehicle.",
     [S, ACC], [("frozen list", S + " set_vehicle_frozen / apply_frozen_vehicles"), ("emergency stop", ACC + " emergency_stop")],
     ["vel, pos_mid, get_vehicle_frozen"], ["frozen vehicle list"], "place vehicles at arbitrary positions and speeds")

prop("C06", "Conflicting traffic light movements never run together",
     "Two movements that name each other in their conflict masks are never both non-red, provided no phase asks for both at once. "
     "A red movement turns green only if every movement whose mask names it has shown red for longer than that movement's red time.",
     ["inputs", "histories"], "all conflict masks, phase masks, amber and red times, durations and step sequences up to the bound",
     "No test touches traffic lights.",
     [LIGHT], [("green permission", LIGHT + " can_turn_green"), ("state update", LIGHT + " step")],
     ["TrafficLight::state"], ["movement state and time since change"])

prop("C07", "Traffic lights cycle in order and hold amber and green for the set times",
     "A movement only ever changes green to amber, amber to red (or back to green if requested again) and red to green; amber lasts at least its amber time and less than one step longer. "
     "Phases run in the order added and wrap around; a phase ends only once all its movements have been green together for its duration, and then ends within one step. "
     "The links of a movement are open exactly while it is green and closed otherwise, and a light without phases keeps everything red.",
     ["inputs", "histories"], "all masks, times and step sequences up to the bound",
     "No test touches traffic lights.",
     [LIGHT, S], [("phase advance", LIGHT + " update_phase"), ("movement timing", LIGHT + " Movement::step"), ("link control", LIGHT + " get_states, " + S + " update_lights")],
     ["TrafficLight::state", "whether a vehicle is let into a controlled link"], ["phase index, movement timers"])

prop("C08", "Vehicles stop before closed links and pass open ones",
     "A vehicle that can stop half a metre before a closed link (red or amber light, set closed, or none to go on to) by braking with 5 m/s² still can after any step, so it never passes the stop line while the link stays closed. "
     "A vehicle that was too close to stop when the link was open still goes through, and an open link never holds up a vehicle.",
     ["inputs", "histories"], "all distances, speeds up to 20 m/s, vehicle attributes in range, control changes and sequences of steps up to 0.2 s (inductive)",
     "No test has a second link or a control.",
     [L, ACC, V, LIGHT], [("stop line processing", L + " apply_stoplines"), ("stopping for a line", ACC + " stop_at_line"), ("commitment", V + " can_stop / enter_link")],
     ["pos_front, link_id after step"], ["committed link count"], "place vehicles at arbitrary positions and speeds")

prop("C09", "Yielding vehicles wait for priority traffic and take turns",
     "A vehicle facing a give-way or stop control only enters after it came within the control's distance (and, at a stop sign, stopped), and only if no conflicting vehicle with higher priority can reach the conflict area earlier than half a second after it has cleared it; once that is so, it does enter. "
     "Between equal priorities the one that queued first goes first, traffic with a lower priority or facing a closed link that has not committed is not waited for, and until it may enter the vehicle stays before the line.",
     ["inputs", "histories"], "all positions and speeds of the yielding and the conflicting vehicle, priorities, distances and control kinds",
     "No test has a conflict, a yield or a second link.",
     [L, V, CON], [("entry decision", L + " apply_stoplines / can_enter"), ("gap check", L + " check_gap"), ("queue order", V + " integrate, get_route")],
     ["whether the vehicle crosses the line / brakes for it"], ["queue sequence number"], "place vehicles at arbitrary positions and speeds")

prop("C10", "No vehicle is lost, duplicated or listed on the wrong link",
     "Every vehicle that was added and neither removed nor exited is listed exactly once, on the link it reports to be on, in order of position; it lies between that link's start and (up to one step of travel) its end. "
     "Removing a vehicle makes it disappear for everyone at once, removing it again does nothing, and other vehicles are not affected.",
     ["histories", "inputs"], "all interleavings of add, remove, step and lane change up to the bound, all speeds and step lengths",
     "The test uses one vehicle which never leaves its link.",
     [S, L, V], [("link vehicle lists", L + " insert_vehicle / remove_vehicle"), ("advancing", S + " advance_vehicles"), ("removal", S + " remove_vehicle")],
     ["iter_vehicles, link_id, pos_mid"], ["vehicles of each link"], "read a link's vehicle list; place vehicles")

prop("C11", "Vehicles follow connected links to their destination and leave only there",
     "A vehicle only ever moves along a connection from its link to the next, or by an allowed lane change, and whenever its destination can be reached from where it is the link it takes keeps it reachable. "
     "It leaves the simulation only past the end of its destination link, and it does leave there without waiting; with no destination, or one that was never reachable, it waits at the end of its link. "
     "Of two ways it takes the one with the shorter travel time.",
     ["configurations", "inputs", "histories"], "all small networks, destinations, positions, speeds and destination changes up to the bound",
     "No test has a second link or a destination.",
     [PF, V, S, L], [("route search", PF + " reroute / calc_lane_matrix / make_paths"), ("path choice", V + " choose_path / set_path"), ("exit", L + " apply_stoplines, " + V + " advance")],
     ["link_id after each step, presence in iter_vehicles"], ["route, exit permission"], "place vehicles at arbitrary positions and speeds")

prop("C12", "Lane change permissions follow the mask exactly",
     "In a group of n links each link's permitted lane changes are exactly the left and right neighbours whose bits are set for it. "
     "Its reachable lanes are exactly those reachable by chaining permitted changes in one direction, itself included, and lane B is listed as reachable from lane A if and only if A is listed among the lanes B can be reached from.",
     ["configurations", "inputs"], "all masks and group sizes 2 to 5",
     "No test builds a link group.",
     [GRP, L, S], [("mask decoding", GRP + " lc_bit / lane_changes"), ("reachability", GRP + " reachable_lanes / reachable_from_lanes")],
     ["lane_changes, reachable_lanes, reachable_from_lanes"])

prop("C13", "A lane change is continuous and ends on the new lane's centre line",
     "Starting a lane change does not make the vehicle jump: its world position stays where it was and moves continuously with each step, drifting monotonically from its old offset to the new lane's centre line and reaching it exactly the requested distance later, also when it crosses onto the next link meanwhile. "
     "The vehicle is from then on on the new link, its speed is unchanged, and after the change it keeps to the centre line.",
     ["inputs", "histories"], "all positions, speeds, lateral offsets, lane change distances and step lengths",
     "No test changes lanes.",
     [S, V, CRV, "src/math/cubic.rs"], [("lane change start", S + " do_lane_change"), ("offset", V + " update_coords / advance / integrate"), ("cubic", "src/math/cubic.rs fit / y")],
     ["position, direction, pos_mid, link_id"], ["lane change in progress"], "place vehicles at arbitrary positions and speeds")

prop("C14", "Sampling a link anywhere is memory safe and follows its geometry",
     "Sampling a link at any position whatsoever, including negative, far too large or not-a-number, never reads outside the link's data nor panics. "
     "Within the link the sampled points start and end at the ends of the given curve, advance one metre per metre of position without jumps, have unit tangents along the direction of travel, and lateral offsets are measured at right angles to the left or right consistently.",
     ["inputs", "configurations"], "all 64-bit floating point positions, all positions and offsets on a set of straight and curved links of whole and fractional length",
     "The unit test samples 100 positions on one curve and checks distances only.",
     [CRV, "src/math/curve/algorithms.rs", "src/math/curve/bezier.rs"], [("segment lookup", CRV + " sample_internal"), ("resampling", "src/math/curve/algorithms.rs equidistant_points_along_curve"), ("sampling", CRV + " sample / sample_centre")],
     ["LinkCurve::sample, sample_centre, length"])

prop("C15", "A vehicle's world pose matches its place on the road",
     "After every step a vehicle's world position is the point of its link at its position (plus its lane change offset), and its direction is a unit vector that on a straight road points along it. "
     "Its rear line lies half a vehicle length behind its centre, at right angles to the road, and covers at least its full width around its offset.",
     ["inputs", "histories"], "all positions, speeds, dimensions, wheel bases and step lengths, on straight links and over a link boundary",
     "No test looks at world coordinates.",
     [V, "src/vehicle/dynamics.rs", CRV], [("coordinates", V + " update_coords"), ("heading", "src/vehicle/dynamics.rs calc_direction")],
     ["position, direction, rear_coords"], ["world position and direction"], "place vehicles at arbitrary positions and speeds")

prop("C16", "Cubic and Bézier curve algebra is exact",
     "A fitted cubic takes the requested values and slopes at both points, its derivative is the derivative of its value, and translating it shifts it. "
     "Bézier curves start and end at their end points, their derivatives match their samples, subdividing yields two curves tracing the same points, raising a quadratic or a line to a cubic preserves it, and reversing runs it backwards. "
     "Curves that do not provide derivatives get approximate ones.",
     ["inputs"], "all coefficients, control points and parameters in the stated ranges",
     "The tests try 100 fixed random fits at their end points and three samples of one quadratic curve.",
     ["src/math/cubic.rs", "src/math/curve/bezier.rs", "src/math/util.rs"], [("fit", "src/math/cubic.rs fit / y_and_dy / translate_x"), ("sampling", "src/math/curve/bezier.rs sample / sample_dt"), ("subdivision", "src/math/curve/bezier.rs subdivide / quadratic / line / reverse")],
     ["CubicFn, QuadraticBezier2d, CubicBezier2d, LineSegment2d public functions"])

prop("C17", "The minimum reach time is the true fastest time",
     "The minimum time for a vehicle to reach a point ahead is exactly the time of accelerating at its maximum to the given top speed (or keeping its speed if already faster) and holding it: never negative, zero for points at or behind the vehicle, growing with distance. "
     "A vehicle driving according to that schedule covers exactly that distance in that time.",
     ["inputs"], "all positions, speeds, maximum accelerations, target positions and top speeds",
     "The unit test checks six points, none with a speed above the top speed or a target behind the vehicle.",
     [ACC, V], [("reach time", ACC + " min_reach_time"), ("distance clamp", V + " min_reach_time")],
     ["Vehicle::min_reach_time"], None, "place vehicles at arbitrary positions and speeds")

prop("C18", "Projecting points onto curves and back is consistent",
     "Projecting a point closer to a curve than its bends are wide gives the position of the closest point on it within the requested error, from any starting guess or none, and recovers position, lateral offset and relative heading at a point sampled from a link. "
     "Crossing curves are reported as intersecting at a common point, and curves that stay apart are not reported to intersect.",
     ["inputs"], "all points and lateral offsets around straight links, all crossings of straight segments within the bounds",
     "The existing tests of the algorithms use single fixed inputs.",
     ["src/math/curve/algorithms.rs", CRV], [("projection", "src/math/curve/algorithms.rs project_point_onto_curve"), ("inverse sampling", CRV + " inverse_sample"), ("intersection", "src/math/curve/algorithms.rs intersect_curves")],
     ["project_point_onto_curve, LinkCurve::inverse_sample, intersect_curves"])

prop("C19", "Interval and lookup table arithmetic is sound for every input",
     "Two intervals overlap exactly if the gap between them is negative, the distance to a point is non-positive exactly if the interval contains it, interpolation and its inverse undo each other and hit the ends, and shifting, mid-point and length agree. "
     "A lookup table covers its range with one value per step sampled at the cell's centre and returns for any argument, even infinite or not-a-number, the value of the nearest cell without panicking.",
     ["inputs"], "all finite interval bounds and arguments, all 64-bit floats for lookups",
     "The unit test covers one table at ten arguments and no interval operation.",
     ["src/util.rs", "src/math/lut.rs"], [("interval operations", "src/util.rs"), ("table lookup", "src/math/lut.rs from_samples / sample")],
     ["Interval and LookupTable public functions"])

prop("C20", "Vehicles on crossing or merging links do not drive into each other",
     "When two vehicles on links declared to converge approach the shared area, the one further away yields: on crossing links it brakes for the start of the area, on merging links it follows the other one once that is inside. "
     "The vehicle further ahead is not slowed by the other, a vehicle that has left the area no longer matters, and the result does not depend on the order in which links or the convergence were declared.",
     ["inputs", "configurations"], "all positions and speeds of two vehicles on crossing and merging link pairs",
     "No test declares a convergence.",
     [CON, L, V], [("conflict area", CON + " ConflictPointLink::new"), ("yielding", CON + " apply_accelerations"), ("who is considered", CON + " find_vehicles")],
     ["vel after step"], None, "place vehicles at arbitrary positions and speeds")

prop("C21", "Vehicles in neighbouring lanes are followed only when in the way",
     "Within a lane group a vehicle ahead in another lane is braked for if its lateral extent comes within half a metre of the follower's path and is ignored if it stays clear of it, for lanes in any position of the group. "
     "A vehicle's projected place on a neighbouring lane matches its place in the world.",
     ["inputs", "configurations"], "all positions, speeds, widths and lane separations for groups of two and three parallel lanes",
     "No test builds a link group.",
     [GRP, L, V], [("projection between lanes", GRP + " LinkProjection, projection"), ("obstacle following", L + " follow_obstacles"), ("passing test", V + " can_pass")],
     ["vel after step"], None, "place vehicles at arbitrary positions and speeds")

prop("C22", "Splitting time into steps neither loses nor stalls updates",
     "Every step advances the frame counter by one and applies to every vehicle on every link; a vehicle's reaction is refreshed at least every 0.1 s of simulated time and lane decisions at least every 0.3 s, whatever the sequence of step lengths. "
     "Between refreshes the vehicle keeps its last acceleration, and the outcome for a vehicle does not depend on vehicles and links unconnected to it nor on the order in which they were added.",
     ["schedules", "inputs", "histories"], "all sequences of up to four step lengths and all vehicle states",
     "The test uses one constant step length and one vehicle.",
     [S, L], [("update cadence", S + " step / apply_accelerations / calculate_lane_changes"), ("active links", L + " activate / process_vehicles")],
     ["vel, pos_mid, frame after step"], ["time since last updates"], "place vehicles at arbitrary positions and speeds")

prop("C23", "All routes lists exactly the drivable source to exit pairs",
     "The listed routes are exactly the pairs of a link without predecessors and a link without successors that a vehicle can drive between along connections and permitted lane changes. "
     "Each pair is listed once.",
     ["configurations"], "all connection patterns and lane change masks of networks with up to four links",
     "No test asks for routes.",
     [S, GRP], [("route enumeration", S + " all_routes"), ("lane reachability", GRP + " reachable_lanes")],
     ["Simulation::all_routes"])

prop("C24", "Curves are cut into pieces as even or as fine as asked for",
     "Points spaced evenly along a line start at its start, lie on it, are the asked distance apart up to one percent and cover it, with only the last one beyond its end, and the length returned with them is that of the line. "
     "Cutting a curve to a greatest length gives points on the curve in order from one end to the other, no two neighbours further apart than that length, and a line is not cut finer than halving it makes necessary.",
     ["inputs"], "all lengths and distances within the bounds; bends of any height",
     "The one test of spacing looks at the spread of one curve's points; cutting is not tested.",
     ["src/math/curve/algorithms.rs", "src/math/curve/bezier.rs"], [("even spacing", "src/math/curve/algorithms.rs equidistant_points_along_curve"), ("subdivision", "src/math/curve/algorithms.rs SubdividedSamples")],
     ["points returned"])

prop("C25", "What the simulation reports agrees with what it was given",
     "Links list exactly the links connected to them, and their length, speed limit and travel time (in tenths of a second) are those they were built with. "
     "A new vehicle stands at the start of its link and keeps reporting its own size, ends half its length either side of its middle, and the destination last set; frames, links, vehicles and lights are each listed or counted once.",
     ["inputs", "configurations"], "all connections of three links, limits, vehicle sizes, positions, speeds and step lengths",
     "No test reads these.",
     [S, L, V, LIGHT], [("connections", L + " add_link_in / add_link_out"), ("travel time", L + " new"), ("vehicle extent", V + " new, pos_front, pos_rear"), ("listing", S + " iter_links, iter_vehicles, iter_lights")],
     ["the getters named"], None, "place vehicles at arbitrary positions and speeds")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
