#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it stays readable)."""
import json, os
M = "subpackages/mav_trajectory_generation/"
S, I = M + "src/", M + "include/mav_trajectory_generation/"
D, DH = "src/", "include/dynamic_trajectory_generator/"
NOVAL = "The stable tests only check that runs do not crash; none compares a value, and any test samples a handful of inputs while this must hold for "
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": NOVAL + why, "anchors": a})

p("C01", "Polynomial and derivative evaluation is mathematically exact",
  "Evaluating a polynomial or any of its derivatives at a time gives the value the coefficients define (up to rounding), whichever overload or coefficient accessor is used, and orders at or above the number of coefficients give zero.",
  ["inputs"], "all coefficient vectors of 1..12 entries, all times, all derivative orders", "every coefficient vector, time and derivative order.",
  [I + "polynomial.h", S + "polynomial.cpp"], [("Horner evaluation with precomputed derivative factors", I + "polynomial.h evaluate"), ("derivative factor table", S + "polynomial.cpp computeBaseCoefficients")])
p("C02", "Polynomial arithmetic commutes with evaluation",
  "The value of a sum, product, scalar multiple, time-scaled, offset or zero-padded polynomial at any time equals the same operation applied to the operands' values; operands are not modified, and equality means equal coefficients.",
  ["inputs"], "all operand coefficients, sizes, scalars and times", "every pair of operands and sizes.",
  [I + "polynomial.h", I + "convolution.h", S + "polynomial.cpp"], [("convolution, scaling, offset", S + "polynomial.cpp"), ("fixed-size convolution", I + "convolution.h")])
p("C03", "Reported minima, maxima and magnitude extrema bound every value",
  "For a polynomial, segment or trajectory, the reported minimum and maximum (of a derivative, of one dimension or of the norm over several dimensions) are attained at the reported time inside the requested interval, and no time in that interval has a smaller or larger value, given a root finder that returns the roots of the polynomial it is given; dimensions that do not exist are refused.",
  ["inputs"], "all coefficients, durations and intervals, all dimension subsets", "every polynomial and every interval; an extremum missed for special root positions is invisible to samples.",
  [S + "polynomial.cpp", S + "segment.cpp", S + "trajectory.cpp"], [("candidate selection from derivative roots", S + "polynomial.cpp selectMinMaxCandidatesFromRoots"), ("magnitude candidates by convolution", S + "segment.cpp computeMinMaxMagnitudeCandidateTimes")])
p("C04", "The root finder returns the roots of the polynomial it is given",
  "For a polynomial with real coefficients the root finder returns exactly as many roots as the degree (leading zero coefficients excluded, zero roots included), and every returned root is a root of the polynomial.",
  ["inputs"], "all coefficients of polynomials whose nonzero part has degree at most two, with any number of zero roots and vanishing leading coefficients", "every coefficient vector, in particular degenerate ones.",
  [S + "rpoly/rpoly_ak1.cpp"], [("degree reduction, zero-root removal and quadratic solver", S + "rpoly/rpoly_ak1.cpp")])
p("C05", "A time is looked up in the right segment",
  "A trajectory evaluated at a time between zero and its end gives the value of the segment that covers that time at the time elapsed since that segment began (either neighbour at a boundary), its reported end is the sum of the segment durations, and this stays true after segments are added, replaced or trajectories are concatenated.",
  ["inputs", "histories"], "all segment counts (bounded), durations, coefficients and times, all edit sequences of the segment list", "every duration vector and time, including exact boundaries.",
  [S + "trajectory.cpp", I + "trajectory.h"], [("segment search", S + "trajectory.cpp evaluate"), ("end time bookkeeping", I + "trajectory.h setSegments/addSegments")], state=[("max_time_", "sum of durations", I + "trajectory.h")])
p("C06", "Sampling a range agrees with evaluating single times",
  "Sampling a trajectory over a range returns samples spaced by the requested step from the start to before the end, each equal to the trajectory's value at its reported time, as many values as times; whole-trajectory and state sampling agree with it.",
  ["inputs"], "all ranges, steps, durations and coefficients", "every combination of range start, range end, step and segment durations.",
  [S + "trajectory.cpp", S + "trajectory_sampling.cpp"], [("range iteration", S + "trajectory.cpp evaluateRange")])
p("C07", "Time scaling keeps the path and only slows it down to meet limits",
  "Scaling segment times by a factor multiplies every duration by it and leaves the position at each relative time unchanged; scaling to meet velocity and acceleration limits never shortens the trajectory, leaves a feasible one unchanged and ends within the limits.",
  ["inputs"], "all coefficients, durations, factors and limits", "every trajectory and every limit.",
  [S + "trajectory.cpp", S + "segment.cpp", S + "polynomial.cpp"], [("segment time scaling", S + "trajectory.cpp scaleSegmentTimes"), ("limit scaling", S + "trajectory.cpp scaleSegmentTimesToMeetConstraints")])
p("C08", "Splitting and joining dimensions preserves values and durations",
  "Extracting one dimension of a segment or trajectory and appending dimensions to it keep every value at every time and every duration, also when the two sides have different polynomial order or the joined durations differ, and mismatched inputs are refused.",
  ["inputs"], "all coefficients, orders, durations and dimension counts", "every combination of orders and durations.",
  [S + "segment.cpp", S + "trajectory.cpp"], [("append", S + "segment.cpp getSegmentWithAppendedDimension"), ("extract", S + "segment.cpp getSegmentWithSingleDimension")])
p("C09", "The optimized trajectory meets every vertex constraint and is smooth",
  "The minimum-derivative optimizer's trajectory has at each vertex exactly the constrained positions and derivatives, has the requested segment durations, and at interior vertices the position and all derivatives up to half the order agree from both sides, whatever values the unconstrained derivatives take.",
  ["inputs", "configurations"], "all constraint values, subsets of constrained derivatives, segment counts, dimensions and orders (segment times symbolic or from a stated list)", "every constraint value and every subset of constrained derivatives.",
  [I + "impl/polynomial_optimization_linear_impl.h", S + "vertex.cpp"], [("constraint reordering matrix", I + "impl/polynomial_optimization_linear_impl.h setupConstraintReorderingMatrix"), ("mapping matrix inverse", I + "impl/polynomial_optimization_linear_impl.h invertMappingMatrix")])
p("C10", "The optimizer's cost is the integral and its solution is a minimum",
  "The cost the optimizer reports equals the time integral of the squared derivative of its trajectory summed over dimensions, and no other trajectory that meets the same constraints with the same segment times has a smaller cost.",
  ["inputs"], "all constraint values and all competing choices of the free derivatives", "every competitor; optimality is a statement about all of them.",
  [I + "impl/polynomial_optimization_linear_impl.h"], [("cost matrix", I + "impl/polynomial_optimization_linear_impl.h computeQuadraticCostJacobian"), ("normal equations", I + "impl/polynomial_optimization_linear_impl.h solveLinear")])
p("C11", "Estimated segment times are positive, finite and physically sensible",
  "Every segment time estimated from waypoints and limits is finite and at least the minimum (0.1 s), never shorter than straight flight at the speed limit, and does not shrink when the distance grows or the acceleration limit drops. The velocity-ramp estimate is the time of the trapezoidal or triangular rest-to-rest profile; the default estimate is the distance over the speed limit plus, when either end is a stop, the time to ramp to that speed.",
  ["inputs"], "all waypoint positions (coincident ones included) and all positive limits", "every pair of waypoints and limits, coincident waypoints included.",
  [S + "vertex.cpp"], [("estimators", S + "vertex.cpp estimateSegmentTimes*")])
p("C12", "A waypoint change is blended exactly, locally and consistently",
  "The correction added for a moved waypoint equals the full displacement at the waypoint's time (axes that move less than 2 cm are left alone), never exceeds it, vanishes far from that time, and its first and second derivatives are the derivatives of the correction; all of them are finite even when the change happens at the waypoint's own time, when there is nothing left to blend.",
  ["inputs"], "all displacements, waypoint times, widths and evaluation times", "every width (zero included) and evaluation time.",
  [DH + "utils/traj_modifiers.hpp", D + "dynamic_waypoint.cpp"], [("Gaussian correction", DH + "utils/traj_modifiers.hpp"), ("width from time to go", D + "dynamic_waypoint.cpp setCurrentPosition")])
p("C13", "A dynamic waypoint keeps its identity and position",
  "A waypoint reports the name, constraints, original position, current position and time it was given through construction, reset, copy and assignment; changing its current position leaves the original one, and a copy corrects a trajectory exactly like the one it was copied from.",
  ["inputs", "histories"], "all positions, times and operation sequences (bounded)", "every history of set, reset, copy and modify.",
  [D + "dynamic_waypoint.cpp", DH + "dynamic_waypoint.hpp"], [("waypoint state", D + "dynamic_waypoint.cpp")])
p("C14", "Evaluation is clamped, consistent and free of side effects when asked",
  "Evaluating the dynamic trajectory before its start or after its end gives its start or end; position, velocity and acceleration are those of the planned polynomial plus the corrections of its waypoints; and plotting-mode evaluation never changes what later queries or regenerations return.",
  ["inputs", "histories"], "all evaluation times and evaluation orders", "every evaluation time and interleaving of plotting and flying evaluations.",
  [D + "dynamic_trajectory.cpp", DH + "dynamic_trajectory.hpp"], [("evaluateTrajectory", D + "dynamic_trajectory.cpp")])
p("C15", "No accepted waypoint request is lost",
  "Once a request to set, append or modify waypoints returns, a trajectory that reflects it (a newly generated one, if the request asks for that) is eventually produced and served, whatever the interleaving with the background worker, other requests and evaluations.",
  ["schedules", "histories"], "all interleavings (bounded) of user calls with the worker and generation threads", "every schedule; tests see one.",
  [D + "dynamic_trajectory.cpp", DH + "dynamic_trajectory.hpp"], [("request flags and queue", D + "dynamic_trajectory.cpp todoThreadLoop"), ("future hand-over", D + "dynamic_trajectory.cpp checkTrajectoryGenerated")])
p("C16", "The served waypoint list is the one requested",
  "After requests settle, the waypoints of the served trajectory that are not yet passed are, in order and at increasing times, those of the last set request followed by every later append, each with its latest position by name and flown through it; a waypoint that has been passed is not flown again, nothing that was not requested is served except the generator's own helper points (unnamed or called stitching_point), and these come first and are not counted as remaining.",
  ["histories", "inputs"], "all bounded sequences of set (of at least one waypoint, names distinct), append and modify", "every request history.",
  [D + "dynamic_trajectory.cpp"], [("queue composition", D + "dynamic_trajectory.cpp generateWaypointsForTheNextTrajectory"), ("modify by name", D + "dynamic_trajectory.cpp modifyWaypoint"), ("passed waypoints", D + "dynamic_trajectory.cpp filterPassedWaypoints/stitchActualTrajectoryWithNewWaypoints")])
p("C17", "Regeneration joins the motion in progress and ends at rest",
  "A trajectory generated from scratch starts at the vehicle's position with zero velocity and acceleration. One that replaces a running trajectory starts, at the last time evaluated when its generation began, with the position, velocity and acceleration being flown then (corrections included) and passes next through a second point of the running motion. When it takes over it is entered one fitting step (0.1 s) after the point, among the fitting steps, that is closest to the vehicle (from scratch) or to the motion last flown. It passes its waypoints in order and ends at the last one at rest.",
  ["inputs", "histories"], "all take-over times and waypoint positions (within stated boxes)", "every take-over time.",
  [D + "dynamic_trajectory.cpp"], [("stitching", D + "dynamic_trajectory.cpp stitchActualTrajectoryWithNewWaypoints/appendDronePositionWaypoint"), ("take-over", D + "dynamic_trajectory.cpp swapTrajectory/timeFittingWithVehiclePosition"), ("end constraint", D + "dynamic_trajectory.cpp extractVerticesFromWaypoints")])
p("C18", "Calls and destruction always terminate",
  "No interleaving of queries, requests and the background threads deadlocks, and destroying the generator at any moment stops its threads.",
  ["schedules"], "all bounded interleavings including destruction at every point", "every schedule, and destruction at every point.",
  [D + "dynamic_trajectory.cpp", DH + "dynamic_trajectory.hpp"], [("lock order", D + "dynamic_trajectory.cpp"), ("stop flag", DH + "dynamic_trajectory.hpp")])
p("C19", "A trajectory survives being written and read back",
  "A trajectory written to YAML or a file and read back has the same segments, coefficients exactly and durations to within two nanoseconds, and malformed input is refused rather than accepted or crashing.",
  ["inputs"], "all coefficients and durations, bounded sizes; all single-element corruptions of the document", "every coefficient and duration and every malformed document.",
  [S + "io.cpp"], [("YAML conversion", S + "io.cpp")])
p("C20", "Flat-state samples carry the trajectory's values",
  "A sampled flat state has the position, velocity, acceleration, jerk, snap, orientation and angular rates that the trajectory's dimensions define at that time, and its timestamp is that time.",
  ["inputs"], "all coefficients and times for 3, 4 and 6 dimensions", "every trajectory and time.",
  [S + "trajectory_sampling.cpp", M + "include/mav_msgs/common.hpp"], [("flat state", S + "trajectory_sampling.cpp sampleFlatStateAtTime")])
p("C21", "Rotation conversions are consistent",
  "A rotation vector maps to a proper orthonormal rotation by its length about its axis, converting back returns the vector, yaw survives conversion to and from a quaternion, matrices that are not rotations are refused, and angular rate and acceleration are the time derivatives of the rotation.",
  ["inputs"], "all rotation vectors up to half a turn, all yaws, all 3x3 matrices", "every rotation vector, in particular tiny and half-turn ones.",
  [M + "include/mav_msgs/common.hpp"], [("Rodrigues formula, rates", M + "include/mav_msgs/common.hpp")])
p("C22", "Nonlinear optimization keeps every limit on the quantity it names",
  "The bounds handed to the nonlinear optimizer keep each segment time at or above the minimum and each limit on velocity, acceleration or another derivative on exactly the free variables that are that derivative (widened only to include the initial guess); the cost it minimizes is the integral of the squared derivative plus the weighted time plus the penalties for exceeding the limits; and the resulting trajectory is the one of the parameters the optimizer returned and meets every vertex constraint.",
  ["inputs", "configurations"], "all optimizer proposals within the bounds, all limits, all subsets of constrained derivatives", "every proposal the optimizer may make.",
  [I + "impl/polynomial_optimization_nonlinear_impl.h"], [("bound construction", I + "impl/polynomial_optimization_nonlinear_impl.h setFreeEndpointDerivativeHardConstraints"), ("objectives", I + "impl/polynomial_optimization_nonlinear_impl.h")])
p("C23", "Timing statistics are the statistics of what was recorded",
  "The reported count, total, mean, minimum, maximum and variance of a timer or accumulator are those of the values recorded, and the rolling ones those of the last recorded window.",
  ["inputs", "histories"], "all recorded value sequences (bounded length)", "every sequence.",
  [I + "timing.h", S + "timing.cpp"], [("accumulator", I + "timing.h Accumulator")])
p("C24", "Vertices store and compare their constraints faithfully",
  "A vertex returns exactly the constraints added to it until they are replaced or removed, start/end vertices fix all derivatives to zero, extracting a dimension keeps that dimension's values, and two vertices compare equal exactly when their constraints agree within the tolerance.",
  ["inputs", "histories"], "all constraint values and operation sequences (bounded)", "every value and operation order.",
  [S + "vertex.cpp", I + "vertex.h"], [("constraint map", S + "vertex.cpp")])
p("C25", "Vertices taken from a trajectory and example paths are what they claim to be",
  "The vertex at a time, the start and goal vertices and the vertices at the segment boundaries of a trajectory have exactly the derivatives asked for, each equal to the trajectory's value there (either neighbour's at a boundary), also when position and yaw are asked for apart; the square example path visits the corners of the given square round after round and rests at both ends, and the random example path has one vertex more than segments, all in the given box and more than 0.2 apart, rests at both ends and is the same for the same seed.",
  ["inputs"], "all durations, coefficients and times (bounded sizes), all centres, sides and boxes", "every trajectory.",
  [S + "trajectory.cpp", S + "vertex.cpp"], [("vertices", S + "trajectory.cpp getVertices"), ("square", S + "vertex.cpp createSquareVertices")])
p("C26", "Every trajectory is planned with the speed and limits in force",
  "The speed last set is the one reported, whatever is being generated or taken over meanwhile; the trajectory generated for a request is planned with the speed set before that request and the generator's acceleration limit as maximum magnitudes of velocity and acceleration, the first guess of its durations uses the same limits, and its waypoints are three-dimensional positions, the last one at rest.",
  ["inputs", "schedules", "histories"], "all speeds, all moments of setting them, all schedules with the stated number of preemptions", "every moment and interleaving.",
  ["src/dynamic_trajectory.cpp"], [("limits", "src/dynamic_trajectory.cpp computeTrajectory"), ("speed", "src/dynamic_trajectory.cpp setSpeed")])
p("C27", "Every change of the served motion is announced, once, when it is in place",
  "After a new trajectory has been taken over or a waypoint has been moved in place, the next query whether the trajectory was regenerated says yes, and says no from then on until the next change, whichever threads ask; when it says yes the waypoint list is already the new one. A request is reported as pending until the generation that serves it begins.",
  ["schedules", "histories"], "all kinds of change, all schedules with the stated number of preemptions", "every interleaving of changes and queries.",
  ["src/dynamic_trajectory.cpp"], [("announcement", "src/dynamic_trajectory.cpp getWasTrajectoryRegenerated")])
p("C28", "The optimizer's matrices describe the problem it solves",
  "The matrices the linear optimizer gives out fit its solution, also right after new segment times: the mapping matrix takes the coefficients of each segment to its derivatives at both ends and the inverse takes them back, the placement matrix puts every fixed and every free derivative where it belongs (and its pseudo-inverse collects them again), and the quadratic form of the cost matrix in the fixed and free derivatives is the integral cost, whatever the free derivatives are set to.",
  ["inputs"], "all constraint values and free derivatives (bounded sizes and lists of segment times)", "every problem of any size.",
  [I + "impl/polynomial_optimization_linear_impl.h"], [("matrices", I + "impl/polynomial_optimization_linear_impl.h getA getM getMpinv getAInverse getR")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
