#!/usr/bin/env python3
"""Writes /verif/known_findings.json: repaired defects ("fixed", suppress nothing) and recorded ones ("known")."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C05", "2dd73b6", "Trajectory::addTrajectories(others, this) cleared the segments it was about to read; the call lost every segment of the trajectory it was made on"),
 ("C06", "0538e5d", "Trajectory::evaluateRange began at the start of the segment that holds the start time, so samples were taken before the requested start"),
 ("C07", "afa7d94", "magnitude extrema of derivatives at or above the polynomial order failed, so limit scaling of low-order trajectories aborted or did nothing (also C03)"),
 ("C08", "e331ad9", "joining segments of different order and duration padded before scaling and returned wrong values"),
 ("C08", "5fb7444", "getTrajectoryWithSingleDimension dropped the segment durations' total"),
 ("C12", "54a0991", "the second derivative of a waypoint's correction had the wrong form"),
 ("C12", "4186997", "moving a waypoint exactly at its own time divided by a zero width and produced NaN"),
 ("C13", "1368249", "copies of a waypoint forgot the width of its next correction"),
 ("C24", "b690d21", "Vertex::isEqualTol aborted or compared garbage for vertices of different dimension"),
 ("C23", "83b7491", "Accumulator's maximum started at the smallest positive double, so it was wrong for negative values"),
 ("C11", "562b183", "coincident waypoints produced a segment time of zero, on which the optimizer divides"),
 ("C21", "8996da1", "isRotationMatrix accepted reflections (determinant -1)"),
 ("C21", "0bfba46", "the rotation vector of a half turn was NaN or zero"),
 ("C09", "9fcff61", "an optimizer reused for a fully constrained problem kept the previous problem's free derivatives and aborted"),
 ("C03", "b552224", "extrema over dimensions that do not exist read out of bounds or reported success with meaningless values"),
 ("C15", "5f1437c", "modifying a waypoint without regeneration cleared the flag of a regeneration requested before, which was then lost"),
 ("C15", "7df8894", "requests made while a trajectory was being generated were dropped: the request flag was cleared when the generation ended"),
 ("C16", "61f0748", "stitching dropped requested waypoints that lay after the stitching points but before the time reached so far"),
 ("C16", "212bfec", "waypoints counted as passed by the time asked for, not the one flown (time offset), so they were flown again or lost"),
 ("C16", "112df46", "a modification of a waypoint still waiting for its trajectory was lost"),
 ("C16", "a1e5413", "a served waypoint requested again kept its old time (so it could be dropped as passed) and its old modifications"),
 ("C18", "ca255c3", "the destructor did not wait for a generation in progress, which then used destroyed members"),
 ("C18", "ac1fa72", "concurrent queries could take a new trajectory over twice (std::future_error) or mix two trajectories"),
 ("C14", "36cb4ed", "outside the trajectory the plan was clamped in time but its corrections were not"),
 ("C17", "d3c8aa8", "taking a new trajectory over restored the evaluation times of when its generation began, so the next one joined a stale state"),
 ("C17", "e80a7b3", "a new trajectory was fitted to the motion with the previous trajectory's corrections added a second time"),
 ("C02", "8269c2f", "comparing polynomials of different order aborted"),
 ("C22", "3e1f870", "limits on free derivatives were put on the wrong optimizer variables when the optimized derivative is lower than N/2-1"),
 ("C22", "e9bd7e0", "the optimized trajectory was that of the last parameters tried, not of those the optimizer returned as best"),
 ("C22", "8860177", "Mellinger optimization treated a limit that was not set as zero, so the trajectory was stretched to infinity"),
 ("C19", "c2befab", "reading a missing or empty file, inconsistent counts or rows, or segments that do not fit together aborted or was accepted"),
 ("C01", "b1dc3d2", "the coefficients of the derivative of order N of a polynomial with the largest number of coefficients (22) were taken from beyond the table and aborted"),
 ("C27", "74f1160", "a change announced while getWasTrajectoryRegenerated was being called could be missed: the flag was read and cleared in two steps"),
 ("C27", "d0cb3db", "a new trajectory was announced before its waypoints were in place"),
]
KNOWN = []
out = [{"id": "fixed-%02d" % (i + 1), "property": p, "status": "fixed", "run": "", "assertion": "", "what": "fixed: property=%s %s %s" % (p, c, w)} for i, (p, c, w) in enumerate(F)] + KNOWN
json.dump({"findings": out}, open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
