"""What each check explores: harnesses, sources, arguments, bounds."""
M = "subpackages/mav_trajectory_generation/src/"
KNOWN_SOURCES = [M + f for f in ("io.cpp", "motion_defines.cpp", "polynomial.cpp", "polynomial_timing_evaluation.cpp", "segment.cpp",
                                 "timing.cpp", "trajectory.cpp", "trajectory_sampling.cpp", "vertex.cpp", "rpoly/rpoly_ak1.cpp")] + [
    "src/dynamic_trajectory.cpp", "src/dynamic_waypoint.cpp"]
POLY = ["polynomial.cpp", "rpoly/rpoly_ak1.cpp"]
TRAJ = POLY + ["segment.cpp", "trajectory.cpp", "vertex.cpp", "motion_defines.cpp"]
WAYP = TRAJ + ["src/dynamic_waypoint.cpp"]
COMMON_ASSUMPTIONS = [
    "the checked program is clang -O1's LLVM IR of /repo's sources with asserts on; counterexamples are replayed in a g++ -O2 build",
    "IEEE rounding is covered by a per-value error bound; obligations counted as exact-real-only ignore rounding; overflow to infinity is not modelled",
    "trusted: clang 18 front end, the instrumenting pass and runtime in /verif/engine (validated against the native build on every run), z3 / cvc5",
]
NOSKIP = ["-include", "eigen_noskip.h"]  # Eigen's SparseQR without its skip of zero updates
STUBR, MULDEFS = ["-DSTUB_ROOTS"], ["-Wl,-z,muldefs"]  # the harness replaces the root finder
DYN = dict(srcs=WAYP + ["src/dynamic_trajectory.cpp"], cxxflags=["-include", "dyn_stub.h"], ldflags=MULDEFS, sched=True, libs=["-lglog", "-lnlopt"])
DYN_STUBS = ["the nonlinear optimizer is replaced by one that records what it is given, takes 20..100 ms of virtual time and returns quintics through every constraint (its contract: C09, C22)",
             "pthread, futex, clock and sleep calls are served by a cooperative scheduler whose choices are symbolic"]
CHECKS = {
    "C01": dict(
        runs=[dict(name="eval", harness="c01_eval.cpp", srcs=POLY, args={"maxN": 22, "C": 100, "T": 20}, reach=["end"])],
        bounds=["1..22 (the most a product of two can have) coefficients in [-100,100], t in [-20,20], derivative order 0..N+1"],
        outside=["polynomials with more than 22 coefficients", "non-finite coefficients"]),
    "C02": dict(
        runs=[dict(name="algebra", harness="c02_algebra.cpp", srcs=TRAJ, args={"maxN": 8}, thorough_args={"maxN": 12}, reach=["end", "fixed", "equal", "unequal", "sizes", "trajectories", "close"])],
        bounds=["1..8 (thorough 1..12) coefficients in [-10,10], t in [-3,3]", "inequality down to one unit in the last place (values from a list)"],
        outside=["operands of different size for + and += (a precondition)"]),
    "C03": dict(
        runs=[dict(name="polynomial", harness="c03_extrema.cpp", srcs=TRAJ, cxxflags=STUBR, ldflags=MULDEFS, args={"what": 0, "maxN": 4}, reach=["polynomial", "from-roots", "backwards", "above-order"]),
              dict(name="request", harness="c03_extrema.cpp", srcs=TRAJ, cxxflags=STUBR, ldflags=MULDEFS, args={"what": 1, "maxN": 4}, reach=["asked"]),
              dict(name="magnitude", harness="c03_extrema.cpp", srcs=TRAJ, cxxflags=STUBR, ldflags=MULDEFS, args={"what": 2}, thorough_args={"lists": 3}, reach=["magnitude"]),
              dict(name="refused", harness="c03_extrema.cpp", srcs=TRAJ, cxxflags=STUBR, ldflags=MULDEFS, args={"what": 3}, reach=["refused"]),
              dict(name="real", harness="c03_extrema.cpp", srcs=TRAJ, args={"what": 0}, reach=["real"]),
              dict(name="realmag", harness="c03_extrema.cpp", srcs=TRAJ, args={"what": 1}, reach=["real"]),
              dict(name="realopt", harness="c03_extrema.cpp", srcs=TRAJ, args={"what": 2}, reach=["real"])],
        bounds=["polynomials of 2..4 coefficients in [-3,3], any interval inside [0,4], derivatives 0..2, 0..2 arbitrary real or complex roots returned by a stubbed root finder (or none found)",
                "the polynomial handed to the root finder: 1..3 dimensions, every subset of a list, derivatives 0..2",
                "magnitudes over 1..2 segments and dimensions from a list (thorough: three lists) with one arbitrary root per segment and an arbitrary first duration",
                "with the real root finder: 24 polynomials of 3..10 coefficients, 10 two-segment trajectories, 4 optimized trajectories, every time"],
        outside=["that the extrema lie at the end points or at real roots of the derivative (Fermat) is taken as known", "more than two roots at once in the stubbed runs"],
        stubs=["findRootsJenkinsTraub returns arbitrary roots in the stubbed runs"]),
    "C04": dict(
        runs=[dict(name="solvable", harness="c04_roots.cpp", srcs=POLY, args={"what": 0}, reach=["found", "real", "complex"]),
              dict(name="tiny", harness="c04_roots.cpp", srcs=POLY, args={"what": 0, "scale": -60}, reach=["found", "real", "complex"]),
              dict(name="huge", harness="c04_roots.cpp", srcs=POLY, args={"what": 0, "scale": 60}, reach=["found", "real", "complex"]),
              dict(name="constant", harness="c04_roots.cpp", srcs=POLY, args={"what": 1}, reach=["constant"]),
              dict(name="higher", harness="c04_roots.cpp", srcs=POLY, args={"what": 2}, reach=["higher"])],
        bounds=["coefficient vectors with 0..2 vanishing low coefficients, a core of degree 0..2 with coefficients up to 5 in magnitude (leading one at least 0.1, others zero or at least 0.01), 0..2 vanishing leading coefficients; all of it also multiplied by 2^-60 and by 2^60",
                "16 given polynomials of degree 3..8: the reported roots reproduce the polynomial at every t in [-1,1]"],
        outside=["arbitrary coefficients of degree three and more (the iteration does not terminate symbolically)"]),
    "C05": dict(
        runs=[dict(name="lookup", harness="c05_lookup.cpp", srcs=TRAJ, args={"maxK": 3}, thorough_args={"maxK": 5}, reach=["end"])],
        bounds=["1..3 (thorough 1..5) segments of 1..2 dimensions, 3 coefficients in [-5,5], durations in [0.1,3], any time in [0,end]"],
        outside=["times outside [0,end] (an error is logged and zero returned)"]),
    "C06": dict(
        runs=[dict(name="range", harness="c06_range.cpp", srcs=TRAJ + ["trajectory_sampling.cpp"], args={"what": 0, "maxK": 2}, thorough_args={"maxK": 3, "dtmin": 5}, reach=["range", "several"]),
              dict(name="short-segments", harness="c06_range.cpp", srcs=TRAJ + ["trajectory_sampling.cpp"], args={"what": 0, "minK": 3, "maxK": 3, "tmin": 2, "tmax": 5, "dtmin": 4, "whole": 1}, thorough_args={"maxK": 4}, reach=["range", "several"]),
              dict(name="states", harness="c06_range.cpp", srcs=TRAJ + ["trajectory_sampling.cpp"], args={"what": 1}, reach=["states"])],
        bounds=["1..2 (thorough 1..3) segments with durations in [0.4,2], 3 coefficients in [-5,5], any start<=end inside the trajectory, step in [0.8,3] (thorough: [0.5,3])", "three (thorough also four) segments with durations in [0.2,0.5] sampled as a whole with a step in [0.4,3], so that steps jump over whole segments",
                "flat-state sampling: two 3-dimensional segments with durations in [0.6,1], three (start, step) grids"],
        outside=["steps below 0.8 s (thorough 0.5 s) (more samples than the bound)", "end beyond the trajectory"]),
    "C07": dict(
        runs=[dict(name="scale", harness="c07_scale.cpp", srcs=TRAJ, args={"what": 0, "maxN": 6}, thorough_args={"maxN": 12}, reach=["refused", "scaled"]),
              dict(name="limits", harness="c07_scale.cpp", srcs=TRAJ, args={"what": 1, "shapes": 3, "D": 4}, thorough_args={"shapes": 4}, reach=["feasible", "stretched"])],
        bounds=["1..3 segments with durations in [0.2,4], 1..2 dimensions (one segment: 1..4), 1..6 (thorough 1..12) coefficients in [-5,5], factor in [0,20]",
                "meeting limits: one quadratic segment, two linear segments, one four-dimensional linear segment (thorough: also two quadratic segments), limits in [0.2,5], real root finder"],
        outside=["limit scaling of polynomials whose critical points are not roots of a line"]),
    "C08": dict(
        runs=[dict(name="dims", harness="c08_dims.cpp", srcs=TRAJ, args={"maxN": 4}, thorough_args={"maxN": 8}, reach=["join", "split", "mismatch"])],
        bounds=["1..2 + 1..2 dimensions, 1..4 (thorough 1..8) coefficients in [-5,5] on either side, durations in [0.1,5], 1..3 segments"],
        outside=["trajectories with more than four dimensions"]),
    "C09": dict(
        runs=[dict(name="order4", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 0, "N": 4}, reach=["solved", "free"]),
              dict(name="order6", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 0, "N": 6}, reach=["solved", "free"]),
              dict(name="order10", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 0, "N": 10, "maxK": 2}, thorough_args={"maxK": 3}, reach=["solved", "free"]),
              dict(name="times2", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 1, "N": 2}, reach=["any-time"]),
              dict(name="times4", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 1, "N": 4}, reach=["any-time"])],
        bounds=["orders 4, 6 and 10, 1..3 segments (order 10: 1..2, thorough 3), 1..2 dimensions, three lists of segment times, start/end fully, position-only or partly constrained, four patterns of interior constraints, constraint values in [-1,1], free derivatives arbitrary in [-1,1]",
                "orders 2 and 4 fully constrained: every segment time in [0.5,3]", "the object used before for another problem, segment times updated afterwards"],
        outside=["symbolic segment times with order 6 or more", "ill-conditioned durations (ratios above 4)"],
        stubs=["Eigen's SparseQR and sparse triangular solve without their shortcut for zero updates (same result, fewer paths)"]),
    "C10": dict(
        runs=[dict(name="order4", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 2, "N": 4}, reach=["cost"]),
              dict(name="order6", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 2, "N": 6}, reach=["cost"]),
              dict(name="order10", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 2, "N": 10}, reach=["cost"])],
        bounds=["orders 4, 6 and 10, every derivative to optimize, 1..2 segments and dimensions, three lists of segment times (also retimed, all or only some of them, or with the object used before for another cost), start/end and interior constraint patterns as for C09, constraint values in [-1,1]",
                "optimality is first-order stationarity along every free derivative of every vertex, which for this convex cost is equivalent to minimality"],
        outside=["more than two segments"],
        stubs=["Eigen's SparseQR and sparse triangular solve without their shortcut for zero updates (same result, fewer paths)"]),
    "C11": dict(
        runs=[dict(name="single", harness="c11_times.cpp", srcs=["vertex.cpp", "motion_defines.cpp"], args={"what": 0, "maxD": 2}, thorough_args={"maxD": 3}, reach=["ramp", "long", "short"]),
              dict(name="monotone", harness="c11_times.cpp", srcs=["vertex.cpp", "motion_defines.cpp"], args={"what": 1}, reach=["monotone"]),
              dict(name="chain", harness="c11_times.cpp", srcs=["vertex.cpp", "motion_defines.cpp"], args={"what": 2, "maxK": 2}, thorough_args={"maxK": 3}, reach=["chain"])],
        bounds=["one segment: 1..2 (thorough 1..3) dimensions, start in [-10,10], displacement up to 10 km per axis (none, or at least 1 cm), limits in [0.2,10], each end free, stopping or moving at 1e-5..10 m/s on one axis and at any speed to 10 m/s on the others",
                "monotonicity: one dimension, distances in [0,50], limits in [0.5,10]", "chains of 2..3 (thorough 2..4) vertices"],
        outside=["end speeds between 0 and 1e-5 (below 1e-6 treated as a stop)", "vertices without a position"]),
    "C12": dict(
        runs=[dict(name="bell", harness="c12_blend.cpp", srcs=WAYP, args={"what": 0}, reach=["deadband", "far", "near"]),
              dict(name="waypoint", harness="c12_blend.cpp", srcs=WAYP, args={"what": 1, "maxMoves": 2}, thorough_args={"maxMoves": 3}, reach=["moved", "default", "now"])],
        bounds=["one correction: width in [0.3,3], waypoint time in [0,10], displacement in [-5,5], time in [-10,20]",
                "a waypoint moved 1..2 (thorough 1..3) times, at most at its own time, positions in [-5,5]^3"],
        outside=["moves after the waypoint has been passed", "displacements under 2 cm per move and axis, which the code ignores on purpose"]),
    "C13": dict(
        runs=[dict(name="waypoint", harness="c13_waypoint.cpp", srcs=WAYP, args={"ops": 2}, thorough_args={"ops": 3}, reach=["copied", "moved", "unmoved"])],
        bounds=["three ways of construction followed by every sequence of 2 (thorough 3) of nine operations; positions in [-5,5]^3, times in [0.1,20]"],
        outside=["default-constructed waypoints before a position is set"]),
    "C14": dict(
        runs=[dict(DYN, name="values", harness="c14_eval.cpp", args={"what": 0, "fixed": 1}, reach=["before", "inside", "after", "end"]),
              dict(DYN, name="plotting", harness="c14_eval.cpp", args={"what": 1}, reach=["regenerated", "blended", "end"])],
        bounds=["two waypoints; the trajectory first evaluated at 0 or at 0.5 s; no correction, or one of +-[0.125,2] m on either waypoint blended in at 0.25 s; every evaluation time in [-4,12], plotting or flying",
                "plotting: one or two evaluations at any time in [-3,10] at four flown times, followed by nothing, an appended waypoint or a blended correction, and more plotting"],
        outside=["evaluation times within 10 us of a segment boundary (see C05)", "corrections between 3.4 and 4 widths from their waypoint (cut-off, see C12)"],
        stubs=DYN_STUBS),
    "C15": dict(
        runs=[dict(DYN, name="sequence", harness="c15_requests.cpp", args={"ops": 2}, reach=["settled", "end"]),
              dict(DYN, name="preempt", harness="c15_requests.cpp", args={"ops": 1, "preempt": 1, "during": 1}, reach=["settled", "end"])],
        bounds=["a first set request, then every sequence of two requests (set, append, three kinds of modify, setting the served waypoints again) at every phase of the first generation (before, during, ready, taken over), positions arbitrary in [-10,10]",
                "one such request with one preemption at any scheduling point (atomic access, lock, wait, thread start or end) of the user, worker or generating thread, every choice of the thread that continues"],
        outside=["more than one preemption at a time (quick)", "requests with an empty list of waypoints, several waypoints of one name, names unknown to the generator", "weak-memory effects: threads interleave at scheduling points"],
        stubs=DYN_STUBS),
    "C16": dict(
        runs=[dict(DYN, name="sequence", harness="c15_requests.cpp", args={"ops": 2, "list": 1}, reach=["settled", "end"]),
              dict(DYN, name="flight", harness="c15_requests.cpp", args={"ops": 2, "long": 1, "list": 1}, reach=["settled", "end"]),
              dict(DYN, name="anytime", harness="c15_requests.cpp", args={"ops": 1, "long": 1, "any": 1, "list": 1}, reach=["settled", "end"])],
        bounds=["a first set request, then every sequence of two requests at every phase of the first generation; two requests at 9 moments of the flight each; one request at an arbitrary moment up to 3.5 s ahead; positions arbitrary in [-10,10] (flown moments arbitrary: given positions)"],
        outside=["several waypoints of one name, empty set requests", "moments within 10 us of passing a waypoint or entering its security zone", "more than two requests after the first"],
        stubs=DYN_STUBS),
    "C17": dict(
        runs=[dict(DYN, name="scratch", harness="c17_join.cpp", args={"what": 0}, reach=["first", "end"]),
              dict(DYN, name="again", harness="c17_join.cpp", args={"what": 1}, reach=["again", "end"]),
              dict(DYN, name="joined", harness="c17_join.cpp", args={"what": 2, "ms": 50}, reach=["joined", "end"]),
              dict(DYN, name="anytime", harness="c17_join.cpp", args={"what": 2, "any": 1, "ms": 50}, reach=["joined", "end"])],
        bounds=["from scratch: any vehicle position in [-5,5] on one axis, any last waypoint in [-5,5] on one axis, or a drift of up to 1 m during the generation; again from scratch after flying past the end at three moments",
                "stitching: two flown moments with arbitrary appended waypoint, or any moment in [0.01,3] with given waypoints; with or without a correction under way; taken over by a flying, a plotting or a waypoint query; generation times of 50 and 100 ms"],
        outside=["moments inside the security zone before a waypoint", "generation times beyond 100 ms", "the closest-point choice at arbitrary (not listed) moments"],
        stubs=DYN_STUBS),
    "C18": dict(
        runs=[dict(DYN, name="destroy", harness="c18_stop.cpp", args={"what": 0, "preempt": 1}, reach=["destroyed", "end"]),
              dict(DYN, name="users", harness="c18_stop.cpp", args={"what": 1, "preempt": 1}, reach=["both", "end"])],
        bounds=["destruction at five stages of life and five delays, with one preemption at any scheduling point; memory freed meanwhile is checked not to be written", "a second user thread making each of five groups of calls while the first flies, appends and queries, with one preemption at any scheduling point"],
        outside=["more than one preemption at a time (quick)", "more than two user threads", "the generator being destroyed while another user thread still calls it (a precondition)", "waiting for a first trajectory that was never requested"],
        stubs=DYN_STUBS),
    "C19": dict(
        runs=[dict(name="roundtrip", harness="c19_io.cpp", srcs=TRAJ+["trajectory_sampling.cpp", "io.cpp"], libs=["-lglog", "-lyaml-cpp"], args={"what": 0}, reach=["round-trip", "pieces"]),
              dict(name="corrupted", harness="c19_io.cpp", srcs=TRAJ+["trajectory_sampling.cpp", "io.cpp"], libs=["-lglog", "-lyaml-cpp"], args={"what": 1}, reach=["refused"])],
        bounds=["1..3 segments and dimensions, 1, 2, 4 and 10 coefficients in [-1e6,1e6], durations in [0,1000] s; through a YAML node, its text, a file, either writer with either reader",
                "a document of two segments, two dimensions and three coefficients with one of about 60 corruptions (element removed, of another type, out of range, one too many or too few, segments of different shape), read as a node, as text or from a file"],
        outside=["negative durations", "the table of sampled states written for Matlab", "documents that are not YAML at all (the YAML library's concern)"],
        stubs=["the decimal text of a symbolic number: with 17 significant digits it reads back exactly (IEEE 754), with fewer it is off by up to half a unit of the last digit"]),
    "C20": dict(
        runs=[dict(name="at", harness="c20_flat.cpp", srcs=TRAJ + ["trajectory_sampling.cpp"], args={"what": 0, "N": 5}, thorough_args={"N": 10}, reach=["at"]),
              dict(name="range", harness="c20_flat.cpp", srcs=TRAJ + ["trajectory_sampling.cpp"], args={"what": 1}, reach=["range"]),
              dict(name="refused", harness="c20_flat.cpp", srcs=TRAJ + ["trajectory_sampling.cpp"], args={"what": 2}, reach=["refused"]),
              dict(name="transform", harness="c20_flat.cpp", srcs=TRAJ + ["trajectory_sampling.cpp"], args={"what": 3}, reach=["transform"])],
        bounds=["two segments of 1.5 and 0.75 s, 3, 4 and 6 dimensions, 5 (thorough 10) coefficients in [-5,5] (6 dimensions: 3), every time inside either segment",
                "range sampling on two grids; a rigid transform from a list of two applied to any sample"],
        outside=["times within 0.1 ms of the segment boundary (see C05)", "5 or more than 6 dimensions"]),
    "C21": dict(
        runs=[dict(name="matrix", harness="c21_rotation.cpp", srcs=[], args={"what": 0}, reach=["zero", "matrix"]),
              dict(name="roundtrip", harness="c21_rotation.cpp", srcs=[], args={"what": 1}, reach=["middle", "tiny", "large"]),
              dict(name="halfturn", harness="c21_rotation.cpp", srcs=[], args={"what": 2}, reach=["half"]),
              dict(name="refuse", harness="c21_rotation.cpp", srcs=[], args={"what": 3}, reach=["accepted", "refused"]),
              dict(name="rates", harness="c21_rotation.cpp", srcs=[], args={"what": 4}, reach=["tiny-rate", "rates"]),
              dict(name="yaw", harness="c21_rotation.cpp", srcs=[], args={"what": 5}, reach=["yaw"]),
              dict(name="euler", harness="c21_rotation.cpp", srcs=[], args={"what": 6}, reach=["euler"]),
              dict(name="linear", harness="c21_rotation.cpp", srcs=[], args={"what": 7}, reach=["nonskew", "linear"]),
              dict(name="rotor", harness="c21_rotation.cpp", srcs=[], args={"what": 8}, reach=["rotor"])],
        bounds=["rotation vectors in [-3,3]^3 for the matrix and the rates; conversion back: all angles in [1e-9,3.1405] about eight axes with rational direction, half turns (and 1e-9, 2e-9 short of one) about the same axes",
                "refusal: 3x3 matrices with one +-1 diagonal entry and a 2x2 block that is diagonal, antidiagonal, a turn with one entry changed, or a scaled turn, free entries in [-2,2]", "yaw in [-3.14,3.14]; Euler angles of every unit quaternion with pitch up to asin(0.999)"],
        outside=["conversion back about other axes", "general 3x3 matrices", "rotation vectors between 1e-3 and 0.05 for the rates"]),
    "C22": dict(
        runs=[dict(name="full4", harness="c22_nonlinear.cpp", srcs=TRAJ+["timing.cpp"], cxxflags=NOSKIP + STUBR, ldflags=MULDEFS, args={"what": 0, "N": 4}, reach=["optimized"]),
              dict(name="full10", harness="c22_nonlinear.cpp", srcs=TRAJ+["timing.cpp"], cxxflags=NOSKIP + STUBR, ldflags=MULDEFS, args={"what": 0, "N": 10, "maxD": 1}, thorough_args={"maxD": 2}, reach=["optimized"]),
              dict(name="times", harness="c22_nonlinear.cpp", srcs=TRAJ+["timing.cpp"], cxxflags=NOSKIP + STUBR, ldflags=MULDEFS, args={"what": 1, "N": 4}, reach=["optimized"]),
              dict(name="mellinger", harness="c22_nonlinear.cpp", srcs=TRAJ+["timing.cpp"], cxxflags=NOSKIP + STUBR, ldflags=MULDEFS, args={"what": 2, "N": 4, "maxD": 1}, reach=["optimized"]),
              dict(name="soft", harness="c22_nonlinear.cpp", srcs=TRAJ+["timing.cpp"], cxxflags=NOSKIP + STUBR, ldflags=MULDEFS, args={"what": 3, "N": 4}, reach=["optimized"]),
              dict(name="hard", harness="c22_nonlinear.cpp", srcs=TRAJ+["timing.cpp"], cxxflags=NOSKIP + STUBR, ldflags=MULDEFS, args={"what": 4, "N": 4}, reach=["optimized"])],
        bounds=["orders 4 and 10, 1..2 segments, 1..2 dimensions (order 10: 1, thorough 2), subsets of constrained derivatives, constraint values and segment times from lists (times and Mellinger: one constraint value arbitrary in [-1,1])",
                "two proposals per optimization, either of which is returned: times from a list, free derivatives of the second arbitrary in [-4,4] within the bounds (soft and hard: one of them); velocity limits in [0.5,3] and acceleration limits in [1,8] (soft: from a list)",
                "full, time-only and Mellinger time optimization; limits as bounds, as soft penalties and as inequality constraints"],
        outside=["whether nlopt converges, and to what", "more than two proposals", "extrema of the magnitude strictly inside a segment (C03)", "the collision and via-point extensions that are not in this repository"],
        stubs=["nlopt's C interface: an optimizer that evaluates the objective at arbitrary points within its bounds and returns one of them", "the root finder finds no roots (magnitudes are compared at the ends of segments)", "Eigen's SparseQR does not skip zero updates"]),
    "C23": dict(
        runs=[dict(name="short", harness="c23_timing.cpp", srcs=["timing.cpp"], args={"what": 0, "n": 4}, thorough_args={"n": 6}, reach=["end"]),
              dict(name="window", harness="c23_timing.cpp", srcs=["timing.cpp"], args={"what": 1}, reach=["end"]),
              dict(name="timers", harness="c23_timing.cpp", srcs=["timing.cpp"], args={"what": 2, "ops": 3, "dts": 3}, thorough_args={"ops": 4, "dts": 4}, reach=["recorded"])],
        bounds=["accumulators with a window of 2 and 3, every sequence of 1..4 (thorough 1..6) values in [-100,100]",
                "the 50-value window with 50..52 samples, every 25th one symbolic",
                "two named timers and a mini timer: every interleaving of 3 (thorough 4) start/stop events with clock steps from a list of 3 (thorough 4), clock stepping back included for the mini timer"],
        outside=["printing of the table"], stubs=["std::chrono::system_clock::now is a harness-controlled counter"]),
    "C24": dict(
        runs=[dict(name="history", harness="c24_vertex.cpp", srcs=["vertex.cpp", "motion_defines.cpp"], args={"what": 0, "ops": 2}, thorough_args={"ops": 3}, reach=["sub"]),
              dict(name="equality", harness="c24_vertex.cpp", srcs=["vertex.cpp", "motion_defines.cpp"], args={"what": 1}, reach=["equal", "different"])],
        bounds=["1..3 dimensions, every sequence of 2 (thorough 3) add/remove/make-start operations on orders 0..5, values in [-10,10]",
                "equality: every pair of subsets of two (thorough: three) derivative orders, 1..2 dimensions (equal or not), tolerance in [0.001,1], a band of 0.1% around the tolerance excluded"],
        outside=["printing"]),
    "C25": dict(
        runs=[dict(name="taken", harness="c25_vertices.cpp", srcs=TRAJ, args={"what": 0}, reach=["taken"]),
              dict(name="apart", harness="c25_vertices.cpp", srcs=TRAJ, args={"what": 1}, thorough_args={"orders": 4}, reach=["apart"]),
              dict(name="square", harness="c25_vertices.cpp", srcs=TRAJ, args={"what": 2}, reach=["square"]),
              dict(name="random", harness="c25_vertices.cpp", srcs=TRAJ, args={"what": 3}, thorough_args={"maxn": 3, "seeds": 4}, reach=["random"])],
        bounds=["1..3 segments with durations in [0.2,2], 1..2 dimensions (position and yaw apart: 4), 3 coefficients in [-5,5], derivatives up to 3, every time inside a segment",
                "squares of side [0.1,20] around any centre in [-10,10]^3, 1..3 rounds, derivatives up to 4",
                "random vertices: 1..3 dimensions, 1..2 (thorough 1..3) segments, derivatives 1 and 3, two (thorough four) seeds, any box with corners from [-10,10] and sides in [0.5,20]"],
        outside=["the distribution of the random vertices, other seeds (the generator of numbers runs as it is)", "times within 1 us of a segment boundary other than the boundary itself"]),
    "C26": dict(
        runs=[dict(DYN, name="plan", harness="c26_plan.cpp", args={}, reach=["planned", "end"]),
              dict(DYN, name="preempt", harness="c26_plan.cpp", args={"preempt": 1}, reach=["planned", "end"])],
        bounds=["two speeds in [0.1,20] set before a first request and before a second one (set, append, two kinds of modify) at four phases of the first generation, arbitrary positions; with one preemption at any scheduling point"],
        outside=["speeds set while nothing is requested afterwards (they apply to the next request)", "whether the optimizer honours the limits it is given (C22) "],
        stubs=DYN_STUBS + ["the first guess of the durations records what it is given (its values: C11)"]),
    "C27": dict(
        runs=[dict(DYN, name="announce", harness="c27_announce.cpp", args={"preempt": 0}, reach=["announced", "zone", "end"]),
              dict(DYN, name="preempt", harness="c27_announce.cpp", args={"preempt": 1}, reach=["announced", "end"])],
        bounds=["one change (first trajectory, appended, moved in place, moved with a new trajectory, one or two moves just before a waypoint) with a second thread polling five times, with one preemption at any scheduling point; the new position arbitrary"],
        outside=["more than two changes between two polls", "more than one preemption at a time"],
        stubs=DYN_STUBS),
    "C28": dict(
        runs=[dict(name="order4", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 3, "N": 4}, reach=["matrices"]),
              dict(name="order6", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 3, "N": 6, "maxK": 2}, thorough_args={"maxK": 3}, reach=["matrices"]),
              dict(name="times2", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 3, "N": 2, "any": 1, "maxK": 2}, reach=["any-time"]),
              dict(name="times4", harness="c09_linear.cpp", srcs=TRAJ, cxxflags=NOSKIP, args={"what": 3, "N": 4, "any": 1, "maxK": 2}, reach=["any-time"])],
        bounds=["orders 4 and 6, 1..3 segments (order 6: 1..2, thorough 3), every derivative to optimize, constraint patterns and segment times as for C09, constraint values and free derivatives arbitrary in [-1,1]"],
        outside=["R for arbitrary segment times"],
        stubs=["Eigen's SparseQR and sparse triangular solve without their shortcut for zero updates (same result, fewer paths)"]),
}
NOT_APPLICABLE = {}
