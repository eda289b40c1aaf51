// C07: time scaling keeps the path and only slows it down to meet limits.
#include "util.h"
#include <mav_trajectory_generation/trajectory.h>
using namespace mav_trajectory_generation;
static const double C = 5;
struct Ref { std::vector<double> T; std::vector<std::vector<Eigen::VectorXd>> c; Trajectory tr; };
static Ref make(int K, int D, int N) {
  Ref r;
  Segment::Vector segs;
  for (int k = 0; k < K; ++k) {
    r.T.push_back(sym_double("T", 0.2, 4));
    Segment s(N, D);
    r.c.emplace_back();
    for (int d = 0; d < D; ++d) { r.c.back().push_back(sym_vec("c", N, -C, C)); s[d] = Polynomial(r.c.back()[d]); }
    s.setTime(r.T.back());
    segs.push_back(s);
  }
  r.tr.setSegments(segs);
  return r;
}
// every coefficient c_n of the scaled trajectory times f^n is the old one: same position at the same relative time
static void same_path(const Ref& r, const Trajectory& tr, double f, int N, const char* id) {
  sym_assert(tr.K() == (int)r.T.size(), "segments-kept");
  for (size_t k = 0; k < r.T.size(); ++k) {
    const Segment& s = tr.segments()[k];
    for (size_t d = 0; d < r.c[k].size(); ++d) {
      Eigen::VectorXd n = s[d].getCoefficients(0);
      sym_assert((int)n.size() == N, "order-kept");
      double pw = 1;
      for (int j = 0; j < N; ++j) { sym_assert_near(n[j] * pw, r.c[k][d][j], 1e-7, id); pw = pw * f; }
    }
  }
}
static void durations(const Ref& r, const Trajectory& tr, double f, double tol) {
  double total = 0;
  for (size_t k = 0; k < r.T.size(); ++k) {
    sym_assert_near(tr.segments()[k].getTime(), r.T[k] * f, tol, "duration-scaled");
    total = total + r.T[k] * f;
  }
  sym_assert_near(tr.getMaxTime(), total, 4 * tol, "end-time-scaled");
}
void harness() {
  const int what = sym_arg("what", 0);
  if (what == 0) {  // scaleSegmentTimes
    const int D = 1 + sym_choice("D", 4);
    const int K = 1 + sym_choice("K", D > 2 ? 1 : 3), N = 1 + sym_choice("N", D > 2 ? 3 : sym_arg("maxN", 6));
    Ref r = make(K, D, N);
    const double f = sym_double("f", 0, 20);
    Trajectory tr = r.tr;
    const bool ok = tr.scaleSegmentTimes(f);
    if (!ok) {
      sym_assert(f < 1e-3, "refuses-only-tiny-factors");
      durations(r, tr, 1.0, 1e-9);
      same_path(r, tr, 1.0, N, "refused-keeps-path");
      sym_reach("refused");
    } else {
      durations(r, tr, f, 1e-9);
      sym_assume(f >= 1e-3);
      same_path(r, tr, f, N, "same-position-at-relative-time");
      sym_reach("scaled");
    }
  } else {  // meeting limits, real root finder (critical points are roots of a line)
    const int shape = sym_choice("shape", sym_arg("shapes", 3));
const int K = shape == 1 || shape == 3 ? 2 : 1, D = shape == 2 ? sym_arg("D", 2) : 1, N = shape == 0 || shape == 3 ? 3 : 2;
    Ref r = make(K, D, N);
    const double vmax = sym_double("vmax", 0.2, 5), amax = sym_double("amax", 0.2, 5);
    // peak speed and acceleration of the original, from the definition
    double v0, a0;
    sym_assert(r.tr.computeMaxVelocityAndAcceleration(&v0, &a0), "limits-computed");
    for (int k = 0; k < K; ++k)
      for (int e = 0; e < 2; ++e) {
        double s2 = 0, q2 = 0;
        for (int d = 0; d < D; ++d) {
          const double v = oracle_eval(r.c[k][d], N, e ? r.T[k] : 0.0, 1), a = oracle_eval(r.c[k][d], N, e ? r.T[k] : 0.0, 2);
          if (D == 1) { sym_assert_le(v, v0, 1e-7, "peak-speed"); sym_assert_le(-v, v0, 1e-7, "peak-speed"); sym_assert_le(a, a0, 1e-7, "peak-acceleration"); sym_assert_le(-a, a0, 1e-7, "peak-acceleration"); }
          s2 += v * v; q2 += a * a;
        }
        if (D > 1) { sym_assert_le(s2, v0 * v0, 1e-6, "peak-speed"); sym_assert_le(q2, a0 * a0, 1e-6, "peak-acceleration"); }
      }
    Trajectory tr = r.tr;
    const bool ok = tr.scaleSegmentTimesToMeetConstraints(vmax, amax);
    sym_assert(ok, "ends-within-limits-verdict");
    const double f = tr.segments()[0].getTime() / r.T[0];
    sym_assert_le(1.0, f, 1e-9, "never-shorter");
    durations(r, tr, f, 1e-6);
    same_path(r, tr, f, N, "same-path");
    // within the limits: speed and acceleration at relative time u
    const double tol = 2e-3;
    // speed is linear in time unless N is 4: its extremes are at the ends
    const double u = N == 4 ? sym_double("u", 0, 1) : (double)sym_choice("end", 2);
    for (int k = 0; k < K; ++k) {
      double v1[4], a1[4];
      for (int d = 0; d < D; ++d) {
        v1[d] = tr.segments()[k][d].evaluate(u * tr.segments()[k].getTime(), 1);
        a1[d] = tr.segments()[k][d].evaluate(u * tr.segments()[k].getTime(), 2);
      }
      if (D == 1) {
        sym_assert_le(v1[0], vmax * (1 + tol), 1e-7, "speed-limit"); sym_assert_le(-v1[0], vmax * (1 + tol), 1e-7, "speed-limit");
        sym_assert_le(a1[0], amax * (1 + tol), 1e-7, "acceleration-limit"); sym_assert_le(-a1[0], amax * (1 + tol), 1e-7, "acceleration-limit");
      }
    }
    if (v0 <= vmax && a0 <= amax) { durations(r, tr, 1.0, 1e-12); sym_reach("feasible"); } else sym_reach("stretched");
  }
  sym_reach("end");
}
