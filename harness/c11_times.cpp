// C11: estimated segment times are positive, finite and physically sensible.
#include "util.h"
#include "mav_trajectory_generation/vertex.h"
using namespace mav_trajectory_generation;
namespace {
const double kMin = 0.1;
double ramp(double d, double v, double a) {  // rest to rest along a line
  if (d * a < v * v) return 2.0 * std::sqrt(d / a);
  return d / v + v / a;
}
std::vector<double> call(int which, const Vertex::Vector& w, double v, double a) {
  if (which == 0) return estimateSegmentTimes(w, v, a);
  if (which == 1) return estimateSegmentTimesNfabian(w, v, a);
  return estimateSegmentTimesVelocityRamp(w, v, a);
}
// a speed that is none: the last axis moves, however slowly
Eigen::VectorXd moving(int D) {
  Eigen::VectorXd r = sym_vec("u", D, -10, 10);
  const double u = sym_double("u", 1e-5, 10);
  r[D - 1] = sym_choice("back", 2) ? -u : u;
  return r;
}
// straight flight between two points in D dimensions, all of it symbolic
void single() {
  const int D = 1 + sym_choice("D", sym_arg("maxD", 3)), which = sym_choice("estimator", 4);
  const double v = sym_double("v", 0.2, 10), a = sym_double("a", 0.2, 10);
  const Eigen::VectorXd s = sym_vec("s", D, -10, 10);
  Eigen::VectorXd g = s;
  const int way = sym_choice("way", 3);
  const bool same = way == 0;  // coincident, near, far
  const double lo = way == 1 ? 0.01 : 20, hi = way == 1 ? 20 : 10000;
  double d2 = 0;
  if (!same) for (int i = 0; i < D; ++i) {  // some axis moves by at least a centimetre: the first, in either direction
    const double x = i == 0 ? sym_double("delta", lo, hi) : sym_double("delta", -hi, hi);
    const double y = i == 0 && sym_choice("backwards", 2) ? -x : x;
    g[i] = s[i] + y;
    d2 += y * y;
  }
  const double d = same ? 0.0 : std::sqrt(d2);
  if (which == 3) {
    const double t = computeTimeVelocityRamp(s, g, v, a);
    sym_assert_near(t, ramp(d, v, a), 1e-6, "ramp-profile-time");
    sym_assert_near(computeTimeVelocityRamp(g, s, v, a), t, 1e-9, "same-both-ways");
    sym_reach("ramp");
    return;
  }
  Vertex::Vector w(2, Vertex(D));
  w[0].addConstraint(0, s);
  w[1].addConstraint(0, g);
  const int stop0 = sym_choice("start", 3), stop1 = sym_choice("end", 3);  // free, stop, moving
  if (stop0) w[0].addConstraint(1, stop0 == 1 ? Eigen::VectorXd(Eigen::VectorXd::Zero(D)) : moving(D));
  if (stop1) w[1].addConstraint(1, stop1 == 1 ? Eigen::VectorXd(Eigen::VectorXd::Zero(D)) : moving(D));
  const std::vector<double> t = call(which, w, v, a);
  sym_assert(t.size() == 1, "one-time-per-segment");
  sym_assert_le(kMin, t[0], 1e-6, "at-least-the-minimum");
  sym_assert_le(d, t[0] * v, 1e-6, "never-faster-than-the-speed-limit");
  double e = which == 2 ? ramp(d, v, a) : d / v + (stop0 == 1 || stop1 == 1 ? v / a : 0.0);
  if (e > kMin) { sym_assert_near(t[0], e, 1e-6, which == 2 ? "ramp-estimate" : "default-estimate"); sym_reach("long"); }
  else { sym_assert_near(t[0], kMin, 1e-6, "short-segments-take-the-minimum"); sym_reach("short"); }
}
// larger distance / smaller limits never give a shorter time (one dimension)
void monotone() {
  const int which = sym_choice("estimator", 3), vary = sym_choice("vary", 3);
  const double v = sym_double("v", 0.5, 10), a = sym_double("a", 0.5, 10), d = sym_choice("rest", 2) ? 0.0 : sym_double("d", 0.001, 50);
  double v2 = v, a2 = a, d2 = d;
  if (vary == 0) { d2 = sym_double("d2", 0.001, 50); sym_assume(d2 >= d); }
  if (vary == 1) { a2 = sym_double("a2", 0.5, 10); sym_assume(a2 <= a); }
  if (vary == 2) {
    if (which != 2) sym_end();  // the default estimate is not monotone in the speed limit near rest
    v2 = sym_double("v2", 0.5, 10); sym_assume(v2 <= v);
  }
  const int stop = sym_choice("stop", 2);
  Vertex::Vector w(2, Vertex(1)), x(2, Vertex(1));
  w[0].addConstraint(0, 1.0); x[0].addConstraint(0, 1.0);
  w[1].addConstraint(0, 1.0 + d); x[1].addConstraint(0, 1.0 + d2);
  if (stop) { w[0].addConstraint(1, 0.0); x[0].addConstraint(1, 0.0); }
  const std::vector<double> t = call(which, w, v, a), u = call(which, x, v2, a2);
  sym_assert_le(t[0], u[0], 1e-6, vary == 0 ? "no-shorter-for-a-longer-way" : vary == 1 ? "no-shorter-for-less-acceleration" : "no-shorter-for-less-speed");
  sym_reach("monotone");
}
// several segments: each is estimated from its own two ends
void chain() {
  const int n = 2 + sym_choice("n", sym_arg("maxK", 3)), which = sym_choice("estimator", 3);
  const double v = 2.0, a = 3.0;
  Vertex::Vector w;
  std::vector<double> p;
  for (int i = 0; i < n; ++i) {
    p.push_back(sym_double("p", -20, 20));
    w.push_back(Vertex(1));
    w[i].addConstraint(0, p[i]);
    if (i == 0 || i == n - 1) w[i].addConstraint(1, 0.0);
  }
  const std::vector<double> t = call(which, w, v, a);
  sym_assert((int)t.size() == n - 1, "one-time-per-segment");
  for (int i = 0; i + 1 < n; ++i) {
    Vertex::Vector x(w.begin() + i, w.begin() + i + 2);
    const std::vector<double> u = call(which, x, v, a);
    sym_assert_near(t[i], u[0], 1e-12, "from-its-own-ends");
    sym_assert_le(kMin, t[i], 1e-6, "at-least-the-minimum");
  }
  sym_reach("chain");
}
}  // namespace
void harness() {
  const int what = sym_arg("what", 0);
  if (what == 0) single(); else if (what == 1) monotone(); else chain();
  sym_reach("end");
}
