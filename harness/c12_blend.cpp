// C12: a waypoint change is blended exactly, locally and consistently.
#include "util.h"
#include "dynamic_waypoint.hpp"
using dynamic_traj_generator::DynamicWaypoint;
// the correction inc*exp(-(t-mu)^2/(2 s^2)) and its derivatives
static double bell(double t, double mu, double s, double inc, int d) {
  const double x = (t - mu) / s, e = std::exp(-(x * x) / 2.0) * inc;
  if (d == 0) return e;
  if (d == 1) return -(x / s) * e;
  return (x * x - 1.0) / (s * s) * e;
}
void harness() {
  const int what = sym_arg("what", 0);
  if (what == 0) {  // one modifier, every input symbolic
    const double s = sym_double("sigma", 0.3, 3), mu = sym_double("mu", 0, 10), inc = sym_double("inc", -5, 5), t = sym_double("t", -10, 20);
    GaussianModifier m;
    m.setSigma(s); m.setModifierTime(mu); m.setDifference(inc);
    sym_assert_near(m.getSigma(), s, 0, "width-kept");
    const int d = sym_choice("derivative", 3);
    const double v = m(t, d), dist = t < mu ? mu - t : t - mu, ai = inc < 0 ? -inc : inc;
    if (ai < 0.02) {  // documented dead band
      sym_assert_le(v, 0.02 / (0.3 * 0.3) * 3, 0, "dead-band-small"); sym_assert_le(-v, 0.02 / (0.3 * 0.3) * 3, 0, "dead-band-small");
      sym_reach("deadband");
      return;
    }
    if (dist > 4 * s) { sym_assert_near(v, 0, 0, "vanishes-far-away"); sym_reach("far"); return; }
    if (dist >= 3.4 * s) {  // cut off somewhere in here: at most what the bell still has
      if (d == 0) { sym_assert_le(v * v, inc * inc, 1e-6, "never-exceeds-displacement"); }
      return;
    }
    sym_assert_near(v, bell(t, mu, s, inc, d), 1e-6, d == 0 ? "correction-value" : d == 1 ? "first-derivative" : "second-derivative");
    if (d == 0) {
      sym_assert_le(v, ai, 1e-9, "never-exceeds-displacement");
      sym_assert_le(-v, ai, 1e-9, "never-exceeds-displacement");
    }
    sym_assert_near(m(mu, d == 2 ? 0 : d), d == 1 ? 0.0 : inc, 1e-9, "full-displacement-at-waypoint");
    sym_reach("near");
  } else {  // a waypoint moved one or more times
    const int moves = 1 + sym_choice("moves", sym_arg("maxMoves", 2));
    const double tw = sym_double("tw", 0.5, 20);
    Eigen::Vector3d p0;
    for (int i = 0; i < 3; ++i) p0[i] = sym_double("p0", -5, 5);
    mav_trajectory_generation::Vertex vx(3);
    vx.addConstraint(0, p0);
    DynamicWaypoint w(vx, "w");
    const int late = sym_choice("settime", 2);
    if (!late) w.setTime(tw);
    Eigen::Vector3d p = p0;
    std::vector<double> width;
    const int mode = late ? 1 : sym_choice("mode", 3);  // 0: with time to go, 1: no time given, 2: at the waypoint's own time
    double room = 0;
    for (int k = 0; k < moves; ++k) {
      for (int i = 0; i < 3; ++i) p[i] = i < 2 ? sym_double("p", -5, 5) : (double)p0[i];
      if (mode == 0) {
        const double togo = sym_double("togo", 0.3, 20), now = tw - togo;
        sym_assume(now >= 0.001);
        w.setCurrentPosition(p, now);
        width.push_back(togo / 3.0);
      } else if (mode == 1) w.setCurrentPosition(p);
      else w.setCurrentPosition(p, tw);  // at the waypoint's own time
      room += 0.02;
    }
    if (late) w.setTime(tw);
    sym_assert(w.hasModifiers(), "has-modifiers");
    const Eigen::Vector3d c0 = w.trajectoryCompensation(tw, 0), c1 = w.trajectoryCompensation(tw, 1), c2 = w.trajectoryCompensation(tw, 2);
    for (int i = 0; i < 3; ++i) {
      if (mode != 2) sym_assert_near(c0[i], p[i] - p0[i], room + 1e-9, "full-displacement-at-waypoint");
      else { sym_assert_le(c0[i], 10.0 * moves, 0, "finite-correction"); sym_assert_le(-c0[i], 10.0 * moves, 0, "finite-correction"); }
      sym_assert_near(c1[i], 0, 1e-9, "stationary-at-waypoint");
      sym_assert_near(c2[i], 0, 1e9, "finite-second-derivative");
    }
    if (mode == 0 && moves == 1) {
      const double t = sym_double("t", 0, 30);
      const double dist = t < tw ? tw - t : t - tw;
      const Eigen::Vector3d c = w.trajectoryCompensation(t, 0);
      if (dist < 3.4 * width[0]) {
        for (int i = 0; i < 2; ++i) sym_assert_near(c[i], bell(t, tw, width[0], p[i] - p0[i], 0), 0.02 + 1e-6, "width-from-time-to-go");
      } else if (dist > 4 * width[0]) {
        for (int i = 0; i < 3; ++i) sym_assert_near(c[i], 0, 0, "no-correction-before-the-change");
      }
    }
    sym_reach(mode == 0 ? "moved" : mode == 1 ? "default" : "now");
  }
  sym_reach("end");
}
