// Driver for the dynamic trajectory generator (public interface only).
#pragma once
#include "fibers.h"
#include "util.h"
#include "dyn_stub.h"
#include "dynamic_trajectory.hpp"
using namespace dynamic_traj_generator;
using mav_trajectory_generation::Vertex;
namespace stub {
long compute_ns = 20000000;  // how long an optimization takes
double seg_time[8] = {1.0, 2.0, 1.5, 1.0, 2.0, 1.5, 1.0, 2.0};
std::vector<Guess>& guesses() { static auto* v = new std::vector<Guess>; return *v; }
std::vector<Asked>& asked() { static auto* v = new std::vector<Asked>; return *v; }
void solve(Asked& a) {
  for (size_t i = 0; i < a.times.size(); ++i) a.times[i] = seg_time[i % 8];
  asked().push_back(a);
  const size_t me = asked().size() - 1;
  if (compute_ns) sched::sleep_ns(compute_ns);
  else sched::point();
  asked()[me].done = true;
}
// quintic through position, velocity and acceleration at both ends
void build(const Asked& a, mav_trajectory_generation::Trajectory* t) {
  const size_t n = a.vertices.size();
  std::vector<std::array<Eigen::Vector3d, 3>> s(n);
  for (size_t i = 0; i < n; ++i) {
    s[i][0] = Eigen::Vector3d(0.5, -0.25, 1.0 + i);
    s[i][1] = Eigen::Vector3d(0.375, -0.25, 0.125 * (i + 1));
    s[i][2] = Eigen::Vector3d(-0.25, 0.5, 0.25);
    for (int d = 0; d < 3; ++d) {
      Eigen::VectorXd c;
      if (a.vertices[i].getConstraint(d, &c)) s[i][d] = c;
    }
  }
  mav_trajectory_generation::Segment::Vector segs;
  for (size_t i = 0; i + 1 < n; ++i) {
    const double T = a.times[i], T2 = T * T, T3 = T2 * T;
    mav_trajectory_generation::Segment g(10, 3);
    g.setTime(T);
    for (int k = 0; k < 3; ++k) {
      const double p0 = s[i][0][k], v0 = s[i][1][k], a0 = s[i][2][k], p1 = s[i + 1][0][k], v1 = s[i + 1][1][k], a1 = s[i + 1][2][k];
      Eigen::VectorXd c = Eigen::VectorXd::Zero(10);
      c[0] = p0; c[1] = v0; c[2] = a0 * 0.5;
      const double e0 = p1 - p0 - v0 * T - 0.5 * a0 * T2, e1 = v1 - v0 - a0 * T, e2 = a1 - a0;
      c[3] = (10 * e0 - 4 * T * e1 + 0.5 * T2 * e2) * (1.0 / T3);
      c[4] = (-15 * e0 + 7 * T * e1 - T2 * e2) * (1.0 / (T3 * T));
      c[5] = (6 * e0 - 3 * T * e1 + 0.5 * T2 * e2) * (1.0 / (T3 * T2));
      g[k] = mav_trajectory_generation::Polynomial(10, c);
    }
    segs.push_back(g);
  }
  t->setSegments(segs);
}
}  // namespace stub
namespace mav_trajectory_generation {
// the first guess of the durations plays no part here (checked by C11)
std::vector<double> estimateSegmentTimes(const Vertex::Vector& v, double v_max, double a_max) { stub::guesses().push_back({v.size(), v_max, a_max}); return std::vector<double>(v.empty() ? 0 : v.size() - 1, 1.0); }
}
const double kMs = 1e-3;
inline void pause_ms(long ms) { sched::sleep_ns(ms * 1000000L); }
// a call must come back while time passes only by so much
struct Limit {
  long old;
  explicit Limit(long ms = 3000) : old(sched::S().limit) { sched::S().limit = sched::S().now + ms * 1000000L; }
  ~Limit() { sched::S().limit = old; }
};
inline DynamicWaypoint waypoint(const std::string& name, const Eigen::Vector3d& p) {
  Vertex v(3);
  v.addConstraint(0, p);
  return DynamicWaypoint(v, name);
}
inline Eigen::Vector3d sym_pos(const char* name) { return Eigen::Vector3d(sym_double(name, -10, 10), 1.0, 2.0); }
inline bool helper(const DynamicWaypoint& w) { return w.getName() == "" || w.getName() == "stitching_point"; }
inline References eval(DynamicTrajectory& d, double t, bool plot = false, bool only_position = false) {
  Limit l;
  References r;
  for (int i = 0; i < 3; ++i) r[i] = Eigen::Vector3d::Zero();
  d.evaluateTrajectory((float)t, r, only_position, plot);
  return r;
}
inline DynamicWaypoint::Deque served(DynamicTrajectory& d) {
  Limit l;
  return d.getDynamicWaypoints();
}
inline double clock_s() { return (sched::S().now - 1000000000L) * 1e-9; }
