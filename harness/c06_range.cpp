// C06: sampling a range agrees with evaluating single times.
#include "util.h"
#include <mav_trajectory_generation/trajectory.h>
#include <mav_trajectory_generation/trajectory_sampling.h>
using namespace mav_trajectory_generation;
static const double C = 5;
struct Ref {
  int D, N;
  std::vector<double> T, S;
  std::vector<std::vector<Eigen::VectorXd>> c;
  Trajectory tr;
};
static Ref make(int K, int D, int N, double tmin, double tmax) {
  Ref r;
  r.D = D; r.N = N;
  Segment::Vector segs;
  r.S.push_back(0);
  for (int k = 0; k < K; ++k) {
    r.T.push_back(sym_double("T", tmin, tmax));
    r.S.push_back(r.S.back() + r.T.back());
    Segment s(N, D);
    r.c.emplace_back();
    for (int d = 0; d < D; ++d) { r.c.back().push_back(sym_vec("c", N, -C, C)); s[d] = Polynomial(r.c.back()[d]); }
    s.setTime(r.T.back());
    segs.push_back(s);
  }
  r.tr.setSegments(segs);
  return r;
}
// v is the trajectory's value at t (either neighbour at a boundary)
static int is_value(const Ref& r, double t, int d, const Eigen::VectorXd& v) {
  const double tol = 1e-9;
  for (size_t k = 0; k + 1 < r.S.size(); ++k) {
    if (t < r.S[k] - tol) continue;
    if (t > r.S[k + 1] + tol) continue;
    int good = 1;
    for (int i = 0; i < r.D && good; ++i) {
      const double diff = v[i] - oracle_eval(r.c[k][i], r.N, t - r.S[k], d);
      if (!(diff <= 1e-6 && diff >= -1e-6)) good = 0;
    }
    if (good) return 1;
  }
  return 0;
}
static void check_samples(const Ref& r, double t0, double t1, double dt, int d, const std::vector<Eigen::VectorXd>& v, const std::vector<double>* times) {
  // t0, t0+dt, ... up to before t1
  double t = t0;
  for (size_t j = 0; j < v.size(); ++j) {
    if (times) sym_assert_near((*times)[j], t, 1e-9, "sampling-time");
    sym_assert(t < t1 + 1e-9, "sample-before-end");
    sym_assert((int)v[j].size() == r.D, "value-size");
    sym_assert(is_value(r, t, d, v[j]), "sample-is-value-at-its-time");
    t = t + dt;
  }
  sym_assert(t >= t1 - 1e-9, "samples-reach-the-end");
}
void harness() {
  const int what = sym_arg("what", 0);
  if (what == 0) {
    const int K = sym_arg("minK", 1) + sym_choice("K", sym_arg("maxK", 2) - sym_arg("minK", 1) + 1);
    Ref r = make(K, 1, 3, 0.1 * sym_arg("tmin", 4), 0.1 * sym_arg("tmax", 20));
    const double dt = sym_double("dt", 0.1 * sym_arg("dtmin", 8), 3);
    double t0, t1;
    const int mode = sym_arg("whole", 0) ? 0 : sym_choice("mode", 4);
    if (mode == 0) { t0 = 0; t1 = r.tr.getMaxTime(); }
    else if (mode == 1) { t0 = r.tr.getMaxTime(); t1 = r.tr.getMaxTime(); }
    else {
      t0 = sym_double("t0", 0, 2.0 * K);
      t1 = sym_double("t1", 0, 2.0 * K);
      sym_assume(t0 <= t1);
      sym_assume(t1 <= r.tr.getMaxTime());
    }
    const int d = mode == 2 ? 0 : sym_choice("d", 3);
    std::vector<Eigen::VectorXd> v;
    std::vector<double> times;
    if (mode < 2) {  // whatever was in there before is replaced
      v.assign(2, Eigen::VectorXd::Constant(3, 7.0));
      times.assign(mode + 1, 3.5);
    }
    if (mode == 3) r.tr.evaluateRange(t0, t1, dt, d, &v);
    else r.tr.evaluateRange(t0, t1, dt, d, &v, &times);
    if (mode != 3) sym_assert(times.size() == v.size(), "as-many-values-as-times");
    check_samples(r, t0, t1, dt, d, v, mode != 3 ? &times : nullptr);
    sym_reach("range");
    if (v.size() > 2) sym_reach("several");
  } else {
    // flat-state sampling on a concrete grid, symbolic durations and coefficients
    const int grid = sym_choice("grid", 3);
    Ref r = make(2, 3, 3, 0.6, 1.0);
    const double dt = grid == 0 ? 0.25 : grid == 1 ? 0.4 : 0.3;
    const double t0 = grid == 0 ? 0 : grid == 1 ? 0.3 : 0.75, t1 = 1.0;
    // samples within a nanosecond of the boundary are covered by the other run
    for (double t = t0; t < 2; t += dt) { sym_assume(!(r.S[1] - t < 3e-9 && r.S[1] - t > -3e-9)); sym_assume(!(r.S[2] - t < 3e-9 && r.S[2] - t > -3e-9)); }
    mav_msgs::EigenTrajectoryPointVector st;
    const int op = sym_choice("op", 3);
    if (op == 2) for (double t = 0; t < 2; t += dt) { sym_assume(!(r.S[1] - t < 3e-9 && r.S[1] - t > -3e-9)); sym_assume(!(r.S[2] - t < 3e-9 && r.S[2] - t > -3e-9)); }
    if (grid == 1) st.resize(2);
    bool ok;
    double e0 = t0, e1 = t1;
    if (op == 0) ok = sampleTrajectoryInRange(r.tr, t0, t1, dt, &st);
    else if (op == 1) ok = sampleTrajectoryStartDuration(r.tr, t0, t1 - t0, dt, &st);
    else { ok = sampleWholeTrajectory(r.tr, dt, &st); e0 = 0; e1 = r.tr.getMaxTime(); }
    sym_assert(ok, "accepted");
    for (int d = 0; d < 5; ++d) {
      std::vector<Eigen::VectorXd> v;
      for (auto& s : st) v.push_back(d == 0 ? s.position_W : d == 1 ? s.velocity_W : d == 2 ? s.acceleration_W : d == 3 ? s.jerk_W : s.snap_W);
      check_samples(r, e0, e1, dt, d, v, nullptr);
    }
    for (size_t j = 0; j < st.size(); ++j) {
      const double ns = (e0 + dt * j) * 1e9, got = (double)st[j].time_from_start_ns;
      sym_assert(got <= ns + 1.0 && got >= ns - 1.0, "timestamp");
    }
    // a range outside the trajectory is refused
    mav_msgs::EigenTrajectoryPointVector s2;
    sym_assert(!sampleTrajectoryInRange(r.tr, -0.1, t1, dt, &s2), "before-start-refused");
    sym_assert(!sampleTrajectoryInRange(r.tr, 0, 2.1, dt, &s2), "after-end-refused");
    sym_reach("states");
  }
}
