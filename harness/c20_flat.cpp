// C20: flat-state samples carry the trajectory's values.
#include "util.h"
#include <mav_trajectory_generation/trajectory.h>
#include <mav_trajectory_generation/trajectory_sampling.h>
using namespace mav_trajectory_generation;
using Eigen::Vector3d;
namespace {
const double C = 5;
struct Ref { int D; std::vector<double> T; Trajectory tr; std::vector<Segment> segs; std::vector<std::vector<Eigen::VectorXd>> c; };
Ref make(int K, int D, int N, int only = -1) {
  Ref r;
  r.D = D;
  const int pick = D == 6 ? sym_choice("rotation-coefficient", 3 * (N < 3 ? N : 3)) : 0, axis = 3 + pick % 3, coef = pick / 3;
  Segment::Vector segs;
  for (int k = 0; k < K; ++k) {
    Segment s(N, D);
    r.c.emplace_back();
    for (int d = 0; d < D; ++d) {
      Eigen::VectorXd c = Eigen::VectorXd::Zero(N);
      // rotation vectors: one coefficient of one axis at a time is symbolic
      if (D == 6 && d >= 3)
        for (int i = 0; i < N; ++i) c[i] = d == axis && i == coef && (only < 0 || only == k) ? sym_double("r", i ? -0.25 : 0.25, i ? 0.25 : 0.75) : 0.25 + 0.0625 * ((i * 5 + d * 3 + k) % 7) - (i ? 0.5 : 0);
      else
        for (int i = 0; i < N; ++i) c[i] = sym_double("c", -C, C);
      r.c.back().push_back(c);
      s[d] = Polynomial(c);
    }
    r.T.push_back(k == 0 ? 1.5 : 0.75);
    s.setTime(r.T.back());
    segs.push_back(s);
  }
  r.tr.setSegments(segs);
  r.segs.assign(segs.begin(), segs.end());
  return r;
}
// value of the d-th derivative of dimension i at trajectory time t inside segment k
double val(const Ref& r, int k, int i, double t, int d) {
  double s = 0;
  for (int j = 0; j < k; ++j) s += r.T[j];
  return oracle_eval(r.c[k][i], (int)r.c[k][i].size(), t - s, d);
}
void vec(const Ref& r, int k, double t, int d, const Vector3d& got, const char* id) {
  for (int i = 0; i < 3; ++i) sym_assert_near(got[i], val(r, k, i, t, d), 1e-6, id);
}
Vector3d rot(const Ref& r, const Eigen::VectorXd& v) { return Vector3d(v[3], v[4], v[5]); }
void state(const Ref& r, int k, double t, const mav_msgs::EigenTrajectoryPoint& p, const Eigen::VectorXd* x) {
  vec(r, k, t, 0, p.position_W, "position");
  vec(r, k, t, 1, p.velocity_W, "velocity");
  vec(r, k, t, 2, p.acceleration_W, "acceleration");
  vec(r, k, t, 3, p.jerk_W, "jerk");
  vec(r, k, t, 4, p.snap_W, "snap");
  const double ns = t * 1e9, got = (double)p.time_from_start_ns;
  sym_assert_le(got, ns, 1.0, "timestamp");
  sym_assert_le(ns, got, 1.0, "timestamp");
  if (r.D == 3 || r.D == 4) sym_assert(p.degrees_of_freedom == mav_msgs::MavActuation::DOF4, "degrees-of-freedom");
  if (r.D == 3) {
    sym_assert_near(p.orientation_W_B.w(), 1, 0, "orientation-untouched");
    for (int i = 0; i < 3; ++i) { sym_assert_near(p.angular_velocity_W[i], 0, 0, "rate-untouched"); sym_assert_near(p.angular_acceleration_W[i], 0, 0, "rate-untouched"); }
  } else if (r.D == 4) {
    const double h = x[0][3] / 2;  // half the yaw
    sym_assert_near(p.orientation_W_B.w(), std::cos(h), 1e-9, "yaw");
    sym_assert_near(p.orientation_W_B.z(), std::sin(h), 1e-9, "yaw");
    sym_assert_near(p.orientation_W_B.x(), 0, 0, "yaw"); sym_assert_near(p.orientation_W_B.y(), 0, 0, "yaw");
    sym_assert_near(p.getYawRate(), val(r, k, 3, t, 1), 1e-6, "yaw-rate");
    sym_assert_near(p.getYawAcc(), val(r, k, 3, t, 2), 1e-6, "yaw-acceleration");
    for (int i = 0; i < 2; ++i) { sym_assert_near(p.angular_velocity_W[i], 0, 0, "yaw-rate"); sym_assert_near(p.angular_acceleration_W[i], 0, 0, "yaw-acceleration"); }
  } else {
    sym_assert(p.degrees_of_freedom == mav_msgs::MavActuation::DOF6, "degrees-of-freedom");
    const Vector3d a = rot(r, x[0]), b = rot(r, x[1]), c = rot(r, x[2]);
    Eigen::Matrix3d m;
    mav_msgs::matrixFromRotationVector(a, &m);
    const Eigen::Quaterniond q(m);
    const Vector3d w = mav_msgs::omegaFromRotationVector(a, b), wd = mav_msgs::omegaDotFromRotationVector(a, b, c);
    for (int i = 0; i < 4; ++i) sym_assert_near(p.orientation_W_B.coeffs()[i], q.coeffs()[i], 1e-6, "orientation");
    for (int i = 0; i < 3; ++i) { sym_assert_near(p.angular_velocity_W[i], w[i], 1e-6, "angular-rate"); sym_assert_near(p.angular_acceleration_W[i], wd[i], 1e-6, "angular-acceleration"); }
  }
}
void at_time() {
  const int dd = sym_choice("D", 3), D = dd == 0 ? 3 : dd == 1 ? 4 : 6; const int only = sym_arg("D", 0); if (only) sym_assume(D == only); const int N = D == 6 ? 3 : sym_arg("N", 5);
  Ref r = make(2, D, N);
  mav_msgs::EigenTrajectoryPoint p;
  const int src = sym_choice("source", 3);
  double t;
  int k = 0;
  auto any = [&](double lo, double hi) { return D == 6 ? (lo > 1 ? 2.125 : 0.625) : sym_double("t", lo, hi); };
  bool ok;
  Eigen::VectorXd x[3];
  if (src < 2) {  // well inside either segment
    k = src;
    t = k == 0 ? any(0, 1.4999) : any(1.5001, 2.25);
    ok = sampleTrajectoryAtTime(r.tr, t, &p);
    for (int d = 0; d < 3; ++d) x[d] = r.tr.evaluate(t, d);
  } else {
    t = any(0, 1.5);
    ok = sampleSegmentAtTime(r.segs[0], t, &p);
    for (int d = 0; d < 3; ++d) x[d] = r.segs[0].evaluate(t, d);
  }
  sym_assert(ok, "accepted");
  if (D >= 4) for (int i = 3; i < D; ++i) for (int d = 0; d < 3; ++d) sym_assert_near(x[d][i], val(r, k, i, t, d), 1e-6, "value-at-time");
  state(r, k, t, p, x);
  sym_reach("at");
}
void in_range() {
  const int dd = sym_choice("D", 3), D = dd == 0 ? 3 : dd == 1 ? 4 : 6;
  const int grid = sym_choice("grid", 2);
  Ref r = make(2, D, D == 6 ? 2 : 3, grid);  // the segment that holds one sample
  const double t0 = grid ? 0.25 : 1.25, dt = grid ? 0.75 : 0.375, t1 = 2.25;
  mav_msgs::EigenTrajectoryPointVector st;
  sym_assert(sampleTrajectoryInRange(r.tr, t0, t1, dt, &st), "accepted");
  sym_assert(st.size() == 3, "sample-count");
  for (size_t j = 0; j < st.size(); ++j) {
    const double t = t0 + dt * (double)j;
    Eigen::VectorXd x[3];
    for (int d = 0; d < 3; ++d) x[d] = r.tr.evaluate(t, d);
    state(r, t < 1.5 ? 0 : 1, t, st[j], x);
  }
  sym_reach("range");
}
void refused() {
  const int D = 1 + sym_choice("D", 3);
  Ref r = make(2, D, 3);
  mav_msgs::EigenTrajectoryPoint p;
  mav_msgs::EigenTrajectoryPointVector st;
  const double t = sym_double("t", -3, 6);
  if (D < 3) {
    sym_assert(!sampleTrajectoryAtTime(r.tr, 0.5, &p), "too-few-dimensions-refused");
    sym_assert(!sampleSegmentAtTime(r.segs[0], 0.5, &p), "too-few-dimensions-refused");
    sym_assert(!sampleTrajectoryInRange(r.tr, 0.5, 1, 0.25, &st), "too-few-dimensions-refused");
    sym_assert(!sampleWholeTrajectory(r.tr, 0.25, &st), "too-few-dimensions-refused");
  } else {
    if (t < 0 || t > 2.25) {
      sym_assert(!sampleTrajectoryAtTime(r.tr, t, &p), "outside-refused");
      sym_assert(!sampleTrajectoryInRange(r.tr, t < 0 ? t : 0.5, t < 0 ? 0.5 : t, 0.25, &st), "outside-refused");
      sym_assert(!sampleTrajectoryStartDuration(r.tr, t < 0 ? t : 0.5, t, 0.25, &st) || t < 0, "outside-refused");
    }
    if (t < 0 || t > 1.5) sym_assert(!sampleSegmentAtTime(r.segs[0], t, &p), "outside-refused");
  }
  sym_reach("refused");
}
void transform() {  // a rigid transform applied to a sample
  mav_msgs::EigenTrajectoryPoint p;
  auto v3 = [](const char* n) { Vector3d v; for (int i = 0; i < 3; ++i) v[i] = sym_double(n, -5, 5); return v; };
  p.position_W = v3("p"); p.velocity_W = v3("v"); p.acceleration_W = v3("a"); p.jerk_W = v3("j"); p.snap_W = v3("s");
  p.angular_velocity_W = v3("w"); p.angular_acceleration_W = v3("wd");
  p.time_from_start_ns = 123456789;
  Eigen::Matrix3d R;
  if (sym_choice("turn", 2)) R << 0.6, -0.8, 0, 0.8, 0.6, 0, 0, 0, 1; else R << 1, 0, 0, 0, 0, -1, 0, 1, 0;
  const Vector3d o(1, -2, 3);
  Eigen::Affine3d T = Eigen::Affine3d::Identity();
  T.linear() = R;
  T.translation() = o;
  p.orientation_W_B = mav_msgs::quaternionFromYaw(0.5);
  const Eigen::Matrix3d B = p.orientation_W_B.toRotationMatrix();
  const mav_msgs::EigenTrajectoryPoint q = T * p;
  const Vector3d a[7] = {p.position_W, p.velocity_W, p.acceleration_W, p.jerk_W, p.snap_W, p.angular_velocity_W, p.angular_acceleration_W};
  const Vector3d b[7] = {q.position_W, q.velocity_W, q.acceleration_W, q.jerk_W, q.snap_W, q.angular_velocity_W, q.angular_acceleration_W};
  for (int n = 0; n < 7; ++n) for (int i = 0; i < 3; ++i)
    sym_assert_near(b[n][i], R(i, 0) * a[n][0] + R(i, 1) * a[n][1] + R(i, 2) * a[n][2] + (n == 0 ? o[i] : 0.0), 1e-9, "transformed");
  sym_assert((q.orientation_W_B.toRotationMatrix() - R * B).norm() < 1e-9, "orientation-transformed");
  sym_assert(q.time_from_start_ns == p.time_from_start_ns, "time-kept");
  sym_reach("transform");
}
}  // namespace
void harness() {
  sym_tagged_ints(1);
  const int what = sym_arg("what", 0);
  if (what == 0) at_time(); else if (what == 1) in_range(); else if (what == 2) refused(); else transform();
}
