// C21: rotation conversions are consistent.
#include "util.h"
#include <iostream>
#include "mav_msgs/eigen_mav_msgs.hpp"
using Eigen::Matrix3d;
using Eigen::Vector3d;
namespace {
Matrix3d cross_matrix(const Vector3d& v) {
  Matrix3d m;
  m(0, 0) = 0; m(0, 1) = -v[2]; m(0, 2) = v[1];
  m(1, 0) = v[2]; m(1, 1) = 0; m(1, 2) = -v[0];
  m(2, 0) = -v[1]; m(2, 1) = v[0]; m(2, 2) = 0;
  return m;
}
void near3(const Vector3d& a, const Vector3d& b, double tol, const char* id) { for (int i = 0; i < 3; ++i) sym_assert_near(a[i], b[i], tol, id); }
Vector3d vec3(const char* n, double m) { Vector3d v; for (int i = 0; i < 3; ++i) v[i] = sym_double(n, -m, m); return v; }
// axes with rational unit vectors: components and length
const double kAxes[8][4] = {{1, 0, 0, 1}, {0, 1, 0, 1}, {0, 0, 1, 1}, {0, 0, -1, 1}, {3, 4, 0, 5}, {-1, 2, 2, 3}, {2, -3, 6, 7}, {-4, -4, 7, 9}};
// any rotation vector: Rodrigues' formula, written out from cosine, sine and axis
void matrix() {
  const Vector3d r = vec3("r", 3);
  Matrix3d m;
  mav_msgs::matrixFromRotationVector(r, &m);
  const double phi = r.norm();
  if (!(phi > 0.0)) {
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sym_assert_near(m(i, j), i == j, 1e-6, "no-rotation-is-the-identity");
    sym_reach("zero");
    return;
  }
  if (phi < 0.01) return;  // tiny turns: see the axes run
  const Vector3d n(r[0] / phi, r[1] / phi, r[2] / phi);
  const double s = std::sin(phi), c = std::cos(phi), w = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
  const Matrix3d k = cross_matrix(n);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      const double e = (i == j ? 1.0 : 0.0) + s * k(i, j) + (1 - c) * (n[i] * n[j] - (i == j ? w : 0.0));
      sym_assert_near(m(i, j), e, 1e-8, "rotation-by-length-about-axis");
    }
  sym_reach("matrix");
}
// all angles about given axes: proper rotation, and back
void round_trip() {
  static const double kRange[10] = {1e-9, 1e-7, 6e-7, 2e-6, 1e-5, 1e-4, 3e-3, 0.05, 3.05, 3.1405};
  const int ax = sym_choice("axis", 8), size = sym_choice("size", 9);
  const double* a = kAxes[ax];
  const double th = sym_double("angle", kRange[size], kRange[size + 1]);
  const double u = th / a[3];
  const Vector3d r(u * a[0], u * a[1], u * a[2]), n(a[0] / a[3], a[1] / a[3], a[2] / a[3]);
  Matrix3d m;
  mav_msgs::matrixFromRotationVector(r, &m);
  const Matrix3d mm = m.transpose() * m;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sym_assert_near(mm(i, j), i == j, 1e-9, "orthonormal");
  sym_assert_near(m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)), 1, 1e-9, "proper");
  near3(m * n, n, 1e-9, "axis-stays");
  const Vector3d p = a[0] != 0 || a[1] != 0 ? Vector3d(-n[1], n[0], 0) : Vector3d(1, 0, 0);  // perpendicular
  const Vector3d q = n.cross(p);
  near3(m * p, p * std::cos(th) + q * std::sin(th), 1e-9, "turned-by-the-angle");
  sym_assert(mav_msgs::isRotationMatrix(m), "accepted-as-rotation");
  Vector3d back(7, 7, 7);
  sym_assert(mav_msgs::vectorFromRotationMatrix(m, &back), "converted-back");
  near3(back, r, 2e-6, "vector-returned");
  sym_reach(size < 5 ? "tiny" : size == 8 ? "large" : "middle");
}
void half_turn() {  // the axis is determined up to its sign
  const int ax = sym_choice("axis", 8);
  const double* a = kAxes[ax];
  const double off = sym_choice("off", 3) * 1e-9;
  const double u = (3.14159265358979 - off) / a[3];
  const Vector3d r(u * a[0], u * a[1], u * a[2]);
  Matrix3d m, m2;
  mav_msgs::matrixFromRotationVector(r, &m);
  Vector3d back;
  sym_assert(mav_msgs::vectorFromRotationMatrix(m, &back), "half-turn-converted-back");
  mav_msgs::matrixFromRotationVector(back, &m2);
  sym_assert((m - m2).norm() < 1e-5, "half-turn-same-rotation");
  sym_assert(std::abs(back.norm() - r.norm()) < 1e-5, "half-turn-angle");
  sym_reach("half");
}
// matrices that are not rotations: a 2x2 block (two free entries on a diagonal, one free entry of a turn, or a scaled turn) and a third diagonal entry
void refuse() {
  const int ax = sym_choice("axis", 3);
  const int i = (ax + 1) % 3, j = (ax + 2) % 3;
  Matrix3d m = Matrix3d::Zero();
  const int form = sym_choice("form", 5);
  const double x0 = sym_double("x", -2, 2), x1 = form >= 2 ? 0 : sym_double("y", -2, 2);
  double a = 0.6, b = -0.8, c = 0.8, d = 0.6;
  if (form == 0) { a = x0; d = x1; b = c = 0; }
  if (form == 1) { b = x0; c = x1; a = d = 0; }
  if (form == 2) b = x0;
  if (form == 3) c = x0;
  if (form == 4) { a *= x0; b *= x0; c *= x0; d *= x0; }
  const double e = sym_choice("e", 2) ? 1.0 : -1.0;
  m(i, i) = a; m(i, j) = b; m(j, i) = c; m(j, j) = d; m(ax, ax) = e;
  const bool ok = mav_msgs::isRotationMatrix(m);
  const double x = a * a + c * c - 1, y = b * b + d * d - 1, z = a * b + c * d, det = e * (a * d - b * c);
  if (ok) {
    sym_assert_le(x, 2e-6, 0, "refuses-non-orthonormal"); sym_assert_le(-x, 2e-6, 0, "refuses-non-orthonormal");
    sym_assert_le(y, 2e-6, 0, "refuses-non-orthonormal"); sym_assert_le(-y, 2e-6, 0, "refuses-non-orthonormal");
    sym_assert_le(z, 2e-6, 0, "refuses-non-orthonormal"); sym_assert_le(-z, 2e-6, 0, "refuses-non-orthonormal");
    sym_assert_le(1 - det, 2e-6, 0, "refuses-reflections");
    sym_reach("accepted");
  } else {
    Vector3d back(7, 7, 7);
    sym_assert(!mav_msgs::vectorFromRotationMatrix(m, &back), "conversion-refused");
    sym_reach("refused");
  }
}
// angular rate and acceleration are the first and second time derivatives of the rotation
void rates() {
  const Vector3d r = vec3("r", 3), v = vec3("v", 3), a = vec3("a", 3);
  const double phi = r.norm();
  const Vector3d w = mav_msgs::omegaFromRotationVector(r, v), wd = mav_msgs::omegaDotFromRotationVector(r, v, a);
  if (phi < 1e-3) {  // first order: v + r x v / 2 and a + r x a / 2 (+ second order terms)
    for (int i = 0; i < 3; ++i) { sym_assert_near(w[i], v[i], 0.02, "rate-of-tiny-rotation"); sym_assert_near(wd[i], a[i], 0.05, "acceleration-of-tiny-rotation"); }
    sym_reach("tiny-rate");
    return;
  }
  sym_assume(phi >= 0.05);
  const double s = std::sin(phi), c = std::cos(phi), p1 = 1.0 / phi, p2 = p1 * p1, p3 = p2 * p1, p4 = p3 * p1;
  const Vector3d rv = r.cross(v), rrv = r.cross(rv), ra = r.cross(a), rra = r.cross(ra), vrv = v.cross(rv);
  const double pd = (r[0] * v[0] + r[1] * v[1] + r[2] * v[2]) * p1;
  const double A = (1 - c) * p2, B = (phi - s) * p3;                                       // w = v + A r x v + B r x (r x v)
  const double dA = (s * p2 - 2 * (1 - c) * p3) * pd, dB = ((1 - c) * p3 - 3 * (phi - s) * p4) * pd;
  for (int i = 0; i < 3; ++i) {
    sym_assert_near(w[i], v[i] + A * rv[i] + B * rrv[i], 1e-6, "angular-rate");
    sym_assert_near(wd[i], a[i] + A * ra[i] + B * rra[i] + dA * rv[i] + dB * rrv[i] + B * vrv[i], 1e-4, "angular-acceleration");
  }
  sym_reach("rates");
}
void yaw() {
  const double y = sym_double("yaw", -3.14, 3.14);
  const Eigen::Quaterniond q = mav_msgs::quaternionFromYaw(y);
  const Matrix3d m = q.toRotationMatrix();
  const double s = std::sin(y / 2), c = std::cos(y / 2), sy = 2 * s * c, cy = 1 - 2 * s * s;
  const double e[9] = {cy, -sy, 0, sy, cy, 0, 0, 0, 1};
  for (int i = 0; i < 9; ++i) sym_assert_near(m(i / 3, i % 3), e[i], 1e-12, "yaw-turns-about-z");
  const double back = mav_msgs::yawFromQuaternion(q);
  sym_assert_le(back, 3.1415926535897936, 0, "yaw-in-range"); sym_assert_le(-back, 3.1415926535897936, 0, "yaw-in-range");
  sym_assert_near(std::sin(back), sy, 1e-9, "yaw-returned");
  sym_assert_near(std::cos(back), cy, 1e-9, "yaw-returned");
  mav_msgs::EigenTrajectoryPoint p;
  p.setFromYaw(y); p.setFromYawRate(2 * y); p.setFromYawAcc(3 * y);
  sym_assert_near(std::sin(p.getYaw()), sy, 1e-9, "point-yaw");
  sym_assert_near(p.getYawRate(), 2 * y, 0, "point-yaw-rate");
  sym_assert_near(p.getYawAcc(), 3 * y, 0, "point-yaw-acceleration");
  sym_assert_near(p.angular_velocity_W.x(), 0, 0, "yaw-rate-about-z-only"); sym_assert_near(p.angular_velocity_W.y(), 0, 0, "yaw-rate-about-z-only");
  sym_assert_near(p.angular_acceleration_W.x(), 0, 0, "yaw-rate-about-z-only"); sym_assert_near(p.angular_acceleration_W.y(), 0, 0, "yaw-rate-about-z-only");
  mav_msgs::EigenOdometry o;
  o.setFromYaw(y); o.setFromYawRate(y);
  sym_assert_near(std::sin(o.getYaw()), sy, 1e-9, "odometry-yaw");
  sym_assert_near(o.getYawRate(), y, 0, "odometry-yaw-rate");
  sym_reach("yaw");
}
void euler() {  // any unit quaternion made from yaw, pitch and roll half-angle tangents
  Eigen::Quaterniond q(sym_double("w", -1, 1), sym_double("x", -1, 1), sym_double("y", -1, 1), sym_double("z", -1, 1));
  const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  const double n = w * w + x * x + y * y + z * z;
  sym_assume_le(n, 1.0); sym_assume_le(1.0 - 1e-9, n);
  const Matrix3d m = q.toRotationMatrix();
  const double sp = -m(2, 0);
  sym_assume(sp < 0.999); sym_assume(sp > -0.999);
  Vector3d e;
  mav_msgs::getEulerAnglesFromQuaternion(q, &e);
  const double yw = mav_msgs::yawFromQuaternion(q);
  sym_assert_near(e[2], yw, 0, "yaw-agrees");
  sym_assert_near(std::sin(e[1]), sp, 1e-9, "pitch");
  const double cr = m(2, 2), sr = m(2, 1), cw = m(0, 0), sw = m(1, 0);
  // roll and yaw by direction: same direction as (cos, sin) from the matrix
  sym_assert_near(e[0], std::atan2(sr, cr), 1e-9, "roll");
  sym_assert_near(e[2], std::atan2(sw, cw), 1e-9, "yaw");
  sym_reach("euler");
}
void linear() {
  const Vector3d v = vec3("v", 10), x = vec3("x", 10);
  Matrix3d k;
  mav_msgs::skewMatrixFromVector(v, &k);
  near3(k * x, v.cross(x), 1e-9, "skew-is-the-cross-product");
  Vector3d back(7, 7, 7);
  sym_assert(mav_msgs::vectorFromSkewMatrix(k, &back), "skew-accepted");
  near3(back, v, 0, "skew-returned");
  const int i = sym_choice("i", 3), j = sym_choice("j", 3);
  const double d = sym_double("d", -5, 5);
  Matrix3d bad = k;
  bad(i, j) += d;
  const bool ok = mav_msgs::vectorFromSkewMatrix(bad, &back);
  if (d > 1e-3 || d < -1e-3) { sym_assert(!ok, "non-skew-refused"); sym_reach("nonskew"); }
  mav_msgs::EigenOdometry o;
  o.orientation_W_B = mav_msgs::quaternionFromYaw(x[0] / 4);
  o.setVelocityWorld(v);
  near3(o.getVelocityWorld(), v, 1e-9, "velocity-frames");
  sym_reach("linear");
}
void rotor() {
  Eigen::MatrixXd A(4, 4);
  const int fill = sym_choice("fill", 2);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) A(i, j) = fill == 0 ? (i * 3 + j * 5) % 7 - 3.0 : (i == j ? 2.0 : 0.5 * (i - j));
  const Vector3d J = vec3("J", 5), w = vec3("w", 5), al = vec3("al", 5);
  const double mass = sym_double("m", 0.1, 10), acc = sym_double("acc", 0, 20);
  const Vector3d b(0.6 * acc, 0, -0.8 * acc);
  Eigen::VectorXd out;
  mav_msgs::getSquaredRotorSpeedsFromAllocationAndState(A, J, mass, w, al, b, &out);
  const double t[4] = {J[0] * al[0] + (w[1] * J[2] * w[2] - w[2] * J[1] * w[1]), J[1] * al[1] + (w[2] * J[0] * w[0] - w[0] * J[2] * w[2]),
                       J[2] * al[2] + (w[0] * J[1] * w[1] - w[1] * J[0] * w[0]), mass * acc};
  sym_assert(out.size() == 4, "one-speed-per-rotor");
  for (int i = 0; i < 4; ++i) {
    double e = 0;
    for (int j = 0; j < 4; ++j) e += A(i, j) * t[j];
    sym_assert_near(out[i], e, 1e-6, "rotor-speeds");
  }
  sym_reach("rotor");
}
}  // namespace
void harness() {
  switch (sym_arg("what", 0)) {
    case 0: matrix(); break;
    case 1: round_trip(); break;
    case 2: half_turn(); break;
    case 3: refuse(); break;
    case 4: rates(); break;
    case 5: yaw(); break;
    case 6: euler(); break;
    case 7: linear(); break;
    case 8: rotor(); break;
  }
}
