// C25: vertices taken from a trajectory, and the example paths, are what they claim to be.
#include "util.h"
#include <mav_trajectory_generation/trajectory.h>
using namespace mav_trajectory_generation;
static const double C = 5, kTol = 1e-6;
struct Src {
  int K, D, N;
  std::vector<double> T, S;
  std::vector<std::vector<Eigen::VectorXd>> c;
  Trajectory tr;
  double at(size_t seg, double t, int dim, int d) const { return oracle_eval(c[seg][dim], N, t, d); }
};
static Src make(int K, int D, int N) {
  Src r;
  r.K = K; r.D = D; r.N = N;
  Segment::Vector segs;
  r.S.push_back(0);
  for (int k = 0; k < K; ++k) {
    r.T.push_back(sym_double("T", 0.2, 2));
    r.S.push_back(r.S.back() + r.T.back());
    Segment s(N, D);
    r.c.emplace_back();
    for (int d = 0; d < D; ++d) { r.c.back().push_back(sym_vec("c", N, -C, C)); s[d] = Polynomial(r.c.back()[d]); }
    s.setTime(r.T.back());
    segs.push_back(s);
  }
  r.tr.setSegments(segs);
  return r;
}
// the vertex has exactly the orders 0..max, each the trajectory's value at segment boundary b
// (from either side), in dimensions first..first+n-1
static void is_boundary(const Src& r, int b, const Vertex& v, int max, int first, int n, const char* id) {
  sym_assert(v.D() == n, id);
  sym_assert((int)v.getNumberOfConstraints() == max + 1, id);
  for (int d = 0; d <= max; ++d) {
    Eigen::VectorXd c;
    sym_assert(v.getConstraint(d, &c), id);
    sym_assert(c.size() == n, id);
    if (c.size() != n) return;
    for (int i = 0; i < n; ++i) {
      const double l = b > 0 ? c[i] - r.at(b - 1, r.T[b - 1], first + i, d) : 1, q = b < r.K ? c[i] - r.at(b, 0, first + i, d) : 1;
      sym_assert_near(l * q, 0, kTol, id);
    }
  }
}
static void taken() {
  const int how = sym_choice("how", 4), shape = sym_choice("shape", 3);
  const int K = shape + 1, D = shape == 1 ? 1 : 2, N = 3, max = shape == 2 ? 1 : sym_choice("order", 4);
  Src r = make(K, D, N);
  if (how == 0) is_boundary(r, 0, r.tr.getStartVertex(max), max, 0, D, "start-vertex");
  if (how == 1) is_boundary(r, K, r.tr.getGoalVertex(max), max, 0, D, "goal-vertex");
  if (how == 2) {
    Vertex::Vector v(sym_choice("used", 2) ? 5 : 0, Vertex(D));
    sym_assert(r.tr.getVertices(max, &v), "accepted");
    sym_assert((int)v.size() == K + 1, "one-per-boundary");
    for (int b = 0; b <= K; ++b) is_boundary(r, b, v[b], max, 0, D, b == 0 ? "first-vertex" : b == K ? "last-vertex" : "inner-vertex");
  }
  if (how == 3) {
    const int k = sym_choice("segment", K);
    const double t = sym_double("t", 0, 2);
    sym_assume(t < r.T[k] - 1e-6 && t > 1e-6);
    const Vertex v = r.tr.getVertexAtTime(r.S[k] + t, max);
    sym_assert((int)v.getNumberOfConstraints() == max + 1, "vertex-at-time");
    for (int d = 0; d <= max; ++d) {
      Eigen::VectorXd c;
      sym_assert(v.getConstraint(d, &c) && c.size() == D, "vertex-at-time");
      for (int i = 0; i < D; ++i) sym_assert_near(c[i], r.at(k, t, i, d), kTol, "vertex-at-time");
    }
  }
  sym_reach("taken");
}
// position and yaw apart
static void apart() {
  const int K = 1 + sym_choice("K", 3), N = 3;
  static const int orders[4][2] = {{0, 0}, {2, 1}, {1, 2}, {0, 3}};
  const int o = sym_choice("orders", sym_arg("orders", 3)), mp = orders[o][0], my = orders[o][1];
  Src r = make(K, 4, N);
  Vertex::Vector p, y;
  sym_assert(r.tr.getVertices(mp, my, &p, &y), "accepted");
  sym_assert((int)p.size() == K + 1 && (int)y.size() == K + 1, "one-per-boundary");
  for (int b = 0; b <= K; ++b) {
    is_boundary(r, b, p[b], mp, 0, 3, "position-vertex");
    is_boundary(r, b, y[b], my, 3, 1, "yaw-vertex");
  }
  sym_reach("apart");
}
// the square: round after round through its corners, at rest at both ends
static void square() {
  const int rounds = 1 + sym_choice("rounds", 3), max = 1 + sym_choice("order", 4);
  const Eigen::Vector3d c(sym_double("x", -10, 10), sym_double("y", -10, 10), sym_double("z", -10, 10));
  const double side = sym_double("side", 0.1, 20);
  const Vertex::Vector v = createSquareVertices(max, c, side, rounds);
  sym_assert((int)v.size() == 4 * rounds + 1, "corners-per-round");
  Eigen::VectorXd first;
  Eigen::VectorXd prev, before;
  for (size_t i = 0; i < v.size(); ++i) {
    Eigen::VectorXd p;
    sym_assert(v[i].D() == 3 && v[i].getConstraint(0, &p), "corner");
    for (int k = 0; k < 2; ++k) sym_assert_near((p[k] - c[k]) * (p[k] - c[k]), 0.25 * side * side, 1e-6, "corner-distance");
    sym_assert_near(p[2], c[2], 0, "level");
    if (i) {  // along one side
      const double dx = p[0] - prev[0], dy = p[1] - prev[1];
      sym_assert_near(dx * dx + dy * dy, side * side, 1e-6, "along-one-side");
      sym_assert_near(dx * dy, 0, 1e-6, "along-one-side");
    }
    if (i > 1) {  // and not back again
      const double dx = p[0] - before[0], dy = p[1] - before[1];
      sym_assert_near(dx * dx + dy * dy, 2 * side * side, 1e-6, "not-back-again");
    }
    const bool end = i == 0 || i + 1 == v.size();
    sym_assert((int)v[i].getNumberOfConstraints() == (end ? max + 1 : 1), "constraints");
    for (int d = 1; end && d <= max; ++d) {
      Eigen::VectorXd q;
      sym_assert(v[i].getConstraint(d, &q), "rest-at-the-ends");
      for (int k = 0; k < 3; ++k) sym_assert_near(q[k], 0, 0, "rest-at-the-ends");
    }
    if (i == 0) first = p;
    if (i + 1 == v.size()) for (int k = 0; k < 3; ++k) sym_assert_near(p[k], first[k], 1e-9, "closed");
    before = prev;
    prev = p;
  }
  sym_reach("square");
}
// random vertices: as many as asked for, in the box, apart from each other, at rest at both ends,
// and the same ones for the same seed. The generator runs as it is from a fixed seed; the box is any.
static void random_box() {
  const int D = 1 + sym_choice("D", 3), n = 1 + sym_choice("n", sym_arg("maxn", 2)), max = 1 + sym_choice("order", 2) * 2;
  static const size_t seeds[] = {0, 1, 7, 20161};
  const size_t seed = seeds[sym_choice("seed", sym_arg("seeds", 2))];
  Eigen::VectorXd lo(D), hi(D);
  for (int i = 0; i < D; ++i) { lo[i] = sym_double("lo", -10, 10); hi[i] = lo[i] + sym_double("side", 0.5, 20); }
  const bool one = D == 1 && sym_choice("scalar", 2);
  const Vertex::Vector v = one ? createRandomVertices1D(max, n, lo[0], hi[0], seed) : createRandomVertices(max, n, lo, hi, seed);
  sym_assert((int)v.size() == n + 1, "one-more-than-segments");
  Eigen::VectorXd last;
  for (int k = 0; k <= n; ++k) {
    Eigen::VectorXd p, q;
    sym_assert(v[k].D() == D && v[k].getConstraint(0, &p) && p.size() == D, "position");
    double d2 = 0;
    for (int i = 0; i < D; ++i) {
      sym_assert_le(lo[i], p[i], 1e-9, "in-the-box");
      sym_assert_le(p[i], hi[i], 1e-9, "in-the-box");
      if (k) d2 += (p[i] - last[i]) * (p[i] - last[i]);
    }
    if (k) sym_assert_le(0.04, d2, 1e-9, "apart");
    const bool end = k == 0 || k == n;
    sym_assert((int)v[k].getNumberOfConstraints() == (end ? max + 1 : 1), "constraints");
    for (int d = 1; end && d <= max; ++d) {
      sym_assert(v[k].getConstraint(d, &q) && q.size() == D, "rest-at-the-ends");
      for (int i = 0; i < D; ++i) sym_assert_near(q[i], 0, 0, "rest-at-the-ends");
    }
    last = p;
  }
  const Vertex::Vector w = createRandomVertices(max, n, lo, hi, seed);
  for (int k = 0; k <= n; ++k) {
    Eigen::VectorXd p, q;
    sym_assert(v[k].getConstraint(0, &p) && w[k].getConstraint(0, &q), "position");
    for (int i = 0; i < D; ++i) sym_assert_near(p[i], q[i], 0, "same-seed-same-vertices");
  }
  sym_reach("random");
}
void harness() {
  const int what = sym_arg("what", 0);
  if (what == 0) taken(); else if (what == 1) apart(); else if (what == 2) square(); else random_box();
}
