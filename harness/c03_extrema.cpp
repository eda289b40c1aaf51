// C03: reported extrema bound every value.  In the stubbed runs the root finder
// returns arbitrary symbolic roots; what the code asked it for is checked too.
// (Between consecutive roots of the derivative a function is monotone, so
// bounding the end points and every root in the interval bounds every value.)
#include "util.h"
#include <complex>
#include <mav_trajectory_generation/polynomial_optimization_linear.h>
#include <mav_trajectory_generation/trajectory.h>
using namespace mav_trajectory_generation;
#ifdef STUB_ROOTS
namespace {
struct Asked { Eigen::VectorXd c; std::vector<std::complex<double>> roots; };
std::vector<Asked> asked;
int roots_per_call = -1;  // -1: by choice
}
namespace mav_trajectory_generation {
bool findRootsJenkinsTraub(const Eigen::VectorXd& c, Eigen::VectorXcd* roots) {
  Asked a;
  a.c = c;
  const int deg = (int)c.size() > 1 ? (int)c.size() - 1 : 0;
  int n = roots_per_call >= 0 ? roots_per_call : sym_choice("roots", 4);
  if (n == 3 && roots_per_call < 0) { asked.push_back(a); return false; }  // no roots found
  if (n > deg) n = deg;
  for (int i = 0; i < n; ++i) {
    const bool real = i > 0 || sym_choice("complex", 2) == 0;
    a.roots.push_back(real ? std::complex<double>(sym_double("root", -1, 4), 0.0) : std::complex<double>(0.75, sym_choice("sign", 2) ? 0.01 : -0.5));
  }
  roots->resize(n);
  for (int i = 0; i < n; ++i) (*roots)[i] = a.roots[i];
  asked.push_back(a);
  return true;
}
}  // namespace mav_trajectory_generation
#endif
namespace {
bool inside(double x, double a, double b) { return x >= a && x <= b; }
#ifdef STUB_ROOTS
// the reported extrema of f over [t0,t1] given the roots handed out
template <class F>
void bounds(const F& f, double t0, double t1, const std::vector<std::complex<double>>& roots, double tmin, double vmin, double tmax, double vmax, double tol, const std::string& id) {
  sym_assert(inside(tmin, t0, t1) && inside(tmax, t0, t1), lbl(id + "-time-in-interval"));
  sym_assert_near(f(tmin), vmin, tol, lbl(id + "-minimum-attained"));
  sym_assert_near(f(tmax), vmax, tol, lbl(id + "-maximum-attained"));
  std::vector<double> pts = {t0, t1};
  for (auto& r : roots) if (r.imag() == 0 && inside(r.real(), t0, t1)) pts.push_back(r.real());
  for (double t : pts) {
    const double v = f(t);
    sym_assert_le(vmin, v, tol, lbl(id + "-minimum-bounds"));
    sym_assert_le(v, vmax, tol, lbl(id + "-maximum-bounds"));
  }
}
void polynomial() {
  const int N = 2 + sym_choice("N", sym_arg("maxN", 4) - 1), d = sym_choice("derivative", 3);
  const Eigen::VectorXd c = sym_vec("c", N, -3, 3);
  const Polynomial p(c);
  const double t0 = sym_double("t0", 0, 2), t1 = sym_double("t1", 0, 4);
  sym_assume(t0 <= t1);
  auto f = [&](double t) { return oracle_eval(c, N, t, d); };
  std::pair<double, double> mn, mx;
  const int api = sym_choice("api", 2);
  if (api == 0) {
    const bool ok = p.computeMinMax(t0, t1, d, &mn, &mx);
    if (d > N - 1) { sym_assert(!ok, "refused-above-order"); sym_reach("above-order"); return; }
    sym_assert(ok && asked.size() == 1, "accepted");
    // the polynomial asked about is the next derivative
    const Eigen::VectorXd& q = asked[0].c;
    for (int j = 0; j < N; ++j) {
      double want = 0;
      if (j + d + 1 < N) { want = c[j + d + 1]; for (int k = 0; k <= d; ++k) want = want * (double)(j + d + 1 - k); }
      if (j < q.size()) sym_assert_near(q[j], want, 1e-9, "asks-for-the-derivative"); else sym_assert_near(want, 0, 0, "asks-for-the-derivative");
    }
    bounds(f, t0, t1, asked[0].roots, mn.first, mn.second, mx.first, mx.second, 1e-7, "polynomial");
    sym_reach("polynomial");
  } else {
    if (d > N - 1) return;
    std::vector<std::complex<double>> r;
    Eigen::VectorXcd rv(2);
    for (int i = 0; i < 2; ++i) { r.push_back(std::complex<double>(sym_double("given", -1, 4), i == 1 && sym_choice("complex", 2) ? 0.5 : 0.0)); rv[i] = r.back(); }
    if (sym_choice("backwards", 2)) {
      sym_assume(t1 > t0);
      sym_assert(!p.selectMinMaxFromRoots(t1, t0, d, rv, &mn, &mx), "backwards-refused");
      sym_assert(!p.computeMinMax(t1, t0, d, &mn, &mx), "backwards-refused");
      sym_reach("backwards");
      return;
    }
    sym_assert(p.selectMinMaxFromRoots(t0, t1, d, rv, &mn, &mx), "accepted");
    bounds(f, t0, t1, r, mn.first, mn.second, mx.first, mx.second, 1e-7, "from-roots");
    sym_reach("from-roots");
  }
}
// the polynomial asked about for a magnitude is sum v.v'
void magnitude_request() {
  const int N = 2 + sym_choice("N", sym_arg("maxN", 4) - 1), D = 1 + sym_choice("D", 3), d = sym_choice("derivative", 3);
  Segment s(N, D);
  std::vector<Eigen::VectorXd> c;
  for (int i = 0; i < D; ++i) { c.push_back(sym_vec("c", N, -3, 3)); s[i] = Polynomial(c[i]); }
  s.setTime(1.5);
  const int pick = sym_choice("dims", 3);
  std::vector<int> dims;
  for (int i = 0; i < D; ++i) if (pick == 0 || (pick == 1 && i != 1) || (pick == 2 && i == D - 1)) dims.push_back(i);
  roots_per_call = 0;
  std::vector<Extremum> cand;
  sym_assert(s.computeMinMaxMagnitudeCandidates(d, 0.25, 1.25, dims, &cand), "accepted");
  sym_assert(cand.size() == 2, "end-points-only");
  if (asked.empty()) sym_assert(d >= N - 1, "asks-about-the-magnitude");
  else {
    // coefficients of sum v v' (or of v' for a single dimension)
    const int n = N - d;
    std::vector<double> want(2 * N + 2, 0.0);
    auto der = [&](int i, int j, int k) { double v = j + k < N ? c[i][j + k] : 0.0; for (int m = 0; m < k; ++m) v = v * (double)(j + k - m); return v; };
    for (int i : dims)
      for (int a = 0; a < n; ++a)
        if (dims.size() == 1) want[a] = want[a] + der(i, a, d + 1);
        else for (int b = 0; b + 1 < n; ++b) want[a + b] = want[a + b] + der(i, a, d) * der(i, b, d + 1);
    const Eigen::VectorXd& q = asked[0].c;
    for (int j = 0; j < (int)want.size(); ++j) {
      if (j < q.size()) sym_assert_near(q[j], want[j], 1e-7, "asks-about-the-magnitude");
      else sym_assert_near(want[j], 0, 0, "asks-about-the-magnitude");
    }
  }
  for (int k = 0; k < 2; ++k) {
    double sq = 0;
    for (int i : dims) { const double v = oracle_eval(c[i], N, k ? 1.25 : 0.25, d); sq = sq + v * v; }
    sym_assert_near(cand[k].time, k ? 1.25 : 0.25, 0, "candidate-time");
    sym_assert_near(cand[k].value * cand[k].value, sq, 1e-5, "candidate-value");
  }
  sym_reach("asked");
}
void refused() {  // dimensions that do not exist
  Segment s(3, 2);
  for (int i = 0; i < 2; ++i) s[i] = Polynomial(sym_vec("c", 3, -3, 3));
  s.setTime(1);
  Trajectory tr;
  tr.setSegments({s});
  std::vector<int> dims;
  const int n = sym_choice("count", 3);
  bool bad = n == 0;
  for (int i = 0; i < n; ++i) { dims.push_back(sym_choice("dim", 5) - 1); bad = bad || dims.back() < 0 || dims.back() > 1; }
  roots_per_call = 0;
  Extremum mn, mx;
  std::vector<Extremum> cand;
  std::vector<double> times;
  const int d = sym_choice("derivative", 4);
  sym_assert(tr.computeMinMaxMagnitude(d, dims, &mn, &mx) == !bad, "missing-dimensions-refused");
  sym_assert(s.computeMinMaxMagnitudeCandidates(d, 0, 1, dims, &cand) == !bad, "missing-dimensions-refused");
  sym_assert(s.computeMinMaxMagnitudeCandidateTimes(d, 0, 1, dims, &times) == !bad, "missing-dimensions-refused");
  if (bad) sym_reach("refused");
}
// selection over segments, concrete coefficients, symbolic roots and durations
const double lists[3][4][3] = {{{1, -2, 1}, {0.5, 1, -1}, {-1, 0.5, 0.25}, {2, -1, -0.5}}, {{0, 1, -0.5}, {1, 0, 1}, {0.5, -1, 0.5}, {-1, 2, -1}}, {{2, 0, 0}, {1, -1, 0}, {0, 0, 0}, {1, 1, 1}}};
void magnitude() {
  const int l = sym_choice("list", sym_arg("lists", 1)), D = 1 + sym_choice("D", 2), d = sym_choice("derivative", 2), K = 1 + sym_choice("K", 2);
  Segment::Vector segs;
  std::vector<double> T;
  std::vector<std::vector<Eigen::VectorXd>> c(K);
  for (int k = 0; k < K; ++k) {
    Segment s(3, D);
    for (int i = 0; i < D; ++i) { c[k].push_back(Eigen::Vector3d(lists[l][2 * k + i][0], lists[l][2 * k + i][1], lists[l][2 * k + i][2])); s[i] = Polynomial(c[k][i]); }
    T.push_back(k == 0 ? sym_double("T", 0.5, 2) : 1.25);
    s.setTime(T[k]);
    segs.push_back(s);
  }
  roots_per_call = 1;
  Trajectory tr;
  tr.setSegments(segs);
  std::vector<int> dims;
  for (int i = 0; i < D; ++i) dims.push_back(i);
  Extremum mn, mx;
  sym_assert(tr.computeMinMaxMagnitude(d, dims, &mn, &mx), "accepted");
  auto sq = [&](int k, double t) { double s = 0; for (int i = 0; i < D; ++i) { const double v = oracle_eval(c[k][i], 3, t, d); s = s + v * v; } return s; };
  sym_assert(mn.segment_idx >= 0 && mn.segment_idx < K && mx.segment_idx >= 0 && mx.segment_idx < K, "segment-index");
  sym_assert(inside(mn.time, 0, T[mn.segment_idx]) && inside(mx.time, 0, T[mx.segment_idx]), "time-in-segment");
  sym_assert_le(0, mn.value, 0, "magnitude-not-negative");
  const double lo = mn.value * mn.value, hi = mx.value * mx.value;
  sym_assert_near(sq(mn.segment_idx, mn.time), lo, 1e-6, "minimum-attained");
  sym_assert_near(sq(mx.segment_idx, mx.time), hi, 1e-6, "maximum-attained");
  sym_assert(asked.size() == (size_t)K, "every-segment-asked");
  for (int k = 0; k < K; ++k) {
    std::vector<double> pts = {0, T[k]};
    for (auto& r : asked[k].roots) if (r.imag() == 0 && inside(r.real(), 0, T[k])) pts.push_back(r.real());
    for (double t : pts) { sym_assert_le(lo, sq(k, t), 1e-4, "minimum-bounds"); sym_assert_le(sq(k, t), hi, 1e-4, "maximum-bounds"); }
  }
  sym_reach("magnitude");
}
#else
// the real root finder on given polynomials; the time is symbolic
double num(unsigned& s) { s = s * 1103515245u + 12345u; return ((int)((s >> 16) & 63) - 32) / 16.0; }
void real_polynomials() {
  const int which = sym_choice("polynomial", sym_arg("count", 24)), N = 3 + which % 8, d = sym_choice("derivative", 2);
  unsigned seed = 77u + 131u * (unsigned)which;
  Eigen::VectorXd c(N);
  for (int i = 0; i < N; ++i) c[i] = num(seed) / (i < 2 ? 1 : i);
  if (which % 5 == 3) c[N - 1] = 0;
  if (which % 7 == 4) c[d + 1] = 0;
  if (which % 11 == 5) { c.setZero(); c[0] = 1; c[3 % N] = -0.5; }
  const Polynomial p(c);
  const double T = 1.0 + 0.25 * (which % 4);
  std::pair<double, double> mn, mx;
  sym_assert(p.computeMinMax(0.25, T, d, &mn, &mx), "accepted");
  sym_assert(inside(mn.first, 0.25, T) && inside(mx.first, 0.25, T), "time-in-interval");
  sym_assert_near(oracle_eval(c, N, mn.first, d), mn.second, 1e-9, "minimum-attained");
  sym_assert_near(oracle_eval(c, N, mx.first, d), mx.second, 1e-9, "maximum-attained");
  const double t = sym_double("t", 0.25, T), v = oracle_eval(c, N, t, d);
  sym_assert_le(mn.second, v, 1e-6, "minimum-bounds-every-time");
  sym_assert_le(v, mx.second, 1e-6, "maximum-bounds-every-time");
  sym_reach("real");
}
void real_magnitudes() {
  const int which = sym_choice("trajectory", sym_arg("count", 10)), N = 3 + which % 4, D = 2 + which % 2, d = sym_choice("derivative", 2), K = 2;
  unsigned seed = 991u + 17u * (unsigned)which;
  Segment::Vector segs;
  std::vector<std::vector<Eigen::VectorXd>> c(K);
  for (int k = 0; k < K; ++k) {
    Segment s(N, D);
    for (int i = 0; i < D; ++i) {
      Eigen::VectorXd x(N);
      for (int j = 0; j < N; ++j) x[j] = num(seed) / (j < 2 ? 1 : j);
      c[k].push_back(x);
      s[i] = Polynomial(x);
    }
    s.setTime(0.75 + 0.5 * k);
    segs.push_back(s);
  }
  Trajectory tr;
  tr.setSegments(segs);
  std::vector<int> dims;
  for (int i = 0; i < D; ++i) if (which % 3 != 1 || i != 1 || D == 2) dims.push_back(i);
  Extremum mn, mx;
  sym_assert(tr.computeMinMaxMagnitude(d, dims, &mn, &mx), "accepted");
  if (dims.size() == (size_t)D && d == 1) {
    double v, a;
    sym_assert(tr.computeMaxVelocityAndAcceleration(&v, &a), "accepted");
    sym_assert_near(v, mx.value, 1e-12, "maximum-velocity");
    Extremum an, ax;
    sym_assert(tr.computeMinMaxMagnitude(2, dims, &an, &ax), "accepted");
    sym_assert_near(a, ax.value, 1e-12, "maximum-acceleration");
  }
  auto sq = [&](int k, double t) { double s = 0; for (int i : dims) { const double v = oracle_eval(c[k][i], N, t, d); s = s + v * v; } return s; };
  sym_assert_near(sq(mn.segment_idx, mn.time), mn.value * mn.value, 1e-8, "minimum-attained");
  sym_assert_near(sq(mx.segment_idx, mx.time), mx.value * mx.value, 1e-8, "maximum-attained");
  for (int k = 0; k < K; ++k) {
    const double t = sym_double("t", 0, 0.75 + 0.5 * k), v = sq(k, t);
    sym_assert_le(mn.value * mn.value, v, 1e-5, "minimum-bounds-every-time");
    sym_assert_le(v, mx.value * mx.value, 1e-5, "maximum-bounds-every-time");
  }
  sym_reach("real");
}
// the optimizer's own maximum of the magnitude
void real_optimizer() {
  const int which = sym_choice("problem", 4), D = 1 + which % 2, d = 1 + sym_choice("derivative", 2);
  Vertex::Vector v;
  unsigned seed = 5u + 7u * (unsigned)which;
  for (int k = 0; k < 4; ++k) { Vertex x(D); Eigen::VectorXd q(D); for (int i = 0; i < D; ++i) q[i] = num(seed); if (k == 0 || k == 3) x.makeStartOrEnd(q, 2); else x.addConstraint(0, q); v.push_back(x); }
  PolynomialOptimization<6> opt(D);
  opt.setupFromVertices(v, {1.0, 0.75, 1.5}, 2);
  sym_assert(opt.solveLinear(), "solved");
  std::vector<Extremum> cand;
  const Extremum mx = opt.computeMaximumOfMagnitude(d, &cand);
  Trajectory tr;
  opt.getTrajectory(&tr);
  const double T[3] = {1.0, 0.75, 1.5};
  for (int k = 0; k < 3; ++k) {
    const double t = sym_double("t", 0, T[k]);
    double s = 0;
    for (int i = 0; i < D; ++i) { const double x = oracle_eval(tr.segments()[k][i].getCoefficients(0), 6, t, d); s = s + x * x; }
    sym_assert_le(s, mx.value * mx.value, 1e-4, "maximum-bounds-every-time");
  }
  sym_assert(inside(mx.time, 0, T[mx.segment_idx]), "time-in-segment");
  double s = 0;
  for (int i = 0; i < D; ++i) { const double x = oracle_eval(tr.segments()[mx.segment_idx][i].getCoefficients(0), 6, mx.time, d); s = s + x * x; }
  sym_assert_near(s, mx.value * mx.value, 1e-6, "maximum-attained");
  sym_reach("real");
}
#endif
}  // namespace
void harness() {
  const int what = sym_arg("what", 0);
#ifdef STUB_ROOTS
  if (what == 0) polynomial(); else if (what == 1) magnitude_request(); else if (what == 2) magnitude(); else refused();
#else
  if (what == 0) real_polynomials(); else if (what == 1) real_magnitudes(); else real_optimizer();
#endif
}
