// C05: a time is looked up in the right segment.
#include "util.h"
#include <mav_trajectory_generation/trajectory.h>
using namespace mav_trajectory_generation;
static const double C = 5, TMIN = 0.1, TMAX = 3;
struct Seg { double T; std::vector<Eigen::VectorXd> c; };
static Seg make(int D, int N) {
  Seg s;
  s.T = sym_double("T", TMIN, TMAX);
  for (int d = 0; d < D; ++d) s.c.push_back(sym_vec("c", N, -C, C));
  return s;
}
static Segment to_segment(const Seg& s, int D, int N) {
  Segment r(N, D);
  for (int d = 0; d < D; ++d) r[d] = Polynomial(s.c[d]);
  r.setTime(s.T);
  return r;
}
static void check(const Trajectory& tr, const std::vector<Seg>& ref, int D, int N, int where, const char* id) {
  double total = 0;
  std::vector<double> S(1, 0.0);
  for (auto& s : ref) { total = total + s.T; S.push_back(total); }
  sym_assert(tr.K() == (int)ref.size() && tr.D() == D && tr.N() == N, "shape");
  sym_assert_near(tr.getMaxTime(), total, 1e-12 * ref.size(), "end-time-is-sum");
  std::vector<double> times = tr.getSegmentTimes();
  sym_assert(times.size() == ref.size(), "times-size");
  for (size_t k = 0; k < ref.size(); ++k) sym_assert_near(times[k], ref[k].T, 0, "segment-time");
  const int d = sym_choice("derivative", N + 1);
  double t;
  if (where == 0) {
    t = sym_double("t", 0, TMAX * ref.size());
    sym_assume(t <= tr.getMaxTime());
  } else if (where == 1) {
    t = tr.getMaxTime();
  } else {
    t = 0.0;
  }
  Eigen::VectorXd v = where == 3 ? Eigen::VectorXd() : tr.evaluate(t, d);
  sym_assert((int)v.size() == D, "value-size");
  const double tol = 1e-9;
  int ok = 0;
  for (size_t k = 0; k < ref.size() && !ok; ++k) {
    if (t < S[k] - tol) continue;
    if (t > S[k + 1] + tol) continue;
    int good = 1;
    for (int i = 0; i < D && good; ++i) {
      const double e = oracle_eval(ref[k].c[i], N, t - S[k], d);
      const double diff = v[i] - e;
      if (!(diff <= 1e-6 && diff >= -1e-6)) good = 0;
    }
    if (good) ok = 1;
  }
  sym_assert(ok, id);
  // the vertex at a time carries the values of all derivatives
  Vertex vx = where == 1 ? tr.getGoalVertex(d) : where == 2 ? tr.getStartVertex(d) : tr.getVertexAtTime(t, d);
  Eigen::VectorXd cv;
  sym_assert(vx.getConstraint(d, &cv) && (int)cv.size() == D && (int)vx.getNumberOfConstraints() == d + 1, "vertex-has-derivatives");
  for (int i = 0; i < D; ++i) sym_assert_near(cv[i], v[i], 1e-9, "vertex-value");
}
void harness() {
  const int maxK = sym_arg("maxK", 3);
  const int K = 1 + sym_choice("K", maxK);
  const int D = 1 + sym_choice("D", 2), N = 3;
  const int op = sym_choice("op", 5);
  const int where = sym_choice("where", 3);
  std::vector<Seg> ref;
  for (int k = 0; k < K; ++k) ref.push_back(make(D, N));
  Segment::Vector segs;
  for (auto& s : ref) segs.push_back(to_segment(s, D, N));
  Trajectory tr;
  switch (op) {
    case 0:
      tr.setSegments(segs);
      check(tr, ref, D, N, where, "value-is-the-covering-segments");
      break;
    case 1: {  // add after set, one at a time
      Segment::Vector first(segs.begin(), segs.begin() + 1);
      tr.setSegments(first);
      for (int k = 1; k < K; ++k) tr.addSegments(Segment::Vector(1, segs[k]));
      check(tr, ref, D, N, where, "value-after-adding");
      break;
    }
    case 2: {  // replace an existing trajectory (other shape), and after clear
      Seg o = make(1, 2);
      tr.setSegments(Segment::Vector(2, to_segment(o, 1, 2)));
      if (K != 1) {
        tr.clear();
        sym_assert(tr.K() == 0 && tr.D() == 0 && tr.getMaxTime() == 0 && tr.empty(), "cleared");
      }
      tr.setSegments(segs);
      check(tr, ref, D, N, where, "value-after-replacing");
      break;
    }
    case 3: {  // concatenate
      Segment::Vector first(segs.begin(), segs.begin() + 1);
      tr.setSegments(first);
      std::vector<Trajectory> more;
      for (int k = 1; k < K; ++k) { Trajectory x; x.setSegments(Segment::Vector(1, segs[k])); more.push_back(x); }
      Trajectory merged;
      sym_assert(tr.addTrajectories(more, &merged), "concatenate-accepted");
      check(merged, ref, D, N, where, "value-after-concatenating");
      sym_assert(tr.K() == 1, "operand-unchanged");
      break;
    }
    case 4: {  // concatenate, refused: different shape; in place
      tr.setSegments(segs);
      Trajectory other, merged;
      if (where == 0) {
        Seg o = make(D + 1, N);
        other.setSegments(Segment::Vector(1, to_segment(o, D + 1, N)));
        sym_assert(!tr.addTrajectories(std::vector<Trajectory>(1, other), &merged), "dimension-mismatch-refused");
      } else if (where == 1) {
        const int M = N + (K == 2 ? -1 : 1);
        Seg o = make(D, M);
        other.setSegments(Segment::Vector(1, to_segment(o, D, M)));
        sym_assert(!tr.addTrajectories(std::vector<Trajectory>(1, other), &merged), "order-mismatch-refused");
      } else {  // the result may be the trajectory itself
        Seg o = make(D, N);
        other.setSegments(Segment::Vector(1, to_segment(o, D, N)));
        sym_assert(tr.addTrajectories(std::vector<Trajectory>(1, other), &tr), "in-place-accepted");
        ref.push_back(o);
        check(tr, ref, D, N, 0, "value-after-in-place-concatenation");
      }
      break;
    }
  }
  sym_reach("end");
}
