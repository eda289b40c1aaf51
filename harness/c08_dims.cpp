// C08: splitting and joining dimensions preserves values and durations.
#include "util.h"
#include <mav_trajectory_generation/trajectory.h>
using namespace mav_trajectory_generation;
static const double C = 5;
struct Side { int D, N; double T; std::vector<Eigen::VectorXd> c; Segment s; };
static Side make(int D, int N, const char* tn) {
  Side r{D, N, sym_double(tn, 0.1, 5), {}, Segment(N, D)};
  for (int d = 0; d < D; ++d) { r.c.push_back(sym_vec("c", N, -C, C)); r.s[d] = Polynomial(r.c[d]); }
  r.s.setTime(r.T);
  return r;
}
// dimension d of s, stretched to time Tn, is polynomial c of duration T: n_j * Tn^j == c_j * T^j
static void stretched(const Segment& s, int d, double Tn, const Eigen::VectorXd& c, double T, const char* id) {
  Eigen::VectorXd n = s[d].getCoefficients(0);
  double pn = 1, po = 1;
  for (int j = 0; j < (int)n.size(); ++j) {
    sym_assert_near(n[j] * pn, j < (int)c.size() ? c[j] * po : 0.0, 1e-7, id);
    pn = pn * Tn; po = po * T;
  }
  sym_assert((int)n.size() == s.N() && s[d].N() == s.N(), "size-consistent");
}
static void joined(const Segment& out, const Side& a, const Side& b) {
  const int D = a.D + b.D, N = a.N > b.N ? a.N : b.N;
  sym_assert(out.D() == D && out.N() == N, "joined-shape");
  const double Tn = out.getTime();
  sym_assert_le(a.T, Tn, 0, "joined-duration-covers-both");
  sym_assert_le(b.T, Tn, 0, "joined-duration-covers-both");
  sym_assert(Tn == a.T || Tn == b.T, "joined-duration-is-the-longer");
  for (int d = 0; d < D; ++d)
    if (d < a.D) stretched(out, d, Tn, a.c[d], a.T, "joined-first-values"); else stretched(out, d, Tn, b.c[d - a.D], b.T, "joined-second-values");
}
static void same(const Segment& s, const Side& a) {
  sym_assert(s.D() == a.D && s.N() == a.N, "unchanged-shape");
  sym_assert_near(s.getTime(), a.T, 0, "unchanged-duration");
  for (int d = 0; d < a.D; ++d)
    for (int j = 0; j < a.N; ++j) sym_assert_near(s[d].getCoefficients(0)[j], a.c[d][j], 0, "unchanged-values");
}
void harness() {
  const int op = sym_choice("op", 7), maxN = sym_arg("maxN", 4);
  const int D1 = 1 + sym_choice("D1", 2), N1 = 1 + sym_choice("N1", maxN);
  switch (op) {
    case 0: {  // segment join
      const int D2 = 1 + sym_choice("D2", 2), N2 = 1 + sym_choice("N2", maxN);
      Side a = make(D1, N1, "T1"), b = make(D2, N2, "T2");
      Segment out(0, 0);
      sym_assert(a.s.getSegmentWithAppendedDimension(b.s, &out), "join-accepted");
      joined(out, a, b);
      same(a.s, a); same(b.s, b);
      sym_reach("join");
      break;
    }
    case 1: {  // one side empty
      Side a = make(D1, N1, "T1");
      Segment e(0, 0), out(1, 1);
      sym_assert(a.s.getSegmentWithAppendedDimension(e, &out), "join-empty-accepted");
      same(out, a);
      sym_assert(e.getSegmentWithAppendedDimension(a.s, &out), "join-to-empty-accepted");
      same(out, a);
      break;
    }
    case 2: {  // segment split
      Side a = make(D1 + 1, N1, "T1");
      const int d = sym_choice("d", D1 + 3) - 1;
      Segment out(1, 1);
      const bool ok = a.s.getSegmentWithSingleDimension(d, &out);
      sym_assert(ok == (d >= 0 && d < a.D), "split-verdict");
      if (ok) {
        sym_assert(out.D() == 1 && out.N() == N1, "split-shape");
        sym_assert_near(out.getTime(), a.T, 0, "split-duration");
        for (int j = 0; j < N1; ++j) sym_assert_near(out[0].getCoefficients(0)[j], a.c[d][j], 0, "split-values");
      }
      same(a.s, a);
      break;
    }
    case 3: {  // trajectory split
      const int K = 1 + sym_choice("K", 3);
      std::vector<Side> v;
      Segment::Vector segs;
      for (int k = 0; k < K; ++k) { v.push_back(make(D1, N1, "T")); segs.push_back(v.back().s); }
      Trajectory tr;
      tr.setSegments(segs);
      const int d = sym_choice("d", D1);
      Trajectory one = tr.getTrajectoryWithSingleDimension(d);
      sym_assert(one.K() == K && one.D() == 1 && one.N() == N1, "trajectory-split-shape");
      sym_assert_near(one.getMaxTime(), tr.getMaxTime(), 1e-12, "trajectory-split-end-time");
      for (int k = 0; k < K; ++k) {
        sym_assert_near(one.segments()[k].getTime(), v[k].T, 0, "trajectory-split-duration");
        for (int j = 0; j < N1; ++j) sym_assert_near(one.segments()[k][0].getCoefficients(0)[j], v[k].c[d][j], 0, "trajectory-split-values");
      }
      sym_reach("split");
      break;
    }
    case 4: {  // trajectory join
      const int K = 1 + sym_choice("K", 2), D2 = 1 + sym_choice("D2", 2), N2 = 1 + sym_choice("N2", maxN);
      std::vector<Side> a, b;
      Segment::Vector sa, sb;
      for (int k = 0; k < K; ++k) { a.push_back(make(D1, N1, "T1")); b.push_back(make(D2, N2, "T2")); sa.push_back(a[k].s); sb.push_back(b[k].s); }
      Trajectory ta, tb, out;
      ta.setSegments(sa); tb.setSegments(sb);
      sym_assert(ta.getTrajectoryWithAppendedDimension(tb, &out), "trajectory-join-accepted");
      sym_assert(out.K() == K && out.D() == D1 + D2, "trajectory-join-shape");
      double total = 0;
      for (int k = 0; k < K; ++k) { joined(out.segments()[k], a[k], b[k]); total = total + out.segments()[k].getTime(); }
      sym_assert_near(out.getMaxTime(), total, 1e-12, "trajectory-join-end-time");
      break;
    }
    case 5: {  // join with an empty trajectory; different number of segments is refused
      Side a = make(D1, N1, "T1");
      Trajectory ta, e, out;
      ta.setSegments(Segment::Vector(2, a.s));
      sym_assert(ta.getTrajectoryWithAppendedDimension(e, &out), "trajectory-join-empty-accepted");
      sym_assert(out.K() == 2, "trajectory-join-empty-shape");
      same(out.segments()[1], a);
      sym_assert(e.getTrajectoryWithAppendedDimension(ta, &out), "trajectory-join-to-empty-accepted");
      same(out.segments()[0], a);
      Trajectory tb;
      tb.setSegments(Segment::Vector(1 + 2 * (D1 - 1), a.s));
      sym_reach("mismatch");
      sym_allow_abort(1);
      const bool ok = ta.getTrajectoryWithAppendedDimension(tb, &out);
      sym_assert(!ok, "segment-count-mismatch-refused");
      break;
    }
    case 6: {  // offset moves the first three dimensions, nothing else
      const int D = D1 == 1 ? 2 : 4;
      Side a = make(D, N1, "T1");
      Eigen::VectorXd off = sym_vec("off", 3, -C, C);
      Trajectory tr;
      tr.setSegments(Segment::Vector(1, a.s));
      sym_assert(tr.offsetTrajectory(off), "offset-accepted");
      const Segment& s = tr.segments()[0];
      sym_assert_near(s.getTime(), a.T, 0, "offset-duration");
      for (int d = 0; d < D; ++d)
        for (int j = 0; j < N1; ++j)
          sym_assert_near(s[d].getCoefficients(0)[j], a.c[d][j] + (j == 0 && d < 3 ? off[d] : 0.0), 1e-12, "offset-values");
      Eigen::VectorXd small = off.head(D1 == 1 ? 1 : 2);
      Trajectory t2;
      t2.setSegments(Segment::Vector(1, a.s));
      sym_assert(!t2.offsetTrajectory(small), "short-offset-refused");
      same(t2.segments()[0], a);
      break;
    }
  }
  sym_reach("end");
}
