// C24: vertices store and compare their constraints faithfully.
#include "util.h"
#include "mav_trajectory_generation/vertex.h"
#include <map>
using mav_trajectory_generation::Vertex;
namespace {
typedef std::map<int, Eigen::VectorXd> Shadow;
void compare(const Vertex& v, const Shadow& s, int D) {
  sym_assert(v.D() == D, "dimension-kept");
  sym_assert(v.getNumberOfConstraints() == s.size(), "constraint-count");
  size_t n = 0;
  for (auto it = v.cBegin(); it != v.cEnd(); ++it, ++n) {
    const auto jt = s.find(it->first);
    sym_assert(jt != s.end(), "iterates-what-was-added");
  }
  sym_assert(n == s.size(), "iterates-everything");
  for (int d = 0; d <= 5; ++d) {
    Eigen::VectorXd c = Eigen::VectorXd::Constant(1, 77.0);
    const bool has = v.getConstraint(d, &c);
    const auto jt = s.find(d);
    sym_assert(has == (jt != s.end()) && has == v.hasConstraint(d), "constraint-present");
    if (!has) { sym_assert_near(c[0], 77.0, 0, "absent-leaves-output-alone"); continue; }
    if (jt == s.end()) continue;
    sym_assert(c.size() == D, "constraint-size");
    for (int i = 0; i < D; ++i) sym_assert_near(c[i], jt->second[i], 0, "constraint-value");
  }
}
void ops_history() {
  const int D = 1 + sym_choice("D", 3), ops = sym_arg("ops", 3);
  Vertex v(D);
  Shadow s;
  compare(v, s, D);
  for (int k = 0; k < ops; ++k) {
    const int op = sym_choice("op", 6);
    if (op == 0) { const int d = sym_choice("order", 5); const Eigen::VectorXd c = sym_vec("c", D, -10, 10); v.addConstraint(d, c); s[d] = c; }
    if (op == 1) { const int d = sym_choice("order", 5); const double c = sym_double("c", -10, 10); v.addConstraint(d, c); s[d] = Eigen::VectorXd::Constant(D, c); }
    if (op == 2) { const int d = sym_choice("order", 5); sym_assert(v.removeConstraint(d) == (s.count(d) > 0), "remove-reports"); s.erase(d); }
    if (op == 3) { const int up = sym_choice("upto", 6); const Eigen::VectorXd c = sym_vec("c", D, -10, 10); v.makeStartOrEnd(c, up); s[0] = c; for (int i = 1; i <= up; ++i) s[i] = Eigen::VectorXd::Zero(D); }
    if (op == 4) { const int up = sym_choice("upto", 6); const double c = sym_double("c", -10, 10); v.makeStartOrEnd(c, up); s[0] = Eigen::VectorXd::Constant(D, c); for (int i = 1; i <= up; ++i) s[i] = Eigen::VectorXd::Zero(D); }
    if (op == 5) { Vertex w(v); Vertex x(1); x = w; v = x; }
    compare(v, s, D);
  }
  // part of the dimensions
  const int which = sym_choice("sub", 4), maxd = sym_choice("maxd", 3);
  std::vector<size_t> sub;
  if (which == 0) sub = {0};
  if (which == 1) sub = {(size_t)D - 1};
  if (which == 2) sub = {(size_t)D - 1, 0};
  if (which == 3) sub = {0, (size_t)D};
  Vertex out(4);
  const bool ok = v.getSubdimension(sub, maxd, &out);
  sym_assert(ok == (which != 3), "subdimension-exists");
  if (ok) {
    Shadow e;
    for (auto& kv : s) if (kv.first <= maxd) {
      Eigen::VectorXd c(sub.size());
      for (size_t i = 0; i < sub.size(); ++i) c[i] = kv.second[sub[i]];
      e[kv.first] = c;
    }
    compare(out, e, (int)sub.size());
    sym_reach("sub");
  }
  compare(v, s, D);
}
void equality() {
  const int D = 1 + sym_choice("D", 2), D2 = sym_choice("sameD", 2) ? D : D + 1;
  const double tol = sym_double("tol", 0.001, 1);
  Vertex a(D), b(D2);
  const int ma = sym_choice("maskA", sym_thorough() ? 8 : 4), mb = sym_choice("maskB", sym_thorough() ? 8 : 4);
  std::map<int, Eigen::VectorXd> A, B;
  for (int d = 0; d < 3; ++d) {
    if (ma >> d & 1) { A[d] = sym_vec("a", D, -3, 3); a.addConstraint(d, A[d]); }
    if (mb >> d & 1) { B[d] = sym_vec("b", D2, -3, 3); b.addConstraint(d, B[d]); }
  }
  bool clearly_equal = ma == mb && D == D2, clearly_different = !clearly_equal && !(D != D2 && ma == 0 && mb == 0);
  if (clearly_equal) {
    for (int d = 0; d < 3; ++d) if (ma >> d & 1) for (int i = 0; i < D; ++i) {
      double x = A[d][i] - B[d][i];
      if (x < 0) x = -x;
      if (x > tol * 1.001) { clearly_different = true; clearly_equal = false; break; }
      if (x > tol * 0.999) clearly_equal = false;
    }
  }
  const bool eq = a.isEqualTol(b, tol), eq2 = b.isEqualTol(a, tol);
  if (clearly_equal) { sym_assert(eq && eq2, "equal-within-tolerance"); sym_reach("equal"); }
  if (clearly_different) { sym_assert(!eq && !eq2, "different-beyond-tolerance"); sym_reach("different"); }
  sym_assert(a.isEqualTol(a, tol), "equal-to-itself");
}
}  // namespace
void harness() {
  if (sym_arg("what", 0) == 0) ops_history(); else equality();
}
