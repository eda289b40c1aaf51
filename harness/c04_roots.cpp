// C04: the root finder.
#include "util.h"
#include <complex>
#include <mav_trajectory_generation/polynomial.h>
#include <mav_trajectory_generation/rpoly/rpoly_ak1.h>
using namespace mav_trajectory_generation;
typedef std::complex<double> Z;
namespace {
double scale = 1;  // the roots do not depend on a common factor
// core * t^zeros, followed by `trailing` vanishing leading coefficients
void find(const std::vector<double>& core, int zeros, int trailing, Eigen::VectorXcd* roots) {
  const int n = (int)core.size() + zeros + trailing;
  Eigen::VectorXd c = Eigen::VectorXd::Zero(n);
  for (size_t i = 0; i < core.size(); ++i) c[zeros + i] = core[i] * scale;
  sym_assert(findRootsJenkinsTraub(c, roots), "succeeds");
  sym_assert(roots->size() == (int)core.size() - 1 + zeros, "as-many-roots-as-the-degree");
}
double nonzero(const char* n, double lo, double hi) { const double v = sym_double(n, lo, hi); return sym_choice("negative", 2) ? -v : v; }
void solvable() {
  const int deg = sym_choice("degree", 3), zeros = sym_choice("zeros", sym_arg("zeros", 3)), trailing = sym_choice("trailing", 3);
  scale = std::ldexp(1.0, sym_arg("scale", 0));
  std::vector<double> core;
  double a = 0, b = 0, c = 0;
  if (deg == 0) core = {nonzero("c", 0.01, 5)};
  if (deg == 1) { b = nonzero("b", 0.1, 5); c = sym_choice("c0", 2) ? nonzero("c", 0.01, 5) : 0.0; core = {c, b}; }
  if (deg == 2) { a = nonzero("a", 0.1, 5); b = sym_choice("b0", 2) ? nonzero("b", 0.01, 5) : 0.0; c = nonzero("c", 0.01, 5); core = {c, b, a}; }
  Eigen::VectorXcd r;
  find(core, zeros, trailing, &r);
  if (r.size() != deg + zeros) return;
  // exactly `zeros` (one more if the constant vanishes) roots are zero; they come first
  for (int i = 0; i < zeros; ++i) { sym_assert_near(r[i].real(), 0, 0, "zero-root"); sym_assert_near(r[i].imag(), 0, 0, "zero-root"); }
  if (deg == 1) {
    sym_assert_near(b * r[zeros].real() + c, 0, 1e-8, "root-of-line");
    sym_assert_near(r[zeros].imag(), 0, 0, "root-of-line");
  }
  if (deg == 2) {
    const Z s = r[zeros], l = r[zeros + 1];
    // Vieta: both roots, with multiplicity
    sym_assert_near(a * (s.real() + l.real()), -b, 1e-6, "sum-of-roots");
    sym_assert_near(s.imag() + l.imag(), 0, 0, "sum-of-roots");
    sym_assert_near(a * (s.real() * l.real() - s.imag() * l.imag()), c, 1e-6, "product-of-roots");
    if (b * b - 4 * a * c > 0.001) { sym_assert_near(s.imag(), 0, 0, "real-roots-are-real"); sym_reach("real"); }
    if (b * b - 4 * a * c < -0.001) { sym_assert(s.imag() > 0 || l.imag() > 0, "complex-roots-are-complex"); sym_reach("complex"); }
  }
  sym_reach("found");
}
void constant() {
  Eigen::VectorXcd r(3);
  const int n = sym_choice("size", 4), kind = sym_choice("kind", 2);
  Eigen::VectorXd c = Eigen::VectorXd::Zero(n);
  if (n > 0 && kind) c[0] = nonzero("c", 0.001, 5);
  findRootsJenkinsTraub(c, &r);
  sym_assert(r.size() == 0, "constant-has-no-roots");
  int last = findLastNonZeroCoeff(c);
  sym_assert(last == (n > 0 && kind ? 0 : -1), "last-nonzero");
  sym_reach("constant");
}
// given polynomials of higher degree: no real number outside the reported roots
// is a root, and no reported real root is missing one
double num(unsigned& s) { s = s * 1103515245u + 12345u; return ((int)((s >> 16) & 63) - 32) / 8.0; }
void higher() {
  const int which = sym_choice("polynomial", sym_arg("count", 16)), deg = 3 + which % 6, zeros = which % 4 == 1 ? 1 : 0;
  unsigned seed = 4001u + 97u * (unsigned)which;
  std::vector<double> core(deg + 1);
  for (double& x : core) { x = num(seed); if (std::fabs(x) < 0.05) x = 0.75; }
  Eigen::VectorXcd r;
  find(core, zeros, which % 3, &r);
  if (r.size() != deg + zeros) return;
  // p(t) / lead = product of (t - root) for every t: compare the coefficients
  std::vector<Z> q = {Z(1, 0)};
  for (int i = 0; i < r.size(); ++i) {
    std::vector<Z> n(q.size() + 1, Z(0, 0));
    for (size_t k = 0; k < q.size(); ++k) { n[k + 1] += q[k]; n[k] -= q[k] * r[i]; }
    q = n;
  }
  const double t = sym_double("t", -1, 1), lead = core[deg];
  double want = 0, got = 0, pw = 1;
  for (int k = 0; k < deg + 1; ++k) want = want + core[k] * (zeros ? pw * t : pw), pw = pw * t;
  pw = 1;
  for (size_t k = 0; k < q.size(); ++k) { got = got + lead * q[k].real() * pw; pw = pw * t; sym_assert_near(q[k].imag(), 0, 1e-6, "conjugate-pairs"); }
  sym_assert_near(got, want, 1e-5, "roots-reproduce-the-polynomial");
  sym_reach("higher");
}
}  // namespace
void harness() {
  const int what = sym_arg("what", 0);
  if (what == 0) solvable(); else if (what == 1) constant(); else higher();
}
