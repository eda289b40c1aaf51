// C01: evaluation of polynomials and their derivatives.
#include "util.h"
#include <mav_trajectory_generation/polynomial.h>
using mav_trajectory_generation::Polynomial;
void harness() {
  const int maxN = sym_arg("maxN", 12);
  const double C = sym_arg("C", 100), T = sym_arg("T", 20);
  const int N = 1 + sym_choice("N", maxN);
  Eigen::VectorXd c = sym_vec("c", N, -C, C);
  const double t = sym_double("t", -T, T);
  Polynomial p(N, c);
  for (int d = 0; d <= N + 1; ++d) {
    const double tol = 1e-9 * mag_eval(N, C, T, d);
    const double ref = d < N ? oracle_eval(c, N, t, d) : 0.0;
    sym_assert_near(p.evaluate(t, d), ref, tol, "evaluate-one");
    if (d <= N) {
      // coefficients of the derivative: a polynomial whose value is the derivative
      Eigen::VectorXd dc = p.getCoefficients(d);
      sym_assert(dc.size() == N, "coefficients-size");
      sym_assert_near(oracle_eval(dc, N, t, 0), ref, tol, "coefficients");
    }
    if (d < N) {
      // row of base coefficients: its product with the coefficients is the derivative
      Eigen::VectorXd r1 = Polynomial::baseCoeffsWithTime(N, d, t), r2;
      Polynomial::baseCoeffsWithTime(N, d, t, &r2);
      sym_assert(r1.size() == N && r2.size() == N, "base-size");
      double s1 = 0, s2 = 0;
      for (int j = 0; j < N; ++j) { s1 += r1[j] * c[j]; s2 += r2[j] * c[j]; }
      sym_assert_near(s1, ref, tol, "base-coeffs");
      sym_assert_near(s2, ref, tol, "base-coeffs-out");
    }
  }
  for (int k = 1; k <= N; ++k) {
    Eigen::VectorXd out(k);
    p.evaluate(t, &out);
    for (int d = 0; d < k; ++d)
      sym_assert_near(out[d], oracle_eval(c, N, t, d), 1e-9 * mag_eval(N, C, T, d), "evaluate-vector");
  }
  // setting coefficients replaces them all
  Eigen::VectorXd c2 = sym_vec("e", N, -C, C);
  p.setCoefficients(c2);
  sym_assert_near(p.evaluate(t, 0), oracle_eval(c2, N, t, 0), 1e-9 * mag_eval(N, C, T, 0), "set-coefficients");
  sym_assert(p.N() == N, "order");
  sym_reach("end");
}
