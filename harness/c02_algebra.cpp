// C02: polynomial arithmetic commutes with evaluation.
#include "util.h"
#include <mav_trajectory_generation/trajectory.h>
#include <mav_trajectory_generation/convolution.h>
using namespace mav_trajectory_generation;
static const double C = 10, T = 3;
static void val(const Polynomial& p, double t, double ref, double scale, const char* id) {
  Eigen::VectorXd c = p.getCoefficients(0);
  sym_assert((int)c.size() == p.N(), "size-consistent");
  sym_assert_near(oracle_eval(c, c.size(), t, 0), ref, 1e-9 * scale, id);
}
template <int D, int K> static void fixed_convolve() {
  Eigen::Matrix<double, D, 1> a; Eigen::Matrix<double, K, 1> b;
  for (int i = 0; i < D; ++i) a[i] = sym_double("fa", -C, C);
  for (int i = 0; i < K; ++i) b[i] = sym_double("fb", -C, C);
  auto r = mav_trajectory_generation::convolve<D, K>(a, b);
  for (int m = 0; m < D + K - 1; ++m) {
    double ref = 0;
    for (int i = 0; i < D; ++i) if (m - i >= 0 && m - i < K) ref += a[i] * b[m - i];
    sym_assert_near(r[m], ref, 1e-8, "convolve-fixed");
  }
}
void harness() {
  const int op = sym_choice("op", 8);
  const int maxN = sym_arg("maxN", 12);
  const int N = 1 + sym_choice("N", maxN);
  if (op == 6) {
    if (N == 1) { fixed_convolve<1, 1>(); fixed_convolve<3, 1>(); }
    else if (N == 2) { fixed_convolve<2, 5>(); fixed_convolve<6, 3>(); }
    else if (N == 3) { fixed_convolve<10, 10>(); fixed_convolve<1, 7>(); }
    sym_reach("fixed");
    return;
  }
  Eigen::VectorXd a = sym_vec("a", N, -C, C);
  const double t = sym_double("t", -T, T);
  Polynomial p(a);
  const double pt = oracle_eval(a, N, t, 0), M = mag_eval(N, C, T, 0);
  switch (op) {
    case 0: {  // sum
      Eigen::VectorXd b = sym_vec("b", N, -C, C);
      Polynomial q(b);
      const double qt = oracle_eval(b, N, t, 0);
      val(p + q, t, pt + qt, M, "sum");
      Polynomial r = p;
      r += q;
      val(r, t, pt + qt, M, "sum-in-place");
      val(q, t, qt, M, "operand-unchanged");
      break;
    }
    case 1: {  // product (convolution), any pair of sizes
      const int K = 1 + sym_choice("K", maxN);
      Eigen::VectorXd b = sym_vec("b", K, -C, C);
      Polynomial q(b);
      Polynomial r = p * q;
      sym_assert(r.N() == N + K - 1, "product-size");
      sym_assert(Polynomial::getConvolutionLength(N, K) == N + K - 1, "convolution-length");
      for (int m = 0; m < N + K - 1; ++m) {
        double ref = 0;
        for (int i = 0; i < N; ++i) if (m - i >= 0 && m - i < K) ref += a[i] * b[m - i];
        sym_assert_near(r.getCoefficients(0)[m], ref, 1e-8, "product-coefficients");
      }
      break;
    }
    case 2: {  // scalar multiple
      const double s = sym_double("s", -C, C);
      val(p * s, t, s * pt, M * C, "scalar");
      break;
    }
    case 3: {  // time scaling: q(t) = p(s t)
      const double s = sym_double("s", -2, 2);
      Polynomial q = p;
      q.scalePolynomialInTime(s);
      val(q, t, oracle_eval(a, N, s * t, 0), mag_eval(N, C, 2 * T, 0), "time-scale");
      break;
    }
    case 4: {  // constant offset, appended zeros
      const double s = sym_double("s", -C, C);
      Polynomial q = p;
      q.offsetPolynomial(s);
      val(q, t, pt + s, M, "offset");
      const int n2 = 1 + sym_choice("newN", maxN);
      Polynomial r(1);
      const bool ok = p.getPolynomialWithAppendedCoefficients(n2, &r);
      sym_assert(ok == (n2 >= N), "append-verdict");
      sym_assert(r.N() == (n2 >= N ? n2 : N), "append-size");
      val(r, t, pt, M, "append-value");
      break;
    }
    case 5: {  // equality means equal coefficients
      if (sym_choice("close", 2)) {  // coefficients that differ by as little as doubles allow
        static const double bases[] = {1, -5, 0.375, 8}, steps[] = {0x1p-49, 0x1p-44, 0x1p-30, -0x1p-36};
        const int at = sym_choice("at", N);
        a[at] = bases[sym_choice("base", 4)];
        Eigen::VectorXd b = a;
        b[at] = b[at] + steps[sym_choice("step", 4)];
        const Polynomial u(a), v(b);
        sym_assert(!(u == v) && u != v && !(v == u), "close-coefficients-differ");
        sym_reach("close");
        break;
      }
      Eigen::VectorXd b = sym_vec("b", N, -C, C);
      Polynomial q(b);
      const bool eq = (p == q), ne = (p != q);
      sym_assert(eq != ne, "eq-ne");
      if (eq) {
        for (int i = 0; i < N; ++i) sym_assert_near(a[i], b[i], 1e-13, "equal-coefficients");
        sym_reach("equal");
      } else {
        int differ = 0;
        for (int i = 0; i < N; ++i) if (a[i] != b[i]) { differ = 1; break; }
        sym_assert(differ, "unequal-differ");
        sym_reach("unequal");
      }
      Polynomial cpy = p;
      sym_assert(cpy == p, "reflexive");
      break;
    }
    case 7: {  // equality of polynomials of different size, segments, trajectories
      const int n2 = 1 + sym_choice("newN", maxN);
      if (n2 != N) {
        const Polynomial q(sym_vec("b", n2, -C, C));
        sym_assert(!(p == q) && p != q && !(q == p), "different-sizes-differ");
        sym_reach("sizes");
        break;
      }
      if (N > 3) break;
      const int D = 1 + sym_choice("D", 2), kind = sym_choice("difference", 7), K = 2;
      Segment::Vector x, y;
      for (int k = 0; k < K; ++k) {
        Segment u(N, D);
        for (int d = 0; d < D; ++d) u[d] = Polynomial(sym_vec("c", N, -C, C));
        u.setTime(sym_double("T", 0.5, 2));
        x.push_back(u);
      }
      const int at = sym_choice("at", 2), dim = D - 1;
      // 5, 6: a time and a coefficient that differ by as little as doubles allow
      if (kind == 5) x[at].setTime(1.25);
      if (kind == 6) { Eigen::VectorXd c = x[at][dim].getCoefficients(0); c[N - 1] = 5; x[at][dim] = Polynomial(c); }
      y = x;
      if (kind == 5) y[at].setTime(1.25 + 0x1p-50);
      if (kind == 6) { Eigen::VectorXd c = y[at][dim].getCoefficients(0); c[N - 1] = 5 + 0x1p-49; y[at][dim] = Polynomial(c); }
      bool same = kind == 0;
      if (kind == 1) { const double f = sym_double("f", 0.5, 2); same = f == x[at].getTime(); y[at].setTime(f); }
      if (kind == 2) { Eigen::VectorXd c = x[at][dim].getCoefficients(0); const double f = sym_double("f", -C, C); same = f == c[N - 1]; c[N - 1] = f; y[at][dim] = Polynomial(c); }
      if (kind == 3) y.pop_back();
      if (kind == 4) { y[at] = Segment(N, D + 1); y[at].setTime(x[at].getTime()); for (int d = 0; d <= D; ++d) y[at][d] = x[at][0]; }
      if (kind != 3) sym_assert((x[at] == y[at]) == same && (x[at] != y[at]) == !same, "segments-equal");
      if (kind == 4) break;
      Trajectory a, b;
      a.setSegments(x);
      b.setSegments(y);
      sym_assert((a == b) == same && (b == a) == same && (a != b) == !same, "trajectories-equal");
      sym_reach("trajectories");
      break;
    }
  }
  sym_reach("end");
}
