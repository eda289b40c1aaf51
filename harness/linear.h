// Oracle and problem generator for the optimizers.
#pragma once
#include "util.h"
#include <mav_trajectory_generation/polynomial_optimization_linear.h>
using namespace mav_trajectory_generation;
namespace {
typedef std::vector<std::vector<double>> Mat;
// solves M x = b by Gauss-Jordan with pivoting (concrete numbers)
std::vector<long double> solve(std::vector<std::vector<long double>> m, std::vector<long double> b) {
  const int n = (int)b.size();
  for (int i = 0; i < n; ++i) {
    int p = i;
    for (int r = i; r < n; ++r) if (std::fabs((double)m[r][i]) > std::fabs((double)m[p][i])) p = r;
    std::swap(m[i], m[p]); std::swap(b[i], b[p]);
    for (int r = 0; r < n; ++r) {
      if (r == i) continue;
      const long double f = m[r][i] / m[i][i];
      for (int c = i; c < n; ++c) m[r][c] -= f * m[i][c];
      b[r] -= f * b[i];
    }
  }
  for (int i = 0; i < n; ++i) b[i] /= m[i][i];
  return b;
}
double fact(int j, int d) { double f = 1; for (int k = 0; k < d; ++k) f *= (double)(j - k); return f; }
// coefficients of the polynomial with given derivatives 0..N/2-1 at 0 and T
std::vector<long double> hermite(int N, double T, const std::vector<double>& ends) {
  std::vector<std::vector<long double>> m(N, std::vector<long double>(N, 0));
  std::vector<long double> b(ends.begin(), ends.end());
  for (int d = 0; d < N / 2; ++d)
    for (int j = d; j < N; ++j) {
      long double pw = 1;
      for (int k = 0; k < j - d; ++k) pw *= T;
      m[d][j] = j == d ? fact(j, d) : 0;
      m[d + N / 2][j] = fact(j, d) * pw;
    }
  return solve(m, b);
}
// integral over [0,T] of (d-th derivative of a)(d-th derivative of b)
template <class A, class B>
double inner(const A& a, const B& b, int N, double T, int d) {
  double s = 0;
  for (int i = d; i < N; ++i)
    for (int j = d; j < N; ++j) {
      double pw = T;
      for (int k = 0; k < i + j - 2 * d; ++k) pw = pw * T;
      s = s + a[i] * (double)b[j] * (fact(i, d) * fact(j, d) * pw / (double)(i + j - 2 * d + 1));
    }
  return s;
}
struct Problem {
  Vertex::Vector v;
  std::vector<double> T;
  std::vector<std::vector<bool>> fixed;           // [vertex][derivative]
  std::vector<std::vector<Eigen::VectorXd>> val;  // [vertex][derivative]
};
// which derivatives of a vertex are constrained
std::vector<bool> pattern(int h, bool end, int pick) {
  std::vector<bool> f(h + 1, false);
  if (end) {
    if (pick == 0) for (int d = 0; d < h; ++d) f[d] = true;
    if (pick == 1) f[0] = true;
    if (pick == 2) { f[0] = true; if (h > 2) f[2] = true; else if (h > 1) f[1] = true; }
  } else {
    if (pick == 0) f[0] = true;
    if (pick == 1) { f[0] = true; if (h > 1) f[1] = true; }
    if (pick == 2 && h > 1) f[1] = true;
    if (pick == 3) for (int d = 0; d < h; ++d) f[d] = true;
  }
  return f;
}
Problem problem(int N, int D, int K, bool times) {
  const int h = N / 2;
  Problem p;
  static const double list[3][3] = {{1.5, 0.75, 2.0}, {0.6, 2.5, 1.0}, {1.0, 1.0, 1.0}};
  const int tl = times ? sym_choice("times", 3) : 0;
  for (int k = 0; k < K; ++k) p.T.push_back(list[tl][k]);
  const int e0 = sym_choice("start", 3), e1 = K > 1 ? (e0 + 1) % 3 : sym_choice("end", 3), mid = K > 1 ? sym_choice("interior", 4) : 0;
  for (int k = 0; k <= K; ++k) {
    const bool end = k == 0 || k == K;
    p.fixed.push_back(pattern(h, end, end ? (k == 0 ? e0 : e1) : (mid + k - 1) % 4));
    p.val.emplace_back(h + 1);
    Vertex v(D);
    for (int d = 0; d < h; ++d)
      if (p.fixed[k][d]) {
        p.val[k][d] = sym_vec("v", D, -1, 1);
        v.addConstraint(d, p.val[k][d]);
      }
    if (e0 == 2 && (k == 0 || mid == 1)) v.addConstraint(h + (k ? 1 : 0), Eigen::VectorXd::Constant(D, 7.0));  // order too high: ignored
    p.v.push_back(v);
  }
  return p;
}
double scale(const Problem& p, int d) {  // rough size of the d-th derivative
  double s = 1, T = 10;
  for (double t : p.T) if (t < T) T = t;
  for (int i = 0; i < d; ++i) s *= 4 / T;
  return s * 50;
}
void check(const Problem& p, int N, int D, const Trajectory& tr, const char* suffix) {
  const int h = N / 2;
  const Segment::Vector& s = tr.segments();
  const std::string sf = suffix;
  sym_assert(s.size() == p.T.size(), "segment-count");
  sym_assert(tr.D() == D && tr.N() == N, "shape");
  for (size_t k = 0; k < s.size(); ++k) sym_assert_near(s[k].getTime(), p.T[k], 0, "duration");
  for (size_t k = 0; k <= s.size(); ++k)
    for (int d = 0; d < h; ++d)
      for (int i = 0; i < D; ++i) {
        const double tol = 1e-8 * scale(p, d);
        double left = 0, right = 0;
        if (k > 0) left = oracle_eval(s[k - 1][i].getCoefficients(0), N, p.T[k - 1], d);
        if (k < s.size()) right = oracle_eval(s[k][i].getCoefficients(0), N, 0.0, d);
        if (p.fixed[k][d]) {
          if (k > 0) sym_assert_near(left, p.val[k][d][i], tol, lbl("constraint-met" + sf));
          if (k < s.size()) sym_assert_near(right, p.val[k][d][i], tol, lbl("constraint-met" + sf));
        }
        if (k > 0 && k < s.size()) sym_assert_near(left, right, tol, lbl("continuous" + sf));
      }
}
}  // namespace
