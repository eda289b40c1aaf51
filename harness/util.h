// Shared helpers of the harnesses: independent oracles written from the
// mathematical definitions, never from the code under test.
#pragma once
#include "sym.h"
#include <Eigen/Core>
#include <cmath>
#include <string>
#include <vector>

// value of the d-th derivative of sum_j c_j t^j
template <class V>
double oracle_eval(const V& c, int n, double t, int d) {
  double acc = 0.0, pw = 1.0;
  for (int j = d; j < n; ++j) {
    double f = 1.0;
    for (int k = 0; k < d; ++k) f *= (double)(j - k);
    acc = acc + c[j] * f * pw;
    pw = pw * t;
  }
  return acc;
}
// bound on the magnitude of the terms, for |c_j| <= C and |t| <= T
inline double mag_eval(int n, double C, double T, int d) {
  double acc = 0.0, pw = 1.0;
  for (int j = d; j < n; ++j) {
    double f = 1.0;
    for (int k = 0; k < d; ++k) f *= (double)(j - k);
    acc += C * f * pw;
    pw *= T;
  }
  return acc > 1.0 ? acc : 1.0;
}
inline Eigen::VectorXd sym_vec(const char* name, int n, double lo, double hi) {
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i) v[i] = sym_double(name, lo, hi);
  return v;
}
inline const char* lbl(const std::string& s) {
  static std::vector<std::string>* keep = new std::vector<std::string>();
  keep->reserve(100000);
  keep->push_back(s);
  return keep->back().c_str();
}
