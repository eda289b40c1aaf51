// The optimizer as the rest of the generator sees it: what it is given is recorded,
// what it returns meets the contract checked by C09/C22 (every constraint met, position
// and derivatives continuous), with fixed segment times and arbitrary-looking values for
// whatever the vertices leave free.  Optimizing takes virtual time, so that everything
// else can happen meanwhile.
#pragma once
#define PolynomialOptimizationNonLinear RealPolynomialOptimizationNonLinear
#include "mav_trajectory_generation/polynomial_optimization_nonlinear.h"
#undef PolynomialOptimizationNonLinear
#include "mav_trajectory_generation/trajectory.h"
#include <vector>
namespace stub {
struct Asked {
  mav_trajectory_generation::Vertex::Vector vertices;
  std::vector<double> times;           // what the optimizer made of it
  std::vector<std::pair<int, double>> limits;
  int derivative = -1;
  bool done = false;
};
struct Guess { size_t n; double v, a; };  // what the first guess of the durations was made of
std::vector<Guess>& guesses();
std::vector<Asked>& asked();
void solve(Asked& a);                  // takes virtual time
void build(const Asked& a, mav_trajectory_generation::Trajectory* t);
}
namespace mav_trajectory_generation {
template <int _N = 10>
class PolynomialOptimizationNonLinear {
  stub::Asked a_;
 public:
  enum { N = _N };
  PolynomialOptimizationNonLinear(size_t, const NonlinearOptimizationParameters&) {}
  bool setupFromVertices(const Vertex::Vector& v, const std::vector<double>& t, int d) {
    a_.vertices = v; a_.times = t; a_.derivative = d;
    return true;
  }
  bool addMaximumMagnitudeConstraint(int d, double m) { a_.limits.emplace_back(d, m); return true; }
  bool solveLinear() { return true; }
  int optimize() { stub::solve(a_); return 1; }
  void getTrajectory(Trajectory* t) const { stub::build(a_, t); }
};
}  // namespace mav_trajectory_generation
