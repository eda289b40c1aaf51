// C22: what the nonlinear optimizer is allowed to do and what becomes of it.  The nlopt
// library is replaced by an optimizer that proposes arbitrary parameters within the bounds.
#include "linear.h"
#include <mav_trajectory_generation/polynomial_optimization_nonlinear.h>
#include <glog/logging.h>
namespace {
struct State {
  std::vector<double> lb, ub, x0, step, gradient;
  nlopt_func f = nullptr;
  void* fd = nullptr;
  std::vector<nlopt_func> g;
  std::vector<void*> gd;
  std::vector<double> gtol;
  int maxeval = -2;
  double ftol = -2, xtol = -2;
};
State* now = nullptr;
// called with every proposal and the cost it was given; the one returned wins
typedef int (*Play)(State&, std::vector<std::vector<double>>&, nlopt_result*);
Play play = nullptr;
}  // namespace
struct nlopt_opt_s { State s; unsigned n; };
extern "C" {
nlopt_opt nlopt_create(nlopt_algorithm, unsigned n) {
  nlopt_opt o = new nlopt_opt_s;
  o->n = n;
  o->s.lb.assign(n, -HUGE_VAL); o->s.ub.assign(n, HUGE_VAL);
  now = &o->s;
  return o;
}
void nlopt_destroy(nlopt_opt o) { delete o; }
unsigned nlopt_get_dimension(const nlopt_opt o) { return o->n; }
void nlopt_set_munge(nlopt_opt, nlopt_munge, nlopt_munge) {}
const char* nlopt_get_errmsg(nlopt_opt) { return "stub"; }
nlopt_result nlopt_set_force_stop(nlopt_opt, int) { abort(); }
nlopt_result nlopt_force_stop(nlopt_opt) { abort(); }  // an exception in a callback
nlopt_result nlopt_set_ftol_rel(nlopt_opt o, double v) { o->s.ftol = v; return NLOPT_SUCCESS; }
nlopt_result nlopt_set_ftol_abs(nlopt_opt, double) { return NLOPT_SUCCESS; }
nlopt_result nlopt_set_xtol_rel(nlopt_opt o, double v) { o->s.xtol = v; return NLOPT_SUCCESS; }
nlopt_result nlopt_set_xtol_abs1(nlopt_opt, double) { return NLOPT_SUCCESS; }
nlopt_result nlopt_set_xtol_abs(nlopt_opt, const double*) { return NLOPT_SUCCESS; }
nlopt_result nlopt_set_maxeval(nlopt_opt o, int v) { o->s.maxeval = v; return NLOPT_SUCCESS; }
void nlopt_srand(unsigned long) {}
void nlopt_srand_time() {}
nlopt_result nlopt_set_initial_step(nlopt_opt o, const double* v) { o->s.step.assign(v, v + o->n); return NLOPT_SUCCESS; }
nlopt_result nlopt_set_lower_bounds(nlopt_opt o, const double* v) { o->s.lb.assign(v, v + o->n); return NLOPT_SUCCESS; }
nlopt_result nlopt_set_upper_bounds(nlopt_opt o, const double* v) { o->s.ub.assign(v, v + o->n); return NLOPT_SUCCESS; }
nlopt_result nlopt_set_lower_bounds1(nlopt_opt o, double v) { o->s.lb.assign(o->n, v); return NLOPT_SUCCESS; }
nlopt_result nlopt_set_upper_bounds1(nlopt_opt o, double v) { o->s.ub.assign(o->n, v); return NLOPT_SUCCESS; }
nlopt_result nlopt_set_min_objective(nlopt_opt o, nlopt_func f, void* d) { o->s.f = f; o->s.fd = d; return NLOPT_SUCCESS; }
nlopt_result nlopt_add_inequality_constraint(nlopt_opt o, nlopt_func f, void* d, double tol) {
  o->s.g.push_back(f); o->s.gd.push_back(d); o->s.gtol.push_back(tol);
  return NLOPT_SUCCESS;
}
nlopt_result nlopt_optimize(nlopt_opt o, double* x, double* opt_f) {
  State& s = o->s;
  s.x0.assign(x, x + o->n);
  std::vector<std::vector<double>> tried;
  nlopt_result r = NLOPT_SUCCESS;
  const int best = play(s, tried, &r);
  if (best >= 0) for (unsigned i = 0; i < o->n; ++i) x[i] = tried[best][i];
  *opt_f = 0;
  return r;
}
}
#ifdef STUB_ROOTS
namespace mav_trajectory_generation {
// the real root finder is C04's concern; none found here
bool findRootsJenkinsTraub(const Eigen::VectorXd&, Eigen::VectorXcd* roots) { roots->resize(0); return true; }
}
#endif
namespace {
typedef NonlinearOptimizationParameters P;
Problem pr;
int order, dims, method, winner, nfree;
bool soft, failed, few;
std::vector<std::pair<int, double>> limits;
std::vector<std::vector<double>> played;
double penalty = 3.0, weight = 0.25;
const double retimed[3][3] = {{0.75, 1.5, 1.0}, {1.25, 1.0, 0.5}, {2.0, 0.6, 1.5}};
template <int N> struct Holder { static PolynomialOptimizationNonLinear<N>* o; };
template <int N> PolynomialOptimizationNonLinear<N>* Holder<N>::o = nullptr;
bool times_only() { return method == P::kSquaredTime || method == P::kRichterTime || method == P::kMellingerOuterLoop; }
double power(double T, int n) { double r = 1; for (int i = 0; i < n; ++i) r = r * T; return r; }
// integral of the squared derivative (half of it is the cost reported, see C10)
double integral(const Trajectory& t, int d) {
  double s = 0;
  for (const auto& g : t.segments())
    for (int k = 0; k < t.D(); ++k) { const Eigen::VectorXd c = g[k].getCoefficients(0); s = s + inner(c, c, t.N(), g.getTime(), d); }
  return s;
}
// largest norm at the ends of the segments (no other candidates: the root finder is stubbed)
double largest(const Trajectory& t, int d) {
  double m = -1;
  for (const auto& g : t.segments())
    for (int e = 0; e < 2; ++e) {
      double q = 0;
      for (int k = 0; k < t.D(); ++k) { const double v = oracle_eval(g[k].getCoefficients(0), t.N(), e ? g.getTime() : 0.0, d); q = q + v * v; }
      q = std::sqrt(q);
      if (q > m) m = q;
    }
  return m;
}
// the trajectory that belongs to the parameters x
template <int N>
void belongs(const std::vector<double>& x, const char* what, bool values) {
  Trajectory t;
  Holder<N>::o->getTrajectory(&t);
  Problem q = pr;
  const int K = (int)q.T.size();
  for (int k = 0; k < K; ++k) q.T[k] = x[k];
  check(q, N, dims, t, what);
  if (!values) return;
  // each free derivative is one of the parameters, and no parameter is anything else
  std::vector<int> used(x.size(), 0);
  for (int d = 0; d < dims; ++d)
    for (int v = 0, j = 0; v <= K; ++v)
      for (int r = 0; r < N / 2; ++r) {
        if (q.fixed[v][r]) continue;
        const int i = K + d * nfree + j++;
        const double y = oracle_eval(t.segments()[v < K ? v : K - 1][d].getCoefficients(0), N, v < K ? 0.0 : q.T[K - 1], r);
        sym_assert_near(y, x[i], 1e-8 * scale(q, r), lbl(std::string("is-the-parameter") + what));
      }
}
template <int N>
int proposals(State& s, std::vector<std::vector<double>>& tried, nlopt_result* r) {
  const int K = (int)pr.T.size(), n = (int)s.lb.size();
  sym_assert(s.f != nullptr, "objective");
  sym_assert(n == K + (times_only() ? 0 : dims * nfree), "parameter-count");
  for (int k = 0; k < K; ++k) {
    sym_assert_near(s.x0[k], pr.T[k], 0, "starts-from-the-given-times");
    sym_assert_near(s.lb[k], 0.1, 0, "time-lower-bound");
    sym_assert(s.ub[k] > 1e300, "time-upper-bound");
  }
  if (!times_only()) {
    belongs<N>(s.x0, "-initially", true);
    // the limits are on the derivatives they name and nothing else is limited
    for (int d = 0; d < dims; ++d)
      for (int v = 0, j = 0; v <= K; ++v)
        for (int q = 0; q < N / 2; ++q) {
          if (pr.fixed[v][q]) continue;
          const int i = K + d * nfree + j++;
          double L = -1;
          for (auto& l : limits) if (l.first == q) L = l.second;
          if (L < 0) { sym_assert(s.lb[i] < -1e300 && s.ub[i] > 1e300, "unlimited"); continue; }
          const double x = s.x0[i];
          sym_assert_near(s.lb[i], x < -L ? x : -L, 1e-9, "limit-on-its-derivative");
          sym_assert_near(s.ub[i], x > L ? x : L, 1e-9, "limit-on-its-derivative");
        }
  }
  const int rounds = 2;
  for (int p = 0; p < rounds; ++p) {
    std::vector<double> x(n);
    for (int k = 0; k < K; ++k) x[k] = retimed[p][k];
    for (int i = K; i < n; ++i) {
      if (p == 0 || (soft && i > K && few)) { x[i] = 0.25 * (i - K) - 0.5; continue; }
      x[i] = sym_double("x", -4, 4);
      sym_assume(x[i] >= s.lb[i] && x[i] <= s.ub[i]);
    }
    s.gradient.assign(n, 0);
    const bool wants = method == P::kMellingerOuterLoop;
    const double cost = s.f(n, x.data(), wants ? s.gradient.data() : nullptr, s.fd);
    tried.push_back(x);
    belongs<N>(x, "-proposed", !times_only());
    Trajectory t;
    Holder<N>::o->getTrajectory(&t);
    double total = 0;
    for (int k = 0; k < K; ++k) total += x[k];
    double want = integral(t, order);
    if (method == P::kSquaredTime || method == P::kSquaredTimeAndConstraints) want = want + total * total * penalty;
    if (method == P::kRichterTime || method == P::kRichterTimeAndConstraints) want = want + total * penalty;
    double size = 1e3;
    if (soft && method != P::kMellingerOuterLoop)
      for (auto& l : limits) {
        // (the largest magnitude is compared below)
        const double m = Holder<N>::o->getPolynomialOptimizationRef().computeMaximumOfMagnitude(l.first, nullptr).value;
        sym_assert_near(m, largest(t, l.first), 1e-5, "largest-magnitude");
        const double e = std::exp((m - l.second) / l.second * weight);
        want = want + (e < 1e12 ? e : 1e12);
      }
    sym_assert_near(cost, want, 1e-6 * size, "cost");
    if (!soft) {
      sym_assert(s.g.size() == limits.size(), "constraint-count");
      for (size_t i = 0; i < s.g.size() && (few || (p == 0 && !times_only())); ++i)
        sym_assert_near(s.g[i](n, x.data(), nullptr, s.gd[i]), largest(t, limits[i].first) - limits[i].second, 1e-5, "constraint-value");
    } else sym_assert(s.g.empty(), "no-hard-constraints");
    if (wants) {  // forward differences along (n+1) w
      const double h = 0.1;
      for (int k = 0; k < K; ++k) {
        if (K == 1) { sym_assert_near(s.gradient[k], 0, 0, "gradient"); continue; }
        std::vector<double> y = x;
        for (int i = 0; i < K; ++i) { y[i] = i == k ? y[i] + h : y[i] - h / (K - 1.0); if (y[i] < 0.1) y[i] = 0.1; }
        PolynomialOptimization<N> o2(dims);
        o2.setupFromVertices(pr.v, y, order);
        o2.solveLinear();
        Trajectory t2;
        o2.getTrajectory(&t2);
        sym_assert_near(s.gradient[k], (integral(t2, order) - integral(t, order)) / h, 1e-3, "gradient");
      }
    }
  }
  played = tried;
  winner = few ? 0 : sym_choice("best", rounds);
  if (failed) *r = NLOPT_ROUNDOFF_LIMITED;
  return winner;
}
template <int N>
void run(int what) {
  few = what >= 3;
  const int D = few ? 1 : 1 + sym_choice("D", sym_arg("maxD", 2)), K = 1 + sym_choice("K", sym_arg("maxK", 2)), h = N / 2;
  dims = D;
  static const int methods[] = {P::kSquaredTimeAndConstraints, P::kRichterTimeAndConstraints, P::kSquaredTime, P::kRichterTime, P::kMellingerOuterLoop};
  method = what == 0 ? methods[sym_choice("method", 2)] : what == 1 ? methods[2 + sym_choice("method", 2)] : what == 2 ? methods[4] : methods[sym_choice("method", 2) * 2];
  if (what == 4) method = methods[0];
  soft = what == 3 || what == 2;
  failed = !few && sym_choice("failed", 2);
  // constraint values: the first two arbitrary
  static const double list[3][3] = {{1.5, 0.75, 2.0}, {0.6, 2.5, 1.0}, {1.0, 1.0, 1.0}};
  pr = Problem();
  for (int k = 0; k < K; ++k) pr.T.push_back(list[(D + K) % 3][k]);
  const int e0 = sym_choice("start", 3), e1 = (e0 + K) % 3, mid = K > 1 ? sym_choice("interior", 4) : 0;
  nfree = 0;
  int symbolic = what == 0 || few ? sym_arg("values", 0) : 1, c = 0;
  for (int k = 0; k <= K; ++k) {
    const bool end = k == 0 || k == K;
    pr.fixed.push_back(pattern(h, end, end ? (k == 0 ? e0 : e1) : (mid + k - 1) % 4));
    pr.val.emplace_back(h + 1);
    Vertex v(D);
    for (int d = 0; d < h; ++d) {
      if (!pr.fixed[k][d]) { ++nfree; continue; }
      Eigen::VectorXd y(D);
      for (int i = 0; i < D; ++i) y[i] = symbolic-- > 0 ? sym_double("v", -1, 1) : 0.375 * ((c++ * 5) % 7) - 1.0;
      pr.val[k][d] = y;
      v.addConstraint(d, y);
    }
    pr.v.push_back(v);
  }
  order = h - 1 - sym_choice("derivative", h < 3 ? h : 3);
  if (few && order > 2) order = 2;
  P params;
  params.time_alloc_method = (P::TimeAllocMethod)method;
  params.use_soft_constraints = soft;
  params.time_penalty = penalty;
  params.soft_constraint_weight = weight;
  limits.clear();
  const int lim = what == 2 ? 0 : sym_choice("limits", 3);
  if (h > 1 && lim >= 1) limits.push_back({1, what == 3 ? (sym_choice("vmax", 2) ? 1.0 : 2.0) : sym_double("vmax", 0.5, 3)});
  if (h > 2 && lim >= 2) limits.push_back({2, few ? 4.0 : sym_double("amax", 1, 8)});
  if (lim == 2) std::reverse(limits.begin(), limits.end());
  Holder<N>::o = new PolynomialOptimizationNonLinear<N>(D, params);
  sym_assert(Holder<N>::o->setupFromVertices(pr.v, pr.T, order), "accepted");
  for (auto& l : limits) sym_assert(Holder<N>::o->addMaximumMagnitudeConstraint(l.first, l.second), "limit-accepted");
  if (what == 2) {  // far away limits, or none
    const int far = (2 * e0 + order + mid) % 4;
    if (far & 1) Holder<N>::o->addMaximumMagnitudeConstraint(1, 1e6);
    if (far & 2) Holder<N>::o->addMaximumMagnitudeConstraint(2, 1e6);
  }
  play = proposals<N>;
  const int res = Holder<N>::o->optimize();
  if (failed && what != 2) sym_assert(res == nlopt::FAILURE, "failure-reported");
  if (!failed) sym_assert(res == NLOPT_SUCCESS, "success-reported");
  belongs<N>(played[winner], "-finally", !times_only());
  sym_reach("optimized");
}
}  // namespace
void harness() {
  FLAGS_minloglevel = 3;
  const int what = sym_arg("what", 0), N = sym_arg("N", 6);
  if (N == 2) run<2>(what);
  if (N == 4) run<4>(what);
  if (N == 6) run<6>(what);
  if (N == 10) run<10>(what);
}
