// C09 / C10: the linear optimizer.  Constraint values (and free derivatives)
// are symbolic, segment times come from a list or are symbolic (small order).
#include "linear.h"
namespace {
template <int N>
void constraints() {
  const int D = 1 + sym_choice("D", sym_arg("maxD", 2)), K = 1 + sym_choice("K", sym_arg("maxK", 3)), h = N / 2;
  Problem p = problem(N, D, K, D == 1);
  PolynomialOptimization<N> opt(D);
  const int deriv = h - 1 - (D == 1 ? sym_choice("derivative", h < 3 ? h : 3) : 0);
  if (D == 2 && sym_choice("used-before", 2)) {  // an earlier problem leaves no trace
    Vertex a(D), b(D);
    a.addConstraint(0, Eigen::VectorXd::Constant(D, 3.0));
    b.addConstraint(0, Eigen::VectorXd::Constant(D, -3.0));
    opt.setupFromVertices({a, b, a}, {1.0, 2.0}, h - 1);
    sym_assert(opt.solveLinear(), "solved");
  }
  sym_assert(opt.setupFromVertices(p.v, p.T, deriv), "accepted");
  size_t nf = 0, na = 0;
  for (auto& f : p.fixed) { na += h; for (int d = 0; d < h; ++d) nf += f[d]; }
  sym_assert(opt.getNumberFixedConstraints() == nf, "fixed-count");
  sym_assert(opt.getNumberFreeConstraints() == na - nf, "free-count");
  sym_assert(opt.getNumberSegments() == (size_t)K, "segment-count");
  sym_assert(opt.solveLinear(), "solved");
  Trajectory tr;
  opt.getTrajectory(&tr);
  check(p, N, D, tr, "");
  sym_reach("solved");
  std::vector<Eigen::VectorXd> fr;
  opt.getFreeConstraints(&fr);
  if (na > nf && D == 1) {
    // whatever the free derivatives are set to
    for (auto& f : fr) { sym_assert(f.size() == (int)(na - nf), "free-count"); for (int i = 0; i < f.size(); ++i) f[i] = sym_double("free", -1, 1); }
    opt.setFreeConstraints(fr);
    opt.getTrajectory(&tr);
    check(p, N, D, tr, "-after-free-set");
    sym_reach("free");
  }
  // new segment times, same constraints
  for (double& t : p.T) t = t * 1.25;
  opt.updateSegmentTimes(p.T);
  if (na > nf) sym_assert(opt.solveLinear(), "solved");
  else opt.setFreeConstraints(std::vector<Eigen::VectorXd>(D, Eigen::VectorXd(0)));
  opt.getTrajectory(&tr);
  check(p, N, D, tr, "-after-new-times");
  Vertex::Vector back;
  opt.getVertices(&back);
  sym_assert(back.size() == p.v.size(), "vertices-kept");
}
template <int N>
void symbolic_times() {  // one or two segments with any durations
  const int K = 1 + sym_choice("K", 2), h = N / 2;
  Problem p;
  for (int k = 0; k <= K; ++k) {
    p.fixed.push_back(std::vector<bool>(h + 1, true));
    p.val.emplace_back(h + 1);
    Vertex v(1);
    for (int d = 0; d < h; ++d) {
      p.val[k][d] = sym_vec("v", 1, -1, 1);
      v.addConstraint(d, p.val[k][d]);
    }
    p.v.push_back(v);
  }
  for (int k = 0; k < K; ++k) p.T.push_back(sym_double("T", 0.5, 3));
  PolynomialOptimization<N> opt(1);
  sym_assert(opt.setupFromVertices(p.v, p.T, h - 1), "accepted");
  sym_assert(opt.solveLinear(), "solved");
  Trajectory tr;
  opt.getTrajectory(&tr);
  const Segment::Vector& s = tr.segments();
  for (int k = 0; k < K; ++k) {
    sym_assert_near(s[k].getTime(), p.T[k], 0, "duration");
    for (int d = 0; d < h; ++d) {
      sym_assert_near(oracle_eval(s[k][0].getCoefficients(0), N, 0.0, d), p.val[k][d][0], 1e-7, "constraint-met");
      sym_assert_near(oracle_eval(s[k][0].getCoefficients(0), N, p.T[k], d), p.val[k + 1][d][0], 1e-6, "constraint-met");
    }
  }
  sym_reach("any-time");
}
template <int N>
void cost() {
  const int D = 1 + sym_choice("D", 2), K = 1 + sym_choice("K", sym_arg("maxK", 2)), h = N / 2;
  Problem p = problem(N, D, K, true);
  const int deriv = sym_choice("derivative", h);
  PolynomialOptimization<N> opt(D);
  const int history = D == 1 ? sym_choice("history", 3) : 2 * sym_choice("reused", 2);
  if (history == 2) {  // used before for another cost and, on one side, other values
    Vertex::Vector v = p.v;
    v[K] = Vertex(D);
    v[K].addConstraint(0, Eigen::VectorXd::Constant(D, 3.0));
    sym_assert(opt.setupFromVertices(v, p.T, (deriv + 1) % h), "accepted");
    sym_assert(opt.solveLinear(), "solved");
  }
  sym_assert(opt.setupFromVertices(p.v, p.T, deriv), "accepted");
  sym_assert(opt.solveLinear(), "solved");
  if (history == 1) {
    if (p.T[0] == 1.0) p.T[K - 1] = 1.5;  // all but one are kept
    else for (double& t : p.T) t = t * 0.75 + 0.25;
    opt.updateSegmentTimes(p.T);
    sym_assert(opt.solveLinear(), "solved");
  }
  Trajectory tr;
  opt.getTrajectory(&tr);
  const Segment::Vector& s = tr.segments();
  // directions: one free derivative of one vertex set to one
  for (int k = 0; k <= K; ++k)
    for (int d = 0; d < h; ++d) {
      if (p.fixed[k][d]) continue;
      std::vector<std::vector<double>> dir(K, std::vector<double>(N, 0.0));
      double norm = 0;
      for (int q = k - 1; q <= k; ++q) {
        if (q < 0 || q >= K) continue;
        std::vector<double> ends(N, 0.0);
        ends[q == k ? d : d + h] = 1.0;
        const auto c = hermite(N, p.T[q], ends);
        for (int i = 0; i < N; ++i) dir[q][i] = (double)c[i];
        norm += inner(dir[q], dir[q], N, p.T[q], deriv);
      }
      norm = std::sqrt(norm);
      for (int i = 0; i < D; ++i) {
        double g = 0;
        for (int q = 0; q < K; ++q) g = g + inner(s[q][i].getCoefficients(0), dir[q], N, p.T[q], deriv);
        // relative to the size of the direction: the cost cannot be lowered along it
        sym_assert_near(g / norm, 0, (N > 8 ? 1e-4 : 1e-5) * scale(p, deriv), "no-cheaper-direction");
      }
    }
  double want = 0;
  for (int q = 0; q < K; ++q)
    for (int i = 0; i < D; ++i) { const Eigen::VectorXd c = s[q][i].getCoefficients(0); want = want + inner(c, c, N, p.T[q], deriv); }
  sym_assert_near(opt.computeCost(), want, (N > 6 ? 1e-6 : 1e-9) * scale(p, deriv) * scale(p, deriv), "cost-is-the-integral");
  sym_reach("cost");
}
// the matrices: M places the compact constraints (fixed, then free) at the ends of the segments,
// A takes coefficients to the derivatives at the ends, A^-1 back, and 1/2 d^T R d is the cost
template <int N>
void matrices() {
  const int D = sym_arg("D", 1), K = 1 + sym_choice("K", sym_arg("maxK", 3)), h = N / 2;
  Problem p = problem(N, D, K, K < 3);
  const int deriv = h - 1 - sym_choice("derivative", h);
  const bool any = sym_arg("any", 0);
  if (any) for (double& t : p.T) t = sym_double("T", 0.5, 3);
  PolynomialOptimization<N> opt(D);
  const bool retimed = deriv == h - 1 && sym_choice("retimed", 2);
  std::vector<double> first = p.T;
  if (retimed) for (double& t : first) t = 0.875;
  sym_assert(opt.setupFromVertices(p.v, first, deriv), "accepted");
  if (!any) sym_assert(opt.solveLinear(), "solved");
  if (retimed) opt.updateSegmentTimes(p.T);  // not solved again
  const int nd = opt.getNumberFixedConstraints(), np = opt.getNumberFreeConstraints(), n = nd + np, all = K * N;
  sym_assert((int)opt.getNumberAllConstraints() == all, "all-count");
  sym_assert((int)opt.getDimension() == D && opt.getDerivativeToOptimize() == deriv, "problem-kept");
  std::vector<double> times;
  opt.getSegmentTimes(&times);
  sym_assert((int)times.size() == K, "times-kept");
  for (int k = 0; k < K; ++k) sym_assert_near(times[k], p.T[k], 0, "times-kept");
  Eigen::MatrixXd M, P, A, B, R;
  opt.getM(&M); opt.getMpinv(&P); opt.getA(&A); opt.getAInverse(&B);
  sym_assert(M.rows() == all && M.cols() == n && P.rows() == n && P.cols() == all, "shape");
  sym_assert(A.rows() == all && A.cols() == all && B.rows() == all && B.cols() == all, "shape");
  for (int r = 0; r < all; ++r) {  // each end derivative is one of the compact constraints
    double sum = 0;
    for (int c = 0; c < n; ++c) { sym_assert(M(r, c) == 0.0 || M(r, c) == 1.0, "placement"); sum += M(r, c); }
    sym_assert(sum == 1.0, "placement");
  }
  const Eigen::MatrixXd PM = P * M;
  for (int r = 0; r < n; ++r)
    for (int c = 0; c < n; ++c) sym_assert_near(PM(r, c), r == c ? 1 : 0, 1e-12, "pseudo-inverse");
  const Eigen::MatrixXd AB = A * B;
  for (int r = 0; r < all; ++r)
    for (int c = 0; c < all; ++c) {
      sym_assert_near(AB(r, c), r == c ? 1 : 0, any ? 1e-6 : 1e-5, "inverse");
      double want = 0;
      if (r / N == c / N) {
        const int d = (r % N) % h, j = c % N;
        if (j >= d) {
          want = fact(j, d);
          for (int i = 0; i < j - d; ++i) want = want * ((r % N) < h ? 0.0 : p.T[r / N]);
        }
      }
      sym_assert_near(A(r, c), want, 1e-9 * (1 + (any ? 0 : want)), "ends-of-a-segment");
    }
  if (any) { sym_reach("any-time"); return; }
  opt.getR(&R);
  sym_assert(R.rows() == n && R.cols() == n, "shape");
  std::vector<Eigen::VectorXd> fx, fr;
  opt.getFixedConstraints(&fx);
  opt.getFreeConstraints(&fr);
  for (auto& f : fr) for (int i = 0; i < f.size(); ++i) f[i] = sym_double("free", -1, 1);
  opt.setFreeConstraints(fr);
  sym_assert((int)fx.size() == D && (int)fr.size() == D, "shape");
  Trajectory tr;
  opt.getTrajectory(&tr);
  double cost = 0, want = 0;
  for (int i = 0; i < D; ++i) {
    Eigen::VectorXd d(n), c(all);
    sym_assert(fx[i].size() == nd && fr[i].size() == np, "shape");
    for (int r = 0; r < nd; ++r) d[r] = fx[i][r];
    for (int r = 0; r < np; ++r) d[nd + r] = fr[i][r];
    for (int k = 0; k < K; ++k) c.segment(k * N, N) = tr.segments()[k][i].getCoefficients(0);
    const Eigen::VectorXd ends = M * d, of = A * c, back = B * ends;
    for (int r = 0; r < all; ++r) {
      const int k = r / N, o = r % N, v = k + (o >= h), q = o % h;
      sym_assert_near(ends[r], of[r], 1e-7 * scale(p, q), "ends-of-the-trajectory");
      if (p.fixed[v][q]) sym_assert_near(ends[r], p.val[v][q][i], 0, "fixed-in-place");
      sym_assert_near(back[r], c[r], 1e-6 * scale(p, h), "coefficients");
    }
    for (int a = 0; a < n; ++a)
      for (int b = 0; b < n; ++b) cost = cost + 0.5 * d[a] * R(a, b) * d[b];
    for (int q = 0; q < K; ++q) { const Eigen::VectorXd cc = tr.segments()[q][i].getCoefficients(0); want = want + inner(cc, cc, N, p.T[q], deriv); }
  }
  sym_assert_near(cost, want, (N > 6 ? 1e-6 : 1e-8) * scale(p, deriv) * scale(p, deriv), "quadratic-cost");
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < a; ++b) sym_assert_near(R(a, b), R(b, a), 1e-9 * scale(p, deriv) * scale(p, deriv), "symmetric");
  sym_reach("matrices");
}
}  // namespace
void harness() {
  const int what = sym_arg("what", 0), nn = sym_arg("N", 0);
  if (what == 0) {
    if (nn == 4) constraints<4>(); else if (nn == 6) constraints<6>(); else if (nn == 10) constraints<10>(); else constraints<12>();
  } else if (what == 1) {
    if (nn == 2) symbolic_times<2>(); else symbolic_times<4>();
  } else if (what == 3) {
    if (nn == 2) matrices<2>(); else if (nn == 4) matrices<4>(); else if (nn == 6) matrices<6>(); else matrices<10>();
  } else {
    if (nn == 4) cost<4>(); else if (nn == 6) cost<6>(); else if (nn == 8) cost<8>(); else cost<10>();
  }
}
