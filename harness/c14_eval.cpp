// C14: evaluation is the plan plus its corrections, clamped, and plotting changes nothing.
#include "dyn.h"
static DynamicTrajectory* dt;
static double bell(double t, double mu, double s, double inc, int d) {
  const double x = (t - mu) / s, e = std::exp(-(x * x) / 2.0) * inc;
  if (d == 0) return e;
  if (d == 1) return -(x / s) * e;
  return (x * x - 1.0) / (s * s) * e;
}
// the plan the optimizer returned, evaluated from its coefficients
static double plan(const mav_trajectory_generation::Trajectory& tr, double local, int k, int d) {
  const auto& segs = tr.segments();
  double t0 = 0;
  size_t i = 0;
  while (i + 1 < segs.size() && local > t0 + segs[i].getTime()) t0 += segs[i++].getTime();
  return oracle_eval(segs[i][k].getCoefficients(0), 10, local - t0, d);
}
void harness() {
  const int what = sym_arg("what", 0);
  sched::begin(0);
  dt = new DynamicTrajectory();
  dt->updateVehiclePosition(Eigen::Vector3d(0, 0, 1));
  dt->setSpeed(2.0);
  DynamicWaypoint::Vector v;
  const bool fixed = what == 1 || sym_arg("fixed", 0);
  const Eigen::Vector3d p0 = fixed ? Eigen::Vector3d(2, 1, 3) : sym_pos("p"), p1 = fixed ? Eigen::Vector3d(4, -1, 2) : sym_pos("p");
  v.push_back(waypoint("a", p0));
  v.push_back(waypoint("b", p1));
  const double start = sym_choice("late", 2) ? 0.5 : 0.0;  // the first evaluation, before there is a trajectory
  dt->setWaypoints(v);
  eval(*dt, start);
  if (what == 0) {
    // possibly a correction that is blended in
    const int mod = sym_choice("modified", 3);
    const double now = start + 0.25;
    eval(*dt, now);
    Eigen::Vector3d q = mod == 1 ? p0 : p1;
    if (mod) {
      q[0] = q[0] + sym_double("shift", 0.125, 2) * (sym_choice("down", 2) ? -1.0 : 1.0);
      dt->modifyWaypoint(mod == 1 ? "a" : "b", q, false);
      pause_ms(30);
    }
    const auto got = served(*dt);
    sym_assert(got.size() == 3 && helper(got[0]), "served");
    const double base = got[0].getTime(), off = dt->getTimeCompensation();
    mav_trajectory_generation::Trajectory tr;
    stub::build(stub::asked().back(), &tr);
    const double total = tr.getMaxTime();
    sym_assert_near(dt->getMaxTime(), base + total, 1e-9, "latest-time");
    sym_assert_near(dt->getMinTime(), base, 1e-9, "earliest-time");
    const double t = (float)sym_double("t", -4, 12);
    const bool plot = sym_choice("plot", 2);
    const References r = [&] { References x = eval(*dt, t, plot); return x; }();
    References r0 = r;
    const References rp = eval(*dt, t, true, true);
    double local = t + off - base;
    sym_assume(local > 1e-5 || local < -1e-5);
    sym_assume(local - 1.0 > 1e-5 || local - 1.0 < -1e-5);
    sym_assume(local - total > 1e-5 || local - total < -1e-5);
    const bool before = local < 0, after = local > total;
    if (before) local = 0;
    if (after) local = total;
    for (int d = 0; d < 3; ++d)
      for (int k = 0; k < 3; ++k) {
       for (int w = 0; w < (d ? 1 : 2); ++w) {  // second: the position asked for alone
        const double have = w ? rp.position[k] : r0[d][k], p = plan(tr, local, k, d);
        if (!mod || k) { sym_assert_near(have, p, 1e-6, "planned-value"); continue; }
        const double mu = got[mod].getTime(), s = (mu - now) / 3.0, g = base + local;
        if (g <= 0) continue;
        const double dist = g < mu ? mu - g : g - mu, inc = (q - (mod == 1 ? p0 : p1))[0];
        if (dist > 4 * s) sym_assert_near(have, p, 1e-6, "planned-value");
        else if (dist < 3.4 * s) sym_assert_near(have, p + bell(g, mu, s, inc, d), 1e-6, after ? "end-is-held" : before ? "start-is-held" : d == 0 ? "plan-plus-correction" : d == 1 ? "velocity-plus-correction" : "acceleration-plus-correction");
       }
      }
    if (after) {  // still the end
      for (int k = 0; k < 3; ++k) sym_assert_near(r.position[k], mod == 2 ? q[k] : r.position[k], mod == 2 ? 1e-6 : 1e9, "end-is-the-last-waypoint");
      sym_reach("after");
    }
    sym_reach(before ? "before" : "inside");
  } else {
    // plotting anywhere, then flying on and generating anew
    static const double flown[] = {0.5625, 0.6875, 1.25, 1.75};  // clear of the zone before a waypoint
    const double t1 = flown[sym_choice("flown", 4)];
    const References r1 = sym_choice("only-position", 2) ? (eval(*dt, t1, false, true), eval(*dt, t1, true)) : eval(*dt, t1);
    const int n = dt->getRemainingWaypoints(), m = dt->getNextTrajectoryWaypoints().size();
    const double off = dt->getTimeCompensation();
    const References q1 = eval(*dt, t1, true);
    const int plots = sym_choice("plots", 3);  // 2: only after the comparison below
    for (int i = 0; i <= plots % 2; ++i) eval(*dt, sym_double("plot", -3, 10), true);
    sym_assert(n == dt->getRemainingWaypoints() && m == (int)dt->getNextTrajectoryWaypoints().size(), "remaining-unchanged");
    sym_assert_near(dt->getTimeCompensation(), off, 0, "offset-unchanged");
    References q2 = eval(*dt, t1, true), q0 = q1, q3 = r1;
    for (int d = 0; d < 3; ++d)
      for (int k = 0; k < 3; ++k) {
        sym_assert_near(q2[d][k], q0[d][k], 1e-9, "same-answer-after-plotting");
        sym_assert_near(q3[d][k], q0[d][k], 1e-9, "plotting-shows-what-is-flown");
      }
    // a correction, or a new trajectory, starts from what is flown and not from what was plotted
    if (plots == 2) eval(*dt, sym_double("plot", -3, 10), true);
    if (sym_choice("then", 2)) {
      dt->appendWaypoint(waypoint("c", Eigen::Vector3d(1, 1, 1)));
      for (int i = 0; i < 4; ++i) { pause_ms(15); eval(*dt, i ? 2.0 * i : sym_double("plot", -3, 10), true); }
      const auto got = served(*dt);
      sym_assert(!got.empty() && got.back().getName() == "c", "regenerated");
      sym_assert_near(got[0].getTime(), t1, 1e-6, "starts-at-flown-time");
      sym_assert_near(got[0].getCurrentPosition()[0], r1.position[0], 1e-6, "starts-at-flown-position");
      mav_trajectory_generation::Trajectory tr;
      stub::build(stub::asked().back(), &tr);
      const double base = got[0].getTime(), total = tr.getMaxTime();
      sym_assert_near(dt->getMaxTime(), base + total, 1e-9, "latest-time");
      sym_assert_near(dt->getMinTime(), base, 1e-9, "earliest-time");
      if (plots == 0) {
        const double t = (float)sym_double("t", -4, 12);
        const bool plot = sym_choice("plot-anew", 2);
        const References r = eval(*dt, t, plot), rp = eval(*dt, t, true, true);
        double local = t + dt->getTimeCompensation() - base, sum = 0;
        for (const auto& g : tr.segments()) { sym_assume(local - sum > 1e-5 || local - sum < -1e-5); sum += g.getTime(); }
        sym_assume(local - sum > 1e-5 || local - sum < -1e-5);
        if (local < 0) local = 0;
        if (local > total) local = total;
        References r0 = r;
        for (int d = 0; d < 3; ++d)
          for (int k = 0; k < 3; ++k) {
            const double p = plan(tr, local, k, d);
            sym_assert_near(r0[d][k], p, 1e-6, "planned-value-anew");
            if (d == 0) sym_assert_near(rp.position[k], p, 1e-6, "planned-value-anew");
          }
      }
      sym_reach("regenerated");
    } else {
      dt->modifyWaypoint("b", Eigen::Vector3d(4, -3, 2), false);
      for (int i = 0; i < 2; ++i) { pause_ms(15); eval(*dt, i ? 2.0 : sym_double("plot", -3, 10), true); }
      auto got = served(*dt);
      const double mu = got[2].getTime(), s = (mu - t1) / 3.0, x = s * 2;
      if (s > 0.05) sym_assert_near(got[2].trajectoryCompensation(mu - x, 0)[1], -2 * std::exp(-2.0), 1e-6, "blended-from-flown-time");
      sym_reach("blended");
    }
  }
  { Limit l; delete dt; }
  sched::end();
  sym_reach("end");
}
