// C17: new trajectories join the motion being flown, pass their waypoints in order and end at rest.
#include "dyn.h"
static DynamicTrajectory* dt;
static double plan(const mav_trajectory_generation::Trajectory& tr, double local, int k, int d) {
  const auto& segs = tr.segments();
  double t0 = 0;
  size_t i = 0;
  while (i + 1 < segs.size() && local > t0 + segs[i].getTime()) t0 += segs[i++].getTime();
  return oracle_eval(segs[i][k].getCoefficients(0), 10, local - t0, d);
}
static void set(std::vector<Eigen::Vector3d> p) {
  DynamicWaypoint::Vector v;
  for (size_t i = 0; i < p.size(); ++i) v.push_back(waypoint(std::string(1, 'a' + i), p[i]));
  Limit l;
  dt->setWaypoints(v);
}
// let the generation that has been asked for come to an end, without taking it over
static void generated(size_t n) {
  for (int i = 0; i < 40 && !(stub::asked().size() >= n && stub::asked()[n - 1].done); ++i) pause_ms(10);
  pause_ms(2);
  sym_assert(stub::asked().size() == n, "generated-once");
}
static void at_rest(const Vertex& v, const char* what) {
  for (int d = 1; d <= 2; ++d) {
    Eigen::VectorXd c;
    sym_assert(v.getConstraint(d, &c), what);
    for (int k = 0; k < 3; ++k) sym_assert_near(c[k], 0, 0, what);
  }
}
// the new trajectory is entered one step after the grid point closest to where the vehicle is
static void entered(double last, double base, const Eigen::Vector3d& where, const mav_trajectory_generation::Trajectory& tr) {
  const double entry = dt->getTimeCompensation() + last - base, step = 0.1f;
  const double horizon = 3.0 * stub::compute_ns * 1e-9;
  int chosen = -1, n = 0;
  double dist[8];
  const bool fit = !sym_arg("any", 0);
  for (; n < 8 && (n == 0 || n * step < horizon - 1e-6); ++n) {
    if (entry > (n + 1) * step - 1e-5 && entry < (n + 1) * step + 1e-5) chosen = n;
    dist[n] = 0;
    for (int k = 0; k < 3 && fit; ++k) { const double e = plan(tr, n * step, k, 0) - where[k]; dist[n] += e * e; }
  }
  sym_assert(chosen >= 0, "entered-on-the-grid");
  for (int i = 0; i < n && fit; ++i) sym_assert(dist[chosen] <= dist[i] + 1e-6, "entered-at-the-closest-point");
}
static void passes(const std::vector<std::pair<std::string, Eigen::Vector3d>>& order) {
  const auto got = served(*dt);
  size_t j = 0;
  double last = got[0].getTime();
  for (size_t i = 1; i < got.size(); ++i) {
    sym_assert(got[i].getTime() > last, "times-increase");
    last = got[i].getTime();
    if (helper(got[i])) continue;
    sym_assert(j < order.size() && got[i].getName() == order[j].first, "in-order");
    const References r = eval(*dt, last - dt->getTimeCompensation(), true);
    for (int k = 0; k < 3; ++k) sym_assert_near(r.position[k], order[j].second[k], 1e-5, "passes-its-waypoints");
    if (++j == order.size())
      for (int k = 0; k < 3; ++k) {
        sym_assert_near(r.velocity[k], 0, 1e-4, "stops-at-the-last");
        sym_assert_near(r.acceleration[k], 0, 1e-3, "stops-at-the-last");
      }
  }
  sym_assert(j == order.size(), "passes-all");
  sym_assert_near(last, dt->getMaxTime(), 1e-6, "ends-at-the-last");
}
void harness() {
  const int what = sym_arg("what", 0), any = sym_arg("any", 0);
  stub::compute_ns = sym_arg("ms", 100) * 1000000L;
  sched::begin(0);
  dt = new DynamicTrajectory();
  dt->setSpeed(2.0);
  const bool drifts = what == 0 && sym_choice("drifts", 2);
  Eigen::Vector3d home(any || drifts || what == 2 ? 0.25 : sym_double("vehicle", -5, 5), 0.5, 1);
  { Limit l; dt->updateVehiclePosition(home); }
  const Eigen::Vector3d a(1.5, 1, 2), b = any || drifts ? Eigen::Vector3d(3, -1, 2) : Eigen::Vector3d(3, sym_double("wp", -5, 5), 2);
  set({a, b});
  mav_trajectory_generation::Trajectory tr;
  if (what == 0) {
    generated(1);
    if (drifts) {  // the vehicle has drifted meanwhile
      home[0] = home[0] + (any ? 0.125 : sym_double("drift", -1, 1));
      dt->updateVehiclePosition(home);
      stub::build(stub::asked()[0], &tr);
    } else {
      Eigen::VectorXd c;
      sym_assert(stub::asked()[0].vertices[0].getConstraint(0, &c), "starts-at-the-vehicle");
      for (int k = 0; k < 3; ++k) sym_assert_near(c[k], home[k], 0, "starts-at-the-vehicle");
      stub::build(stub::asked()[0], &tr);
    }
    at_rest(stub::asked()[0].vertices[0], "starts-at-rest");
    eval(*dt, 0);
    entered(0, 0, home, tr);
    const auto got = served(*dt);
    sym_assert_near(got[0].getTime(), 0, 0, "base");
    passes({{"a", a}, {"b", b}});
    sym_reach("first");
  } else if (what == 1) {
    // the first trajectory has been flown to its end, the vehicle is somewhere near
    const double over = 4.0 + 0.5 * sym_choice("over", 3);
    eval(*dt, 0);
    eval(*dt, over);
    Eigen::Vector3d here(3, any ? -1.0 : sym_double("here", -5, 5), 2);
    dt->updateVehiclePosition(here);
    const Eigen::Vector3d c(0, 1, any ? 3.0 : sym_double("next", 0, 5));
    if (sym_choice("append", 2)) { Limit l; dt->appendWaypoint(waypoint("c", c)); }
    else { Limit l; dt->setWaypoints({waypoint("c", c)}); }
    generated(2);
    Eigen::VectorXd s;
    const auto& ask = stub::asked()[1];
    sym_assert(ask.vertices.size() == 2 && ask.vertices[0].getConstraint(0, &s), "starts-at-the-vehicle");
    for (int k = 0; k < 3; ++k) sym_assert_near(s[k], here[k], 0, "starts-at-the-vehicle");
    at_rest(ask.vertices[0], "starts-at-rest");
    stub::build(ask, &tr);
    const auto got = served(*dt);
    sym_assert_near(got[0].getTime(), over, 1e-9, "base");
    entered(over, over, here, tr);
    passes({{"c", c}});
    sym_reach("again");
  } else {
    // while the first trajectory is being flown
    eval(*dt, 0);
    static const double flown[] = {0.0625, 0.125, 1.125, 1.25};  // outside the zone before a waypoint
    const double zone = 10e-9 * stub::compute_ns;
    // in trajectory time
    const double off0 = dt->getTimeCompensation();
    double t1;
    if (any) {
      t1 = (float)sym_double("t1", 0.01, 3.5 - 0.5);
      const double l = t1 + off0;
      sym_assume(l < 1.0 - zone - 0.01 || (l > 1.0 + 0.01 && l < 3.0 - zone - 0.01));
    } else {
      t1 = sym_choice("flown", 2) ? 0.375 : 1.125;
      if (zone > 0.9) t1 = 1.125;
    }
    eval(*dt, t1 * 0.5);
    const int mod = sym_choice("blend", 2);
    Eigen::Vector3d b2 = b;
    if (mod) {  // a correction is under way
      b2[0] = b[0] + (any ? 0.5 : sym_choice("shift", 2) ? 0.75 : -1.5);
      { Limit l; dt->modifyWaypoint("b", b2, false); }
      pause_ms(15);
    }
    const bool passed = t1 + off0 > 1.0;
    References r1 = eval(*dt, t1);
    References rs = eval(*dt, t1 + zone, true);  // where the second stitching point will be
    if (!any) sym_assert(served(*dt).size() == 3, "served");
    const Eigen::Vector3d c(0, 1, any ? 3.0 : sym_double("next", 0, 5));
    { Limit l; dt->appendWaypoint(waypoint("c", c)); }
    pause_ms(40);
    // flown on with the old trajectory meanwhile
    const double t2 = (float)(t1 + 0.0625);
    References r2 = eval(*dt, t2);
    sym_assert_near(dt->getTimeCompensation(), off0, 0, "still-the-old");
    generated(2);
    const auto ask = stub::asked()[1];
    for (int d = 0; d <= 2; ++d) {
      Eigen::VectorXd v;
      sym_assert(ask.vertices[0].getConstraint(d, &v), "joins-position-velocity-acceleration");
      for (int k = 0; k < 3; ++k) sym_assert_near(v[k], r1[d][k], 1e-9, d == 0 ? "joins-the-position" : d == 1 ? "joins-the-velocity" : "joins-the-acceleration");
    }
    Eigen::VectorXd v;
    sym_assert(ask.vertices[1].getConstraint(0, &v), "stays-on-the-motion");
    for (int k = 0; k < 3; ++k) sym_assert_near(v[k], rs.position[k], 1e-6, "stays-on-the-motion");
    stub::build(ask, &tr);
    const int how = any ? 1 : sym_choice("takeover", 3);  // whoever asks first takes the new trajectory over
    if (how == 0) eval(*dt, t2 + 0.125, true);
    else if (how == 1) served(*dt);
    const double t3 = how == 2 ? t2 : (float)(t2 + 0.125);
    References r3 = eval(*dt, t3);
    sym_assert_near(served(*dt)[0].getTime(), t1, 1e-9, "base");
    entered(t2, t1, r2.position, tr);
    const double local = t3 - t1 + dt->getTimeCompensation();
    for (int d = 0; d <= 2; ++d)
      for (int k = 0; k < 3; ++k) sym_assert_near(r3[d][k], plan(tr, local, k, d), 1e-5, "flies-the-new-one");
    std::vector<std::pair<std::string, Eigen::Vector3d>> order;
    if (!passed) order.push_back({"a", a});
    order.push_back({"b", b2});
    order.push_back({"c", c});
    if (!any) passes(order);
    sym_reach("joined");
  }
  { Limit l; delete dt; }
  sched::end();
  sym_reach("end");
}
