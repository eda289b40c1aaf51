// C26: every trajectory is planned within the limits in force when it was asked for.
#include "dyn.h"
static DynamicTrajectory* dt;
static double speed = 0;
static double place(const char* n) { return sym_double(n, -10, 10); }
static void set_speed(const char* n) {
  speed = sym_double(n, 0.1, 20);
  Limit l;
  dt->setSpeed(speed);
}
static void check_speed() {
  Limit l;
  sym_assert_near(dt->getSpeed(), speed, 0, "speed-kept");
}
// the plan the requests before it are answered with
static void check_plan(size_t i, double v) {
  const stub::Asked& a = stub::asked()[i];
  const stub::Guess& g = stub::guesses()[i];
  sym_assert(stub::guesses().size() == stub::asked().size(), "durations-guessed-once");
  int velocity = 0, acceleration = 0;
  for (const auto& l : a.limits) {
    if (l.first == 1) { ++velocity; sym_assert_near(l.second, v, 2e-6, "speed-limit"); }
    else if (l.first == 2) { ++acceleration; sym_assert_near(l.second, 9.81, 1e-6, "acceleration-limit"); }
  }
  sym_assert(velocity == 1 && acceleration == 1, "both-limited");
  sym_assert_near(g.v, v, 2e-6, "guess-speed");
  sym_assert_near(g.a, 9.81, 1e-6, "guess-acceleration");
  sym_assert(g.n == a.vertices.size(), "guess-for-these-vertices");
  sym_assert(a.times.size() + 1 == a.vertices.size(), "a-duration-per-segment");
  sym_assert(a.derivative == 2, "acceleration-minimized");
  Eigen::VectorXd c;
  for (size_t k = 0; k < a.vertices.size(); ++k) {
    sym_assert(a.vertices[k].D() == 3, "three-dimensional");
    sym_assert(a.vertices[k].getConstraint(0, &c), "position-constrained");
  }
  for (int d = 1; d < 3; ++d) {
    sym_assert(a.vertices.front().getConstraint(d, &c), "start-constrained");
    sym_assert(a.vertices.back().getConstraint(d, &c), "end-constrained");
    for (int k = 0; k < 3; ++k) sym_assert_near(c[k], 0, 0, "rests-at-end");
  }
}
void harness() {
  stub::compute_ns = 20000000;
  sched::begin(0);
  dt = new DynamicTrajectory();
  const int preempt = sym_arg("preempt", 0);
  dt->updateVehiclePosition(Eigen::Vector3d(0, 0, 1));
  sched::allow(preempt);
  set_speed("v1");
  check_speed();
  { Limit l; dt->setWaypoints({waypoint("a", Eigen::Vector3d(place("pa"), 1, 2)), waypoint("b", Eigen::Vector3d(2, place("pb"), 2))}); }
  static const long pauses[] = {0, 12, 45};
  const int p = sym_choice("phase", 4);  // before, during, after the generation, taken over
  if (p < 3) { if (pauses[p]) pause_ms(pauses[p]); }
  else { pause_ms(12); eval(*dt, 0.01); pause_ms(45); eval(*dt, 0.06); }
  check_speed();
  const double v1 = speed;
  const size_t before = stub::asked().size();
  const bool again = sym_choice("again", 2);
  if (again) set_speed("v2");
  const int k = sym_choice("op", 4);
  {
    Limit l;
    const Eigen::Vector3d q(1, 2, place("q"));
    if (k == 0) dt->setWaypoints({waypoint("c", q)});
    else if (k == 1) dt->appendWaypoint(waypoint("c", q));
    else if (k == 2) dt->modifyWaypoint("b", q);
    else dt->modifyWaypoints({{"a", q}, {"b", q}});
  }
  for (int i = 0; i < 9; ++i) { if (i == 4) sched::allow(0); pause_ms(15); eval(*dt, clock_s()); check_speed(); }
  const size_t n = stub::asked().size();
  sym_assert(n >= 1 && (p == 0 || n > before), "planned");
  check_plan(n - 1, speed);
  for (size_t i = 0; i < before; ++i) check_plan(i, v1);
  sym_reach("planned");
  { Limit l; delete dt; }
  sched::end();
  sym_reach("end");
}
