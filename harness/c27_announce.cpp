// C27: every change of the served motion is announced, once, when it is in place.
#include "dyn.h"
static DynamicTrajectory* dt;
static int change;
static int announced = 0;
static double lead = 0;
static Eigen::Vector3d target;
static bool in_place() {
  Limit l;
  if (change == 1) {  // the list without taking anything over
    for (const auto& w : dt->getNextTrajectoryWaypoints())
      if (w.getName() == "c") return true;
    return false;
  }
  for (const auto& w : dt->getNextTrajectoryWaypoints())
    if (w.getName() == "b") {
      for (int k = 0; k < 3; ++k)
        if (!(w.getCurrentPosition()[k] - target[k] < 1e-9 && target[k] - w.getCurrentPosition()[k] < 1e-9)) return false;
      return true;
    }
  return false;
}
static bool poll() {
  bool r;
  { Limit l; r = dt->getWasTrajectoryRegenerated(); }
  if (r) {
    ++announced;
    sym_assert(in_place(), "announced-when-in-place");
  }
  return r;
}
static void* poller(void*) {
  for (int i = 0; i < 5; ++i) { poll(); pause_ms(11); }
  return nullptr;
}
// announcements nobody has asked for yet are not forgotten when there are more
static void before_waypoint() {
  double a = 0;
  for (const auto& w : served(*dt)) if (w.getName() == "a") a = w.getTime();
  lead = a - dt->getTimeCompensation() - sym_choice("near", 2) * 0.125 - 0.03125 - clock_s();
  const bool unread = sym_choice("unread", 2);
  if (unread) {
    { Limit l; dt->modifyWaypoint("b", Eigen::Vector3d(2, 3, 1), false); }
    pause_ms(15);
  }
  lead -= 0.015; pause_ms(15);
  eval(*dt, clock_s() + lead);
  { Limit l; dt->modifyWaypoint("b", target, sym_choice("regenerate", 2)); }
  pause_ms(25);
  const bool moved = in_place();
  bool r;
  { Limit l; r = dt->getWasTrajectoryRegenerated(); }
  sym_assert(r == (moved || unread), "announced");
  { Limit l; sym_assert(!dt->getWasTrajectoryRegenerated(), "announced-once"); }
  for (int i = 0; i < 3; ++i) { eval(*dt, a + 0.25 * i - dt->getTimeCompensation()); pause_ms(40); }  // past it
  { Limit l; r = dt->getWasTrajectoryRegenerated(); }
  sym_assert(in_place(), "moved");
  sym_assert(r || moved, "announced");
  { Limit l; delete dt; }
}
void harness() {
  stub::compute_ns = 20000000;
  const int preempt = sym_arg("preempt", 1);
  sched::begin(0);
  dt = new DynamicTrajectory();
  dt->updateVehiclePosition(Eigen::Vector3d(0, 0, 1));
  dt->setSpeed(2);
  { Limit l; sym_assert(!dt->getWasTrajectoryRegenerated(), "nothing-to-announce"); }
  { Limit l; sym_assert(!dt->getGenerateNewTraj(), "nothing-requested"); }
  change = sym_choice("change", 5);  // first trajectory, appended, moved in place, moved with a new trajectory, moved just before a waypoint
  target = Eigen::Vector3d(2, sym_double("pb", 0.5, 10), 2);
  auto first = [] { Limit l; dt->setWaypoints({waypoint("a", Eigen::Vector3d(1, 1, 2)), waypoint("b", change ? Eigen::Vector3d(2, -5, 2) : target)}); };
  if (change) {
    first();
    pause_ms(12); eval(*dt, 0.01); pause_ms(45); eval(*dt, 0.06);
    { Limit l; sym_assert(dt->getWasTrajectoryRegenerated(), "first-announced"); }
    { Limit l; sym_assert(!dt->getWasTrajectoryRegenerated(), "announced-once"); }
    pause_ms(30); eval(*dt, 0.1);
    { Limit l; sym_assert(!dt->getWasTrajectoryRegenerated(), "announced-once"); }
  }
  if (change == 4) {  // no new trajectory right before a waypoint: moved in place at first
    before_waypoint();
    sched::end();
    sym_reach("zone");
    return;
  }
  sched::allow(preempt);
  pthread_t other;
  pthread_create(&other, nullptr, poller, nullptr);
  if (change == 0) first();
  else { Limit l; if (change == 1) dt->appendWaypoint(waypoint("c", target)); else dt->modifyWaypoint("b", target, change == 3); }
  if (preempt == 0 && change != 2) { Limit l; sym_assert(dt->getGenerateNewTraj(), "request-pending"); }
  for (int i = 0; i < 5; ++i) { pause_ms(10); eval(*dt, clock_s()); }
  sched::allow(0);
  { Limit l(20000); pthread_join(other, nullptr); }
  pause_ms(45); eval(*dt, clock_s());
  pause_ms(45); eval(*dt, clock_s());
  poll();
  sym_assert(announced >= 1, "announced");
  // moved in place first and flown by a new trajectory then: two changes
  sym_assert(announced <= (change == 3 ? 2 : 1), "announced-once");
  sym_assert(!poll(), "announced-once");
  { Limit l; sym_assert(!dt->getGenerateNewTraj(), "nothing-requested"); }
  { Limit l; sym_assert(!dt->getComputingNewTrajectoryStatus(), "nothing-computing"); }
  sym_reach("announced");
  { Limit l; delete dt; }
  sched::end();
  sym_reach("end");
}
