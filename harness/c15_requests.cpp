// C15: every accepted request is served; C16 (list=1): the served list is the requested one.
#include "dyn.h"
#include <set>
struct Want { std::string name; Eigen::Vector3d pos; };
static std::vector<Want> want;
static std::set<std::string> visited;  // waypoints the flight has been through
static DynamicTrajectory* dt;
static int fresh = 0;
static double lead = 0;  // the evaluation time runs ahead of the clock by this much
static bool any_time = false;
static Eigen::Vector3d place(const char* name) {
  return any_time ? Eigen::Vector3d(1.5 * fresh, 1.0 + fresh % 2, 2.0) : sym_pos(name);
}
static void ask_set() {
  DynamicWaypoint::Vector v;
  want.clear();
  for (int i = 0; i < 2; ++i) {
    const std::string n = "w" + std::to_string(fresh++);
    Eigen::Vector3d p = place("set");
    v.push_back(waypoint(n, p));
    want.push_back({n, p});
  }
  Limit l; dt->setWaypoints(v);
}
static void ask_append() {
  const std::string n = "w" + std::to_string(fresh++);
  Eigen::Vector3d p = place("add");
  want.push_back({n, p});
  Limit l; dt->appendWaypoint(waypoint(n, p));
}
static void clear_of(double a, double b);
static double fly_t() { return clock_s() + lead; }
static void ask_modify(int how) {
  Eigen::Vector3d p = any_time ? Eigen::Vector3d(-3, 5, 1) : sym_pos("mod");
  Want& w = want[want.size() - 1];
  w.pos = p;
  if (any_time)
    for (const auto& g : served(*dt))
      if (g.getName() == w.name) clear_of(g.getTime(), fly_t());  // it blends in from here to the waypoint
  Limit l;
  if (how == 0) dt->modifyWaypoint(w.name, p, true);
  else if (how == 1) dt->modifyWaypoint(w.name, p, false);
  else dt->modifyWaypoints({{w.name, p}});
}
// the waypoints being served, handed in again
static bool ask_again() {
  DynamicWaypoint::Vector v;
  std::vector<Want> w2;
  for (const auto& w : served(*dt))
    if (!helper(w)) {  // under a new name, to tell the visits apart
      v.push_back(w);
      v.back().setName("w" + std::to_string(fresh++));
      w2.push_back({v.back().getName(), w.getCurrentPosition()});
    }
  if (v.empty()) return false;
  want = w2;
  Limit l; dt->setWaypoints(v);
  return true;
}
// moments where rounding decides whether a waypoint has been reached are left out
static void clear_of(double a, double b) { sym_assume(a - b > 1e-5 || b - a > 1e-5); }
static void fly() {
  const double t = fly_t();
  eval(*dt, t);
  if (any_time)
    for (const auto& w : served(*dt)) {
      const double flown = t + dt->getTimeCompensation(), zone = 10e-9 * stub::compute_ns;
      clear_of(w.getTime(), flown);
      clear_of(w.getTime(), flown + zone);
    }
  for (const auto& w : served(*dt))
    if (!helper(w) && w.getTime() <= (float)t + dt->getTimeCompensation()) visited.insert(w.getName());
}
void harness() {
  const int ops = sym_arg("ops", 2), kinds = sym_arg("kinds", 6), longer = sym_arg("long", 0);
  any_time = sym_arg("any", 0);
  stub::compute_ns = sym_arg("ms", 20) * 1000000L;
  const int preempt = sym_arg("preempt", 0);
  sched::begin(0);
  const int first = longer ? 2 : sym_choice("first", 3 + sym_arg("during", 0));
  if (first < 2) sched::allow(preempt);
  dt = new DynamicTrajectory();
  dt->updateVehiclePosition(Eigen::Vector3d(0, 0, 1));
  dt->setSpeed(2.0);
  ask_set();
  if (first == 3) pause_ms(12);  // the first generation is under way, nobody waits for it
  else if (first) fly();
  if (first == 2) { pause_ms(30); fly(); }
  static const long pauses[] = {0, 12, 45, 580, 790, 880, 1300, 2000, 2800};
  if (first >= 2) sched::allow(preempt);
  double last_op = 0;
  size_t planned = 0;
  bool regenerates = true, due = false;  // due: an idle generator was asked for a new trajectory
  size_t due_planned = 0;
  std::set<std::string> before;
  for (int i = 0; i < ops; ++i) {
    if (any_time) {
      lead += sym_double("ahead", 0, 3.5);
      fly();
    } else if (longer) {
      const int p = sym_choice("wait", 9);
      if (p) { pause_ms(pauses[p]); fly(); }
    }
    before = visited;
    last_op = fly_t();
    planned = stub::asked().size();
    const bool idle = stub::asked().size() && !dt->getComputingNewTrajectoryStatus() && !dt->getGenerateNewTraj();
    const int k = sym_choice("op", kinds);
    if (k == 0) ask_append();
    else if (k == 1) ask_modify(1);
    else if (k == 2) ask_modify(0);
    else if (k == 3) ask_set();
    else if (k == 4) ask_modify(2);
    else if (!ask_again()) sym_end();  // nothing to hand in again
    regenerates = k != 1;
    if (idle && regenerates) { due = true; due_planned = planned; }
    if (!longer) {
      const int p = sym_choice("pause", 3);
      if (p) { pause_ms(pauses[p]); fly(); }
    }
  }
  for (int i = any_time ? 7 : 0; i < 14; ++i) { if (i == 4) sched::allow(0); pause_ms(i < 10 ? 15 : longer ? 90 : 5); fly(); }
  const auto got = served(*dt);
  std::vector<DynamicWaypoint> real;
  const bool blended = !regenerates || stub::asked().size() == planned;
  for (const auto& w : got)
    if (!helper(w)) real.push_back(w);
  if (sym_arg("list", 0) == 0) {  // C15: every request is reflected
    if (due) sym_assert(stub::asked().size() > due_planned, "new-trajectory-made");
    for (const auto& w : want) {
      const DynamicWaypoint* g = nullptr;
      for (const auto& r : real)
        if (r.getName() == w.name) g = &r;
      sym_assert(g || visited.count(w.name), "request-served");
      if (g && !before.count(w.name))
        for (int k = 0; k < 3; ++k) sym_assert_near(g->getCurrentPosition()[k], w.pos[k], 0, "request-reflected");
    }
  } else {  // C16: the list
    size_t j = 0;
    double last = -1;
    for (const auto& w : want) {
      bool in = false;
      for (const auto& g : real) in = in || g.getName() == w.name;
      sym_assert(in || visited.count(w.name), "unvisited-is-served");
      if (!in) continue;
      sym_assert(real[j].getName() == w.name, "in-the-requested-order");
      const DynamicWaypoint& g = real[j++];
      const double t = g.getTime();
      sym_assert(t > last, "times-increase");
      last = t;
      sym_assert(!before.count(w.name) || t <= last_op + 0.2, "passed-waypoint-not-flown-again");
      if (before.count(w.name)) continue;  // a passed waypoint need not follow its modifications
      for (int k = 0; k < 3; ++k) sym_assert_near(g.getCurrentPosition()[k], w.pos[k], 0, "latest-position");
      if (blended) continue;  // not regenerated: see C12 for what blending gives
      const References r = eval(*dt, t - dt->getTimeCompensation(), true);
      for (int k = 0; k < 3; ++k) sym_assert_near(r.position[k], w.pos[k], 1e-5, "flown-through-latest-position");
    }
    sym_assert(j == real.size(), "nothing-else-served");
    int ahead = 0;  // what is left, by the time flown
    const double now = fly_t() + dt->getTimeCompensation();
    bool clear = true, any_helper = false;
    for (const auto& g : got) {
      clear = clear && (g.getTime() - now > 1e-5 || now - g.getTime() > 1e-5);
      if (g.getTime() <= now) continue;
      if (helper(g) && ahead) any_helper = true;
      if (!helper(g)) ++ahead;
    }
    sym_assume(clear);
    sym_assert(!any_helper, "helpers-come-first");
    sym_assert(dt->getRemainingWaypoints() == ahead, "remaining-count");
  }
  sym_reach("settled");
  { Limit l; delete dt; }
  sym_assert(sched::live() == 1, "threads-stopped");
  sched::end();
  sym_reach("end");
}
