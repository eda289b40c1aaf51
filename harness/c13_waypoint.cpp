// C13: a dynamic waypoint keeps its identity and position.
#include "util.h"
#include "dynamic_waypoint.hpp"
#include <map>
using dynamic_traj_generator::DynamicWaypoint;
namespace {
struct Shadow {
  std::string name;
  int index = -1;
  double time = 0;
  Eigen::Vector3d orig, cur;
  std::map<int, Eigen::Vector3d> cons;
  bool moved = false;
};
Eigen::Vector3d vec3(const char* n) {
  Eigen::Vector3d v;
  for (int i = 0; i < 3; ++i) v[i] = sym_double(n, -5, 5);
  return v;
}
void same(const Eigen::VectorXd& a, const Eigen::VectorXd& b, const char* id) {
  sym_assert(a.size() == b.size(), id);
  for (int i = 0; i < a.size(); ++i) sym_assert_near(a[i], b[i], 0, id);
}
void compare(const DynamicWaypoint& w, const Shadow& s) {
  sym_assert(w.getName() == s.name, "name-kept");
  sym_assert(w.getIndex() == s.index, "index-kept");
  sym_assert_near(w.getTime(), s.time, 0, "time-kept");
  same(w.getOriginalPosition(), s.orig, "original-position-kept");
  same(w.getCurrentPosition(), s.cur, "current-position-kept");
  sym_assert(w.hasModifiers() == s.moved, "has-correction-exactly-when-moved");
  const mav_trajectory_generation::Vertex v = w.getVertex();
  sym_assert(v.D() == 3, "vertex-dimension");
  for (int d = 0; d <= 4; ++d) {
    Eigen::VectorXd c;
    const bool has = v.getConstraint(d, &c);
    const auto it = s.cons.find(d);
    sym_assert(has == (it != s.cons.end()), "constraints-kept");
    if (has && it != s.cons.end()) same(c, it->second, "constraint-values-kept");
  }
}
DynamicWaypoint pass_by_value(DynamicWaypoint w) { return w; }
}  // namespace
void harness() {
  const int ops = sym_arg("ops", 3);
  Shadow s;
  s.orig = s.cur = vec3("p");
  s.cons[0] = s.cur;
  mav_trajectory_generation::Vertex vx(3);
  vx.addConstraint(0, s.orig);
  if (sym_choice("extra", 2)) { s.cons[1] = vec3("v"); vx.addConstraint(1, s.cons[1]); }
  const int ctor = sym_choice("ctor", 3);
  std::vector<DynamicWaypoint> store;
  if (ctor == 0) store.emplace_back(vx, "alpha");
  else if (ctor == 1) { store.emplace_back(vx, 7, "beta"); s.index = 7; }
  else {  // filled in later
    store.emplace_back();
    store[0].resetWaypoint(s.orig);
    if (s.cons.count(1)) store[0].setConstraint(1, s.cons[1]);
  }
  s.name = ctor == 0 ? "alpha" : ctor == 1 ? "beta" : "";
  compare(store[0], s);
  DynamicWaypoint twin(store[0]);
  bool have_twin = false;
  for (int k = 0; k < ops; ++k) {
    const int op = sym_choice("op", 9);
    if (op <= 5) {
      Eigen::Vector3d v;
      double x = 0;
      const double now = op == 4 ? sym_double("now", 0.001, 10) : 0;
      if (op == 0) x = sym_double("time", 0.1, 20);
      if (op == 1 || op == 5) v = vec3("q");
      if (op == 3 || op == 4) { v = s.cur; v[k % 3] = sym_double("q", -5, 5); }
      for (int who = 0; who < 1 + have_twin; ++who) {
        DynamicWaypoint& w = who ? twin : store[0];
        switch (op) {
          case 0: w.setTime(x); break;
          case 1: w.resetWaypoint(v); break;
          case 2: w.resetWaypointWithCurrentPosition(); break;
          case 3: w.setCurrentPosition(v); break;
          case 4: w.setCurrentPosition(v, now); break;
          case 5: w.setConstraint(2, v); break;
        }
      }
      if (op == 0) s.time = x;
      if (op == 1) { s.orig = s.cur = s.cons[0] = v; s.moved = false; }
      if (op == 2) { s.orig = s.cur; s.moved = false; }
      if (op == 3 || op == 4) { s.cur = s.cons[0] = v; s.moved = true; }
      if (op == 5) s.cons[2] = v;
    } else if (op == 6) {
      const int how = sym_choice("how", 3);
      if (how == 0) twin = store[0];
      else if (how == 1) { DynamicWaypoint c(store[0]); twin = c; }
      else twin = pass_by_value(store[0]);
      have_twin = true;
    } else if (op == 7) {
      for (int who = 0; who < 1 + have_twin; ++who) { DynamicWaypoint& w = who ? twin : store[0]; w.setName("gamma"); w.setIndex(3); w.displaceIndex(2); }
      s.name = "gamma"; s.index = 5;
    } else {  // containers relocate by copying
      store.reserve(store.capacity() + 1);
      DynamicWaypoint::Deque q(store.begin(), store.end());
      DynamicWaypoint::Deque r = q;
      store[0] = r.front();
    }
    compare(store[0], s);
    if (have_twin) compare(twin, s);
  }
  if (have_twin) {
    const double t = sym_double("t", 0, 20);
    const int d = sym_choice("derivative", 3);
    same(twin.trajectoryCompensation(t, d), store[0].trajectoryCompensation(t, d), "copy-corrects-alike");
    Eigen::Vector3d v = s.cur;
    v[2] = sym_double("later", -5, 5);  // and both react alike to a later change
    twin.setCurrentPosition(v); store[0].setCurrentPosition(v);
    same(twin.trajectoryCompensation(t, 0), store[0].trajectoryCompensation(t, 0), "copy-reacts-alike");
    sym_reach("copied");
  }
  if (s.moved) sym_reach("moved"); else sym_reach("unmoved");
}
