// C18: calls and destruction always terminate, and nothing is used after its destruction.
#include "dyn.h"
#include <malloc.h>
#include <new>
// freed memory is kept and filled while a generator is being destroyed
static bool armed = false;
static struct { unsigned char* p; size_t n; } kept[4096];
static int nkept = 0;
static void release(void* p) {
  if (!p) return;
  if (armed && nkept < 4096) {
    const size_t n = malloc_usable_size(p);
    memset(p, 0xDD, n);
    kept[nkept].p = (unsigned char*)p;
    kept[nkept++].n = n;
  } else free(p);
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
static bool untouched() {
  for (int i = 0; i < nkept; ++i)
    for (size_t k = 0; k < kept[i].n; ++k)
      if (kept[i].p[k] != 0xDD) return false;
  return true;
}
static DynamicWaypoint::Vector list(int n) {
  DynamicWaypoint::Vector v;
  for (int i = 0; i < n; ++i) v.push_back(waypoint("w" + std::to_string(i), Eigen::Vector3d(2 + i, 1, i)));
  return v;
}
static DynamicTrajectory* dt;
static void destroy() {
  {
    Limit l;
    armed = true;
    delete dt;
    armed = false;
  }
  sym_assert(sched::live() == 1, "threads-stopped");
  sym_assert(untouched(), "nothing-used-after-destruction");
}
static void* second_user(void*) {
  static const int what = sym_choice("second", 5);
  for (int i = 0; i < 2; ++i) {
    Limit l(20000);
    References r;
    if (what == 0) dt->evaluateTrajectory(0.02f * i, r, false, true);
    else if (what == 1) dt->getDynamicWaypoints();
    else if (what == 2) { dt->getMaxTime(); dt->getMinTime(); }
    else if (what == 3) { dt->getRemainingWaypoints(); dt->getTimeCompensation(); dt->getSpeed(); dt->getWasTrajectoryRegenerated(); dt->getComputingNewTrajectoryStatus(); }
    else { dt->appendWaypoint(waypoint("x" + std::to_string(i), Eigen::Vector3d(1, 2, 3))); dt->updateVehiclePosition(Eigen::Vector3d(0, 0, 0)); dt->setSpeed(1.0); }
    pause_ms(15);
  }
  return nullptr;
}
void harness() {
  const int what = sym_arg("what", 0);
  stub::compute_ns = sym_arg("ms", 20) * 1000000L;
  sched::begin(sym_arg("preempt", 1));
  dt = new DynamicTrajectory();
  if (what == 0) {  // destroyed at any moment of its life
    static const long pauses[] = {0, 4, 15, 26, 40};
    const int stage = sym_choice("stage", 5);
    if (stage >= 1) { Limit l; dt->updateVehiclePosition(Eigen::Vector3d(0, 0, 1)); dt->setSpeed(2); dt->setWaypoints(list(2)); }
    if (stage >= 2) eval(*dt, sym_double("t", 0, 2));
    if (stage == 3) { Limit l; dt->appendWaypoint(waypoint("x", Eigen::Vector3d(1, 2, 3))); }
    if (stage == 4) { Limit l; dt->modifyWaypoint("w1", Eigen::Vector3d(sym_double("p", -5, 5), 2, 3), sym_choice("regenerate", 2)); }
    const int p = sym_choice("pause", 5);
    if (pauses[p]) pause_ms(pauses[p]);
    destroy();
    sym_reach("destroyed");
  } else if (what == 1) {  // every call returns, whatever the other threads do, and others may call as well
    { Limit l; dt->updateVehiclePosition(Eigen::Vector3d(0, 0, 1)); dt->setSpeed(2); dt->setWaypoints(list(2)); }
    pthread_t other;
    pthread_create(&other, nullptr, second_user, nullptr);
    for (int i = 0; i < 3; ++i) {
      eval(*dt, 0.03 * i);
      if (i == 1) { Limit l; dt->appendWaypoint(waypoint("y", Eigen::Vector3d(1, 2, 3))); }
      pause_ms(15);
    }
    { Limit l; dt->getMaxTime(); dt->getMinTime(); dt->getRemainingWaypoints(); dt->getNextTrajectoryWaypoints(); }
    { Limit l(20000); pthread_join(other, nullptr); }
    destroy();
    sym_reach("both");
  }
  sched::end();
  sym_reach("end");
}
