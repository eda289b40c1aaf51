// C23: timing statistics are the statistics of what was recorded.
#include "util.h"
#include <chrono>
#include "mav_trajectory_generation/timing.h"
using namespace mav_trajectory_generation::timing;
// the clock the timers read
static long long g_now = 1000000000000ll;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_now)); }
} } }
namespace {
struct Stats { double sum, mean, mn, mx, rmean, var; };
Stats stats(const std::vector<double>& x, int N) {
  Stats s{0, 0, x[0], x[0], 0, 0};
  for (double v : x) { s.sum += v; if (v < s.mn) s.mn = v; if (v > s.mx) s.mx = v; }
  s.mean = s.sum / (double)x.size();
  const int w = std::min<int>(N, (int)x.size());
  for (int i = 0; i < w; ++i) s.rmean += x[x.size() - 1 - i];
  s.rmean /= w;
  for (int i = 0; i < w; ++i) s.var += (x[x.size() - 1 - i] - s.rmean) * (x[x.size() - 1 - i] - s.rmean);
  s.var /= w;
  return s;
}
template <int N>
void check_acc(const Accumulator<double, double, N>& a, const std::vector<double>& x) {
  const Stats s = stats(x, N);
  sym_assert(a.TotalSamples() == (int)x.size(), "count");
  sym_assert_near(a.Sum(), s.sum, 1e-9, "total");
  sym_assert_near(a.Mean(), s.mean, 1e-9, "mean");
  sym_assert_near(a.Min(), s.mn, 0, "minimum");
  sym_assert_near(a.Max(), s.mx, 0, "maximum");
  sym_assert_near(a.RollingMean(), s.rmean, 1e-9, "rolling-mean");
  sym_assert_near(a.LazyVariance(), s.var, 1e-8, "variance");
}
template <int N>
void run(int n, int symbolic_every) {
  Accumulator<double, double, N> a;
  std::vector<double> x;
  sym_assert(a.TotalSamples() == 0, "empty-count");
  sym_assert_near(a.LazyVariance(), 0, 0, "empty-variance");
  for (int i = 0; i < n; ++i) {
    const double v = i % symbolic_every == 0 ? sym_double("x", -100, 100) : 0.5 * (i % 7) - 1.0;
    a.Add(v);
    x.push_back(v);
    if (i == n - 1 || symbolic_every == 1) check_acc<N>(a, x);
  }
  Accumulator<double, double, N> b(a);  // statistics travel with a copy
  b.Add(x[0]);
  check_acc<N>(a, x);
  x.push_back(x[0]);
  check_acc<N>(b, x);
}
const long long kDt[5] = {1000000ll, 2500000000ll, 7ll, -3000000ll, 500000000ll};
void timers() {
  // two tags, recorded by any interleaving of timers started and stopped
  std::vector<double> rec[2];
  const char* tag[2] = {"alpha", "a longer name"};
  const int reset = sym_choice("reset", 2);
  if (reset) {
    const size_t h = Timing::GetHandle("alpha");
    { Timer t(h); g_now += 4000000000ll; }
    sym_assert(Timing::GetNumSamples("alpha") == 1, "destructor-records");
    Timing::Reset();
  }
  const size_t h[2] = {Timing::GetHandle(tag[0]), Timing::GetHandle(tag[1])};
  sym_assert(h[0] != h[1] && Timing::GetHandle(tag[0]) == h[0], "handles-distinct-and-stable");
  sym_assert(Timing::GetTag(h[0]) == tag[0] && Timing::GetTag(h[1]) == tag[1], "tags-kept");
  sym_assert(Timing::GetNumSamples(h[0]) == 0 && Timing::GetNumSamples(tag[1]) == 0, "fresh-timers-are-empty");
  Timer* t[2] = {new Timer(h[0], true), new Timer(tag[1], true)};
  sym_assert(!t[0]->IsTiming() && !t[1]->IsTiming(), "constructed-stopped");
  double since[2] = {0, 0};
  const int ops = sym_arg("ops", 4);
  for (int k = 0; k < ops; ++k) {
    const int w = sym_choice("who", 2);
    const long long d = kDt[sym_choice("dt", sym_arg("dts", 3))];
    g_now += d;
    for (double& s : since) s += (double)d * 1e-9;
    if (t[w]->IsTiming()) { t[w]->Stop(); rec[w].push_back(since[w]); sym_assert(!t[w]->IsTiming(), "stopped"); }
    else { t[w]->Start(); since[w] = 0; sym_assert(t[w]->IsTiming(), "started"); }
  }
  for (int w = 0; w < 2; ++w) {
    if (t[w]->IsTiming()) { g_now += 1000000000ll; for (double& s : since) s += 1; rec[w].push_back(since[w]); delete t[w]; }
    else delete t[w];
    sym_assert(Timing::GetNumSamples(h[w]) == rec[w].size() && Timing::GetNumSamples(tag[w]) == rec[w].size(), "timer-count");
    if (rec[w].empty()) continue;
    const Stats s = stats(rec[w], 50);
    for (int by = 0; by < 2; ++by) {
      sym_assert_near(by ? Timing::GetTotalSeconds(tag[w]) : Timing::GetTotalSeconds(h[w]), s.sum, 1e-9, "timer-total");
      sym_assert_near(by ? Timing::GetMeanSeconds(tag[w]) : Timing::GetMeanSeconds(h[w]), s.mean, 1e-9, "timer-mean");
      sym_assert_near(by ? Timing::GetMinSeconds(tag[w]) : Timing::GetMinSeconds(h[w]), s.mn, 1e-9, "timer-minimum");
      sym_assert_near(by ? Timing::GetMaxSeconds(tag[w]) : Timing::GetMaxSeconds(h[w]), s.mx, 1e-9, "timer-maximum");
      sym_assert_near(by ? Timing::GetVarianceSeconds(tag[w]) : Timing::GetVarianceSeconds(h[w]), s.var, 1e-9, "timer-variance");
      if (s.rmean > 1e-6) sym_assert_near((by ? Timing::GetHz(tag[w]) : Timing::GetHz(h[w])) * s.rmean, 1.0, 1e-6, "timer-rate");
    }
    sym_reach("recorded");
  }
  MiniTimer m;
  const long long d = kDt[sym_choice("mini", 5)];
  g_now += d;
  const double v = m.stop();
  sym_assert_near(v, d < 0 ? 0.0 : (double)d * 1e-9, 1e-12, "mini-timer");
  sym_assert_near(m.getTime(), v, 0, "mini-timer-kept");
}
}  // namespace
void harness() {
  const int what = sym_arg("what", 0);
  if (what == 0) { if (sym_choice("window", 2)) run<3>(sym_arg("n", 4), 1); else run<2>(sym_arg("n", 4), 1); }
  else if (what == 1) run<50>(50 + sym_choice("over", 3), 25);
  else timers();
  sym_reach("end");
}
