// C19: a trajectory survives being written and read back; malformed input is refused.
#include "util.h"
#include <mav_trajectory_generation/io.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fstream>
#include <cstring>
using namespace mav_trajectory_generation;
// A symbolic number has no digits.  Written with the 17 digits that identify a double it
// becomes a token that reads back as itself, written with p < 17 it is off by up to 5 in
// the next digit.
static std::vector<double>* written = new std::vector<double>;
extern "C" std::ostream& text_out(std::ostream* s, double v) asm("_ZNSo9_M_insertIdEERSoT_");
extern "C" std::istream& text_in(std::istream* s, double& v) asm("_ZNSi10_M_extractIdEERSiRT_");
extern "C" __attribute__((noinline)) std::ostream& text_out(std::ostream* s, double v) {
  typedef std::ostream& (*Real)(std::ostream*, double);
  static Real real = (Real)dlsym(RTLD_NEXT, "_ZNSo9_M_insertIdEERSoT_");
  if (!sym_is_sym(v)) return real(s, v);
  const int p = (int)s->precision();
  double kept = v;
  if (p < 17 || (s->flags() & std::ios::fixed)) {
    double off = 5;
    for (int i = 0; i < p; ++i) off /= 10;
    kept = v + sym_any(-1, 1) * off * ((s->flags() & std::ios::fixed) ? 0.1 : 1.0);
  }
  written->push_back(kept);
  const double token = std::ldexp(1.0 + std::ldexp((double)written->size(), -30), -900);
  const auto old = s->precision(17);
  real(s, token);
  s->precision(old);
  return *s;
}
extern "C" __attribute__((noinline)) std::istream& text_in(std::istream* s, double& v) {
  typedef std::istream& (*Real)(std::istream*, double&);
  static Real real = (Real)dlsym(RTLD_NEXT, "_ZNSi10_M_extractIdEERSiRT_");
  double x = 0;
  std::istream& r = real(s, x);
  const double id = (std::ldexp(x, 900) - 1.0) * 1073741824.0;
  if (id >= 1 && id <= (double)written->size()) x = (*written)[(size_t)id - 1];
  v = x;
  return r;
}
namespace {
std::string path() { return "/tmp/sym-c19-" + std::to_string(getpid()) + ".yaml"; }
struct Removed { ~Removed() { unlink(path().c_str()); } };
Trajectory make(int K, int D, int N) {
  Segment::Vector v;
  for (int k = 0; k < K; ++k) {
    Segment s(N, D);
    s.setTime(sym_double("T", 0, 1000));
    for (int d = 0; d < D; ++d) s[d] = Polynomial(N, sym_vec("c", N, -1e6, 1e6));
    v.push_back(s);
  }
  Trajectory t;
  t.setSegments(v);
  return t;
}
void same(const Segment::Vector& a, const Segment::Vector& b) {
  sym_assert(a.size() == b.size(), "segment-count");
  for (size_t k = 0; k < a.size(); ++k) {
    sym_assert(a[k].D() == b[k].D() && a[k].N() == b[k].N(), "shape");
    sym_assert_near(b[k].getTime(), a[k].getTime(), 2.1e-9, "duration-within-two-nanoseconds");
    for (int d = 0; d < a[k].D(); ++d) {
      sym_assert(b[k][d].N() == a[k].N(), "shape");
      for (int i = 0; i < a[k].N(); ++i) sym_assert_near(b[k][d].getCoefficients(0)[i], a[k][d].getCoefficients(0)[i], 0, "coefficients-exact");
    }
  }
}
void round_trip() {
  const int K = 1 + sym_choice("K", sym_arg("maxK", 3)), D = 1 + sym_choice("D", sym_arg("maxD", 3));
  static const int Ns[] = {1, 2, 4, 10};
  const int N = Ns[sym_choice("N", 4)];
  const Trajectory t = make(K, D, N);
  Trajectory u;
  if (sym_choice("filled", 2)) { Segment s(2, 2); s.setTime(1); u.setSegments({s, s}); }  // what it held before is gone
  Removed r;
  Segment::Vector segs;
  bool ok = false;
  switch (sym_choice("way", 6)) {
    case 0: ok = trajectoryFromYaml(trajectoryToYaml(t), &u); break;
    case 1: ok = trajectoryFromYaml(YAML::Load(YAML::Dump(trajectoryToYaml(t))), &u); break;
    case 2: ok = trajectoryToFile(path(), t) && trajectoryFromFile(path(), &u); break;
    case 3: ok = trajectoryToFile(path(), t) && trajectoryFromYaml(YAML::LoadFile(path()), &u); break;
    case 4: {
      std::ofstream f(path());
      f << YAML::Dump(trajectoryToYaml(t));
      f.close();
      ok = trajectoryFromFile(path(), &u);
      break;
    }
    default: {
      segs.push_back(Segment(1, 1));
      t.getSegments(&segs);
      ok = segmentsToFile(path(), segs);
      Segment::Vector back(2, Segment(1, 1));
      ok = ok && segmentsFromFile(path(), &back);
      sym_assert(ok, "accepted");
      same(t.segments(), back);
      const YAML::Node one = segmentToYaml(segs[K - 1]);
      Segment s(3, 1);
      sym_assert(segmentFromYaml(one, &s), "accepted");
      same({segs[K - 1]}, {s});
      Eigen::VectorXd c;
      sym_assert(coefficientsFromYaml(coefficientsToYaml(segs[0][D - 1].getCoefficients(0)), &c), "accepted");
      for (int i = 0; i < N; ++i) sym_assert_near(c[i], segs[0][D - 1].getCoefficients(0)[i], 0, "coefficients-exact");
      sym_assert(segmentsFromYaml(segmentsToYaml(segs)["segments"], &back), "accepted");
      same(segs, back);
      sym_reach("pieces");
      return;
    }
  }
  sym_assert(ok, "accepted");
  same(t.segments(), u.segments());
  sym_assert(u.D() == D && u.N() == N, "shape");
  double total = 0;
  for (auto& s : u.segments()) total = total + s.getTime();
  sym_assert_near(u.getMaxTime(), total, 1e-9, "end-time");
  sym_reach("round-trip");
}
// one thing in the document is wrong
void corrupted() {
  const int K = 2, D = 2, N = 3;
  YAML::Node n = YAML::Clone(trajectoryToYaml(make(K, D, N)));
  YAML::Node seg = n["segments"][sym_choice("segment", K)];
  const int what = sym_choice("what", 24);
  static const char* keys[] = {"N", "D", "time", "coefficients"};
  bool harmless = false;
  if (what < 4) seg.remove(keys[what]);
  else if (what < 8) seg[keys[what - 4]] = "many";
  else if (what < 12) seg[keys[what - 8]] = YAML::Load("{a: 1}");
  else if (what == 12) seg["N"] = sym_choice("by", 2) ? N + 1 : N - 1;
  else if (what == 13) seg["D"] = sym_choice("by", 2) ? D + 1 : D - 1;
  else if (what == 14) seg["N"] = -sym_choice("by", 2);
  else if (what == 15) seg["D"] = -sym_choice("by", 2);
  else if (what == 16) seg["time"] = sym_choice("by", 2) ? "-5" : "1.5";
  else if (what == 17) seg["coefficients"].push_back(seg["coefficients"][0]);
  else if (what == 18) seg["coefficients"].remove(1);
  else if (what == 19) seg["coefficients"][sym_choice("row", D)].push_back(sym_double("extra", -1, 1));
  else if (what == 20) seg["coefficients"][sym_choice("row", D)].remove(N - 1);
  else if (what == 21) seg["coefficients"][sym_choice("row", D)][sym_choice("entry", N)] = "x";
  else if (what == 22) {
    switch (sym_choice("top", 5)) {
      case 0: n.remove("segments"); break;
      case 1: n["segments"] = "all"; break;
      case 2: n["segments"] = YAML::Node(YAML::NodeType::Sequence); break;
      case 3: n["segments"] = YAML::Load("{a: 1}"); break;
      default: n["segments"].push_back("x");
    }
  } else {
    // every segment is fine, but they do not fit together
    const bool d = sym_choice("other", 2);
    n["segments"].push_back(segmentToYaml(make(1, d ? 1 : D, d ? N : N - 1).segments()[0]));
  }
  Removed r;
  const int way = sym_choice("way", 3);
  std::string text;
  if (way) text = YAML::Dump(n);
  if (way == 2) { std::ofstream f(path()); f << text; f.close(); }
  Trajectory u;
  Segment before(2, 2);
  before.setTime(1);
  u.setSegments({before});
  bool ok = true;
  try {
    if (way == 0) ok = trajectoryFromYaml(n, &u);
    if (way == 1) ok = trajectoryFromYaml(YAML::Load(text), &u);
    if (way == 2) ok = trajectoryFromFile(path(), &u);
  } catch (const YAML::Exception&) { ok = false; }
  sym_assert(ok == harmless, "malformed-is-refused");
  sym_assert(u.segments().size() == 1 && u.N() == 2 && u.D() == 2, "left-alone-when-refused");
  if (what == 0) {
    Trajectory w;
    Segment::Vector s;
    sym_assert(!trajectoryFromFile("/nonexistent/file", &w) && !segmentsFromFile("/nonexistent/file", &s), "missing-file-refused");
    sym_assert(!trajectoryToFile("/nonexistent/file", u), "unwritable-file-reported");
  }
  sym_reach("refused");
}
}  // namespace
void harness() {
  sym_tagged_ints(1);
  if (sym_arg("what", 0) == 0) round_trip(); else corrupted();
}
