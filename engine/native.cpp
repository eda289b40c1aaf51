// Native implementation of the harness interface: replays one input vector.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <fstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
static std::map<std::string, double>& in() { static std::map<std::string, double> m; return m; }
static std::map<std::string, int>& cnt() { static std::map<std::string, int> m; return m; }
static std::map<std::string, int>& args() { static std::map<std::string, int> m; return m; }
static int out_fd = 2;
static bool thorough_ = false;
static int fails = 0;
static void emit(const std::string& s) { std::string t = s + "\n"; if (write(out_fd, t.data(), t.size())) {} }
static std::string uname_(const char* n) {
  int k = cnt()[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
extern "C" __attribute__((weak)) void __sched_point() {}
extern "C" {
double sym_double(const char* name, double lo, double hi) {
  std::string n = uname_(name);
  auto it = in().find(n);
  double v = it == in().end() ? lo + 0.6180339887 * (hi - lo) : it->second;
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
double sym_any(double lo, double hi) { return sym_double("any", lo, hi); }
int sym_choice(const char* name, int n) {
  std::string nm = uname_(name);
  auto it = in().find(nm);
  int v = it == in().end() ? 0 : (int)it->second;
  return v < 0 ? 0 : v >= n ? n - 1 : v;
}
void sym_end() { emit("END"); _exit(fails ? 3 : 0); }
void sym_assume(int c) { if (!c) { emit("ASSUME_FALSE"); _exit(fails ? 3 : 4); } }
void sym_assume_le(double a, double b) { sym_assume(a <= b); }
void sym_assert(int c, const char* id) { if (!c) { ++fails; emit(std::string("FAIL ") + id); } }
static void obs(const char* id, double v) { char b[512]; snprintf(b, sizeof b, "OBS %s %.17g", id, v); emit(b); }
void sym_observe(const char* id, double v) { obs(id, v); }
void sym_assert_near(double a, double b, double tol, const char* id) {
  obs(id, a - b);
  if (!(std::fabs(a - b) <= tol)) { ++fails; char t[512]; snprintf(t, sizeof t, "FAIL %s (%.17g vs %.17g, tol %g)", id, a, b, tol); emit(t); }
}
void sym_assert_le(double a, double b, double tol, const char* id) {
  obs(id, a - b);
  if (!(a <= b + tol)) { ++fails; char t[512]; snprintf(t, sizeof t, "FAIL %s (%.17g > %.17g, tol %g)", id, a, b, tol); emit(t); }
}
void sym_reach(const char* id) { emit(std::string("REACH ") + id); }
static bool allow_abort = false;
void sym_allow_abort(int on) { allow_abort = on; emit(on ? "ALLOW_ABORT" : "NO_ABORT"); }
void sym_tagged_ints(int) {}
int sym_is_symbolic() { return 0; }
int sym_is_sym(double) { return 0; }
void sym_note(const char* m) { emit(std::string("NOTE ") + m); }
int sym_thorough() { return thorough_; }
int sym_arg(const char* k, int d) { auto it = args().find(k); return it == args().end() ? d : it->second; }
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--thorough") thorough_ = true;
    else if (a == "--out" && i + 1 < argc) out_fd = open(argv[++i], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    else if (a == "--arg" && i + 1 < argc) { std::string s = argv[++i]; auto p = s.find('='); args()[s.substr(0, p)] = atoi(s.c_str() + p + 1); }
    else if (a == "--in" && i + 1 < argc) {
      std::ifstream f(argv[++i]);
      std::string n, v;
      while (f >> n >> v) in()[n] = strtod(v.c_str(), nullptr);
    }
  }
  harness();
  sym_end();
}
