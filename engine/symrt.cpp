#include <execinfo.h>
// Symbolic runtime.  Values of the instrumented program are IEEE numbers; a NaN
// with a private payload is a handle to a symbolic value.  A symbolic value is
//   - a polynomial with exact rational coefficients over atoms (inputs, 1/p,
//     sqrt(p), exp(p), sin(p), ...), i.e. the value exact real arithmetic gives,
//   - an enclosure [lo,hi] of that exact value over the input box, and
//   - err: a bound on |IEEE value - exact value| (sum of all rounding errors).
// Comparisons fork the process; the constraint that is added is relaxed by the
// error bounds, so the set of paths covers every IEEE execution in the box.
// Obligations and branch feasibility are decided by an SMT solver (z3/cvc5 as
// subprocesses, SMT-LIB2 text).
#include "sym.h"
#include <fcntl.h>
#include <gmpxx.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/un.h>
#include <cstddef>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))
extern char** environ;

namespace {
typedef uint32_t u32;
typedef uint64_t u64;
const double INF = std::numeric_limits<double>::infinity();
const double QNAN = std::numeric_limits<double>::quiet_NaN();
const double U = 0x1p-53;
const double UF = 0x1p-24;

double dn(double x) { return std::nextafter(x, -INF); }
double up(double x) { return std::nextafter(x, INF); }

// ------------------------------------------------------------ configuration
struct Cfg {
  int logfd = 2;
  int jobs = 8;
  int path_s = 60;        // wall limit per path
  int q_ms = 10000;       // first solver budget
  int q2_ms = 40000;      // portfolio budget
  long max_paths = 20000;
  bool thorough = false;
  bool cross = false;     // cross-check unsat verdicts with a second solver
  double deadline = 0;    // absolute wall time
  std::map<std::string, int> args;
  std::map<std::string, double> fixed;  // concrete input mode
  bool concrete = false;
  std::string dump;       // directory for deciding queries
};
Cfg cfg;

struct Shared {
  std::atomic<int> tokens;
  std::atomic<long> paths, forks, queries, finished;
  std::atomic<int> stop;
  std::atomic<int> viol;
  // texts of queries already answered "unsat" on some path (128-bit hashes)
  struct { std::atomic<u64> a, b; } seen[1 << 20];
};
Shared* sh = nullptr;

double now_s() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

void logline(const std::string& s) {
  std::string t = s + "\n";
  size_t o = 0;
  while (o < t.size()) {
    ssize_t r = write(cfg.logfd, t.data() + o, t.size() - o);
    if (r <= 0) break;
    o += (size_t)r;
  }
}
std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r + "\"";
}
std::string num(double v) {
  char b[64];
  if (std::isnan(v)) return "\"nan\"";
  if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}

// ------------------------------------------------------------ polynomials
enum AK { A_INPUT, A_INV, A_SQRT, A_EXP, A_LOG, A_SIN, A_COS, A_ATAN2, A_ASIN, A_ACOS, A_ABS, A_MIN, A_MAX, A_OPQ, A_POW, A_TRUNC, A_FN };

typedef std::vector<std::pair<u32, u32>> MonoV;   // (atom, exponent), atoms ascending
typedef u32 Mono;
typedef std::vector<std::pair<Mono, mpq_class>> Poly;  // sorted by mono id

struct Atom {
  AK kind;
  std::string name;
  double lo, hi;
  Poly a, b;        // arguments / definition
  std::string fname;
};
std::deque<Atom> atoms;

struct MV {
  size_t operator()(const MonoV& v) const {
    size_t h = 1469598103934665603ull;
    for (auto& p : v) { h = (h ^ p.first) * 1099511628211ull; h = (h ^ p.second) * 1099511628211ull; }
    return h;
  }
};
std::deque<MonoV> monos;
std::unordered_map<MonoV, u32, MV> mono_ix;
Mono mono_of(const MonoV& v) {
  auto it = mono_ix.find(v);
  if (it != mono_ix.end()) return it->second;
  u32 id = monos.size();
  monos.push_back(v);
  mono_ix.emplace(v, id);
  return id;
}
// pure lex, newer atoms larger
bool lex_less(const MonoV& a, const MonoV& b) {
  size_t i = a.size(), j = b.size();
  while (i && j) {
    auto& x = a[i - 1];
    auto& y = b[j - 1];
    if (x.first != y.first) return x.first < y.first;
    if (x.second != y.second) return x.second < y.second;
    --i; --j;
  }
  return i == 0 && j != 0;
}
MonoV mmul(const MonoV& a, const MonoV& b) {
  MonoV r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, a[i].second + b[j].second}); ++i; ++j; }
  }
  return r;
}
// does b divide a?  quotient in q
bool mdiv(const MonoV& a, const MonoV& b, MonoV* q) {
  if (q) q->clear();
  size_t j = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    if (j < b.size() && b[j].first < a[i].first) return false;
    if (j < b.size() && b[j].first == a[i].first) {
      if (a[i].second < b[j].second) return false;
      if (q && a[i].second > b[j].second) q->push_back({a[i].first, a[i].second - b[j].second});
      ++j;
    } else if (q) q->push_back(a[i]);
  }
  return j == b.size();
}

struct Rule { MonoV lead; Poly rep; };
std::map<u32, std::vector<Rule>> rules;  // keyed by the newest atom of lead
bool has_rules = false;

Poly pconst(const mpq_class& c) {
  Poly p;
  if (c != 0) p.push_back({0, c});
  return p;
}
Poly padd(const Poly& a, const Poly& b, int sg = 1) {
  Poly r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j].first < a[i].first) {
      r.push_back(b[j++]);
      if (sg < 0) r.back().second = -r.back().second;
    } else {
      mpq_class c = a[i].second;
      if (sg > 0) c += b[j].second; else c -= b[j].second;
      if (c != 0) r.push_back({a[i].first, c});
      ++i; ++j;
    }
  }
  return r;
}
Poly pscale(const Poly& a, const mpq_class& c) {
  Poly r;
  if (c == 0) return r;
  r = a;
  for (auto& t : r) t.second *= c;
  return r;
}
Poly pmul(const Poly& a, const Poly& b);

typedef std::unordered_map<Mono, mpq_class> Acc;
void acc_poly(Acc& acc, const Poly& p, const mpq_class& c) {
  for (auto& t : p) acc[t.first] += t.second * c;
}
Poly acc_done(Acc& acc) {
  Poly r;
  for (auto& t : acc) if (t.second != 0) r.push_back({t.first, t.second});
  std::sort(r.begin(), r.end(), [](auto& x, auto& y) { return x.first < y.first; });
  return r;
}
const Rule* find_rule(const MonoV& m, MonoV* q) {
  if (!has_rules) return nullptr;
  for (auto& f : m) {
    auto it = rules.find(f.first);
    if (it == rules.end()) continue;
    for (auto& r : it->second)
      if (mdiv(m, r.lead, q)) return &r;
  }
  return nullptr;
}
std::unordered_map<Mono, Poly> reduce_memo;
const Poly* reduce_mono(Mono id) {  // nullptr if irreducible
  auto it = reduce_memo.find(id);
  if (it != reduce_memo.end()) return &it->second;
  MonoV q;
  MonoV mv = monos[id];
  const Rule* r = find_rule(mv, &q);
  if (!r) return nullptr;
  Poly pq;
  pq.push_back({mono_of(q), 1});
  Poly res = pmul(pq, r->rep);
  return &(reduce_memo[id] = res);
}
Poly pmul(const Poly& a, const Poly& b) {
  if (a.size() == 1 && a[0].first == 0) return pscale(b, a[0].second);
  if (b.size() == 1 && b[0].first == 0) return pscale(a, b[0].second);
  Acc acc;
  for (auto& x : a)
    for (auto& y : b) {
      Mono m = x.first == 0 ? y.first : y.first == 0 ? x.first : mono_of(mmul(monos[x.first], monos[y.first]));
      mpq_class c = x.second * y.second;
      const Poly* red = (x.first && y.first) ? reduce_mono(m) : nullptr;
      if (red) acc_poly(acc, Poly(*red), c);
      else acc[m] += c;
    }
  return acc_done(acc);
}
std::string pkey(const Poly& p) {
  std::string s;
  for (auto& t : p) { s += std::to_string(t.first); s += ':'; s += t.second.get_str(36); s += ';'; }
  return s;
}
bool pisconst(const Poly& p, mpq_class* c = nullptr) {
  if (p.empty()) { if (c) *c = 0; return true; }
  if (p.size() == 1 && p[0].first == 0) { if (c) *c = p[0].second; return true; }
  return false;
}

// ------------------------------------------------------------ values
struct Value {
  Poly p;
  double lo, hi;   // of the exact value
  double err;      // |ieee - exact| <= err
  bool ideal;      // err could not be bounded: exact-arithmetic claim only
  bool nn = false; // the ieee value is known not to be negative
};
std::deque<Value> vals;

// interval helpers (outward)
void imul(double al, double ah, double bl, double bh, double& l, double& h) {
  double c[4] = {al * bl, al * bh, ah * bl, ah * bh};
  for (double& x : c) if (std::isnan(x)) x = 0;
  l = dn(std::min(std::min(c[0], c[1]), std::min(c[2], c[3])));
  h = up(std::max(std::max(c[0], c[1]), std::max(c[2], c[3])));
  if ((al == 0 && ah == 0) || (bl == 0 && bh == 0)) l = h = 0;
  if (al >= 0 && bl >= 0 && l < 0) l = 0;
}
void ipow(double l, double h, unsigned e, double& rl, double& rh) {
  rl = 1; rh = 1;
  for (unsigned i = 0; i < e; ++i) { double a, b; imul(rl, rh, l, h, a, b); rl = a; rh = b; }
  if (e % 2 == 0 && e) {
    if (rl < 0) rl = 0;
    double m = std::max(std::fabs(l), std::fabs(h));
    double b = 1;
    for (unsigned i = 0; i < e; ++i) b = up(b * m);
    rh = std::min(rh, b);
    if (l > 0 || h < 0) {
      double mi = std::min(std::fabs(l), std::fabs(h)), c = 1;
      for (unsigned i = 0; i < e; ++i) c = dn(c * mi);
      rl = std::max(rl, c);
    }
  }
}
void qbounds(const mpq_class& c, double& l, double& h) {
  double d = c.get_d();
  l = dn(d); h = up(d);
  if (mpq_class(d) == c) l = h = d;
}
void poly_bounds(const Poly& p, double& l, double& h) {
  l = 0; h = 0;
  for (auto& t : p) {
    double ml = 1, mh = 1;
    for (auto& f : monos[t.first]) {
      double a, b, c, d;
      ipow(atoms[f.first].lo, atoms[f.first].hi, f.second, a, b);
      imul(ml, mh, a, b, c, d);
      ml = c; mh = d;
    }
    double cl, ch, a, b;
    qbounds(t.second, cl, ch);
    if (t.first == 0) { a = cl; b = ch; } else imul(ml, mh, cl, ch, a, b);
    l = l == 0 ? a : dn(l + a);
    h = h == 0 ? b : up(h + b);
  }
}
double mag(const Value& v) { return std::max(std::fabs(v.lo), std::fabs(v.hi)); }

// ------------------------------------------------------------ model
std::vector<double> model;     // per atom
bool model_ok = true;
double eval_poly(const Poly& p);
double atom_value(u32 id) {
  while (model.size() <= id) {
    u32 k = model.size();
    Atom& a = atoms[k];
    double v = 0;
    switch (a.kind) {
      case A_INPUT: {
        double lo = std::isinf(a.lo) ? -1e3 : a.lo, hi = std::isinf(a.hi) ? 1e3 : a.hi;
        static const double frac[] = {0.6180339887, 0.4142135623, 0.7320508075, 0.2360679775, 0.8284271247, 0.1415926535, 0.5772156649, 0.3010299957};
        v = lo + frac[k % 8] * (hi - lo);
        break;
      }
      default: v = 0;
    }
    model.push_back(v);
    if (a.kind != A_INPUT) {
      double x = a.kind == A_INPUT ? 0 : eval_poly(a.a);
      switch (a.kind) {
        case A_INV: v = 1.0 / x; break;
        case A_SQRT: v = std::sqrt(std::max(0.0, x)); break;
        case A_EXP: v = std::exp(x); break;
        case A_LOG: v = std::log(x); break;
        case A_SIN: v = std::sin(x); break;
        case A_COS: v = std::cos(x); break;
        case A_ATAN2: v = std::atan2(x, eval_poly(a.b)); break;
        case A_ASIN: v = std::asin(std::max(-1.0, std::min(1.0, x))); break;
        case A_ACOS: v = std::acos(std::max(-1.0, std::min(1.0, x))); break;
        case A_ABS: v = std::fabs(x); break;
        case A_MIN: v = std::min(x, eval_poly(a.b)); break;
        case A_MAX: v = std::max(x, eval_poly(a.b)); break;
        case A_OPQ: v = x; break;
        case A_POW: v = std::pow(x, eval_poly(a.b)); break;
        case A_TRUNC: v = std::trunc(x); break;
        default: v = 0;
      }
      model[k] = v;
    }
  }
  return model[id];
}
double eval_poly(const Poly& p) {
  long double s = 0;
  for (auto& t : p) {
    long double m = t.second.get_d();
    for (auto& f : monos[t.first]) {
      double v = atom_value(f.first);
      for (u32 i = 0; i < f.second; ++i) m *= v;
    }
    s += m;
  }
  return (double)s;
}
// magnitude of the terms, for a numerical slack
double eval_abs(const Poly& p) {
  double s = 0;
  for (auto& t : p) {
    double m = std::fabs(t.second.get_d());
    for (auto& f : monos[t.first]) {
      double v = std::fabs(atom_value(f.first));
      for (u32 i = 0; i < f.second; ++i) m *= v;
    }
    s += m;
  }
  return s;
}

// ------------------------------------------------------------ constraints
enum Rel { R_LT, R_LE, R_EQ, R_NE, R_GE, R_GT };
struct Con { Poly p; Rel r; Poly x, y; double k = 0; };  // p r 0; when x,y are set: (x - y) r k, printed unsimplified
typedef std::vector<Con> Clause;        // disjunction
std::vector<Clause> pc;

bool holds(const Con& c, double slack_rel = 1e-9) {
  double v = eval_poly(c.p), s = slack_rel * (eval_abs(c.p) + 1e-300);
  switch (c.r) {
    case R_LT: return v < s;
    case R_LE: return v <= s;
    case R_EQ: return std::fabs(v) <= s;
    case R_NE: return true;
    case R_GE: return v >= -s;
    case R_GT: return v > -s;
  }
  return false;
}

void atoms_of(const Poly& p, std::set<u32>& out) {
  for (auto& t : p) for (auto& f : monos[t.first]) out.insert(f.first);
}

std::string qstr(const mpq_class& c) {
  mpq_class a = c < 0 ? mpq_class(-c) : c;
  std::string s = a.get_den() == 1 ? a.get_num().get_str() + ".0"
                                   : "(/ " + a.get_num().get_str() + ".0 " + a.get_den().get_str() + ".0)";
  return c < 0 ? "(- " + s + ")" : s;
}
std::string aname(u32 id) { return "a" + std::to_string(id); }
// while set, every nonlinear monomial is written as one fresh variable
std::map<Mono, std::pair<double, double>>* relax = nullptr;
std::string pstr(const Poly& p) {
  if (p.empty()) return "0.0";
  std::string s;
  for (auto& t : p) {
    std::string m;
    int nf = 0;
    if (relax && t.first != 0 && (monos[t.first].size() > 1 || monos[t.first][0].second > 1)) {
      double l, h;
      poly_bounds(Poly{{t.first, mpq_class(1)}}, l, h);
      (*relax)[t.first] = {l, h};
      s += " (* " + qstr(t.second) + " m" + std::to_string(t.first) + ")";
      continue;
    }
    for (auto& f : monos[t.first])
      for (u32 i = 0; i < f.second; ++i) { m += " " + aname(f.first); ++nf; }
    std::string term;
    if (!nf) term = qstr(t.second);
    else if (t.second == 1) term = nf == 1 ? m.substr(1) : "(*" + m + ")";
    else term = "(* " + qstr(t.second) + m + ")";
    s += " " + term;
  }
  return p.size() == 1 ? s.substr(1) : "(+" + s + ")";
}
std::string cstr(const Con& c) {
  if (!c.x.empty() || !c.y.empty()) {
    std::string l = "(- " + pstr(c.x) + " " + pstr(c.y) + ")", r = qstr(mpq_class(c.k));
    return c.r == R_GT ? "(> " + l + " " + r + ")" : "(< " + l + " " + r + ")";
  }
  // split off the constant
  Poly q; mpq_class k = 0;
  for (auto& t : c.p) if (t.first == 0) k = t.second; else q.push_back(t);
  mpq_class nk = -k;
  std::string l = pstr(q), r = qstr(nk);
  switch (c.r) {
    case R_LT: return "(< " + l + " " + r + ")";
    case R_LE: return "(<= " + l + " " + r + ")";
    case R_EQ: return "(= " + l + " " + r + ")";
    case R_NE: return "(not (= " + l + " " + r + "))";
    case R_GE: return "(>= " + l + " " + r + ")";
    case R_GT: return "(> " + l + " " + r + ")";
  }
  return "true";
}
std::string clstr(const Clause& c) {
  if (c.size() == 1) return cstr(c[0]);
  std::string s = "(or";
  for (auto& x : c) s += " " + cstr(x);
  return s + ")";
}
bool linear(const Poly& p) {
  for (auto& t : p) {
    u32 d = 0;
    for (auto& f : monos[t.first]) d += f.second;
    if (d > 1) return false;
  }
  return true;
}

// ------------------------------------------------------------ solver processes
struct Proc { pid_t pid = -1; int fd = -1; std::string out; bool done = false, remote = false, head = false; };
// a z3-new query goes to the server (same library, loaded once); false: run the program
sockaddr_un srv_addr{};
socklen_t srv_len = 0;
void start_server(const std::string& prog, const std::string& lib) {
  if (prog.empty() || lib.empty()) return;
  int ls = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (ls < 0) return;
  srv_addr.sun_family = AF_UNIX;
  int n = snprintf(srv_addr.sun_path + 1, sizeof srv_addr.sun_path - 1, "sym-z3-%d-%ld", (int)getpid(), (long)(now_s() * 1e6));
  srv_len = offsetof(sockaddr_un, sun_path) + 1 + n;
  int pp[2];
  if (bind(ls, (sockaddr*)&srv_addr, srv_len) || listen(ls, 256) || pipe2(pp, O_CLOEXEC)) { srv_len = 0; return; }
  // the write end stays open in every process of the exploration
  pid_t c = fork();
  if (c == 0) {
    dup2(ls, 70);
    dup2(pp[0], 71);
    execl(prog.c_str(), "z3srv", lib.c_str(), "70", "71", (char*)nullptr);
    _exit(127);
  }
  close(ls);
  close(pp[0]);
  if (c < 0) srv_len = 0;
}
bool ask_server(const std::vector<std::string>& av, const std::string& text, int ms, Proc& pr) {
  if (!srv_len || av[0] != "z3-new") return false;
  int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (fd < 0) return false;
  if (connect(fd, (sockaddr*)&srv_addr, srv_len)) { close(fd); return false; }
  std::string m = std::to_string(ms) + " 4000 " + std::to_string(text.size()) + "\n" + text;
  size_t o = 0;
  while (o < m.size()) {
    ssize_t r = send(fd, m.data() + o, m.size() - o, MSG_NOSIGNAL);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) { close(fd); return false; }
    o += r;
  }
  pr.fd = fd;
  pr.remote = true;
  return true;
}
bool spawn_solver(const std::vector<std::string>& av, const std::string& text, Proc& pr) {
  int in[2], out[2];
  int mfd = memfd_create("q", MFD_CLOEXEC);
  if (mfd < 0) return false;
  size_t o = 0;
  while (o < text.size()) {
    ssize_t r = write(mfd, text.data() + o, text.size() - o);
    if (r <= 0) break;
    o += r;
  }
  lseek(mfd, 0, SEEK_SET);
  if (pipe2(out, O_CLOEXEC)) { close(mfd); return false; }
  (void)in;
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_adddup2(&fa, mfd, 0);
  posix_spawn_file_actions_adddup2(&fa, out[1], 1);
  posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  posix_spawnattr_t at;
  posix_spawnattr_init(&at);
  sigset_t none; sigemptyset(&none);
  posix_spawnattr_setsigmask(&at, &none);
  sigset_t all; sigfillset(&all);
  posix_spawnattr_setsigdefault(&at, &all);
  posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGMASK | POSIX_SPAWN_SETSIGDEF);
  std::vector<char*> argv;
  for (auto& s : av) argv.push_back(const_cast<char*>(s.c_str()));
  argv.push_back(nullptr);
  int rc = posix_spawnp(&pr.pid, argv[0], &fa, &at, argv.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  posix_spawnattr_destroy(&at);
  close(mfd);
  close(out[1]);
  if (rc) { close(out[0]); pr.pid = -1; return false; }
  pr.fd = out[0];
  return true;
}
void kill_proc(Proc& p) {
  if (p.remote) { if (p.pid > 0 && !p.done) kill(p.pid, SIGKILL); }
  else if (p.pid > 0) { kill(p.pid, SIGKILL); int st; while (waitpid(p.pid, &st, 0) < 0 && errno == EINTR) {} }
  if (p.fd >= 0) close(p.fd);
  p.pid = -1; p.fd = -1;
}
int verdict(const std::string& o) {
  if (o.find("(error") != std::string::npos) {
    // get-value after unsat is an expected error; anything before the verdict is not
    size_t e = o.find("(error");
    size_t v = o.find("unsat");
    if (v == std::string::npos || e < v) return -1;
  }
  if (o.compare(0, 5, "unsat") == 0) return 0;
  if (o.compare(0, 3, "sat") == 0) return 1;
  return -1;
}
// runs the given solvers concurrently; first decisive answer wins
int run_solvers(const std::vector<std::pair<std::vector<std::string>, std::string>>& jobs, int ms, std::string& out, std::string& who) {
  std::vector<Proc> ps(jobs.size());
  for (size_t i = 0; i < jobs.size(); ++i)
    if (!ask_server(jobs[i].first, jobs[i].second, ms, ps[i]) && !spawn_solver(jobs[i].first, jobs[i].second, ps[i])) ps[i].done = true;
  double end = now_s() + ms / 1000.0;
  int res = -1;
  while (res < 0) {
    std::vector<pollfd> pf;
    std::vector<size_t> ix;
    for (size_t i = 0; i < ps.size(); ++i)
      if (!ps[i].done) { pf.push_back({ps[i].fd, POLLIN, 0}); ix.push_back(i); }
    if (pf.empty()) break;
    double left = end - now_s();
    if (left <= 0) break;
    int r = poll(pf.data(), pf.size(), (int)(left * 1000) + 1);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) continue;
    for (size_t k = 0; k < pf.size(); ++k)
      if (pf[k].revents) {
        char buf[65536];
        ssize_t n = read(pf[k].fd, buf, sizeof buf);
        Proc& p = ps[ix[k]];
        if (n < 0 && errno == EINTR) continue;
        if (n > 0) {
          p.out.append(buf, n);
          size_t e;
          if (p.remote && !p.head && (e = p.out.find('\n')) != std::string::npos) {  // the first line names the process
            p.pid = atoi(p.out.c_str());
            p.out.erase(0, e + 1);
            p.head = true;
          }
        } else {
          p.done = true;
          int v = verdict(p.out);
          if (v >= 0 && res < 0) { res = v; out = p.out; who = jobs[ix[k]].first[0]; }
        }
      }
  }
  for (auto& p : ps) kill_proc(p);
  return res;
}

double parse_num(const std::string& s, size_t& i);
double parse_expr(const std::string& s, size_t& i) {
  while (i < s.size() && isspace((unsigned char)s[i])) ++i;
  if (s[i] == '(') {
    ++i;
    while (isspace((unsigned char)s[i])) ++i;
    std::string op;
    while (i < s.size() && !isspace((unsigned char)s[i]) && s[i] != ')') op += s[i++];
    std::vector<double> a;
    while (true) {
      while (i < s.size() && isspace((unsigned char)s[i])) ++i;
      if (i >= s.size() || s[i] == ')') { ++i; break; }
      a.push_back(parse_expr(s, i));
    }
    if (op == "-" && a.size() == 1) return -a[0];
    if (op == "-" && a.size() == 2) return a[0] - a[1];
    if (op == "/" && a.size() == 2) return a[0] / a[1];
    return QNAN;
  }
  return parse_num(s, i);
}
double parse_num(const std::string& s, size_t& i) {
  std::string t;
  while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '.' || s[i] == '?' || s[i] == '_')) t += s[i++];
  if (!t.empty() && t.back() == '?') t.pop_back();
  if (t.empty()) { ++i; return QNAN; }
  // big rationals: num and den may overflow a double individually; use mpq when long
  if (t.size() > 300) { mpf_class f(t); return f.get_d(); }
  return strtod(t.c_str(), nullptr);
}
// rational with huge parts
void parse_model(const std::string& o, std::map<u32, double>& m) {
  size_t i = o.find('(');
  if (i == std::string::npos) return;
  ++i;
  while (i < o.size()) {
    while (i < o.size() && isspace((unsigned char)o[i])) ++i;
    if (i >= o.size() || o[i] != '(') break;
    ++i;
    while (i < o.size() && isspace((unsigned char)o[i])) ++i;
    std::string n;
    while (i < o.size() && !isspace((unsigned char)o[i])) n += o[i++];
    double v = parse_expr(o, i);
    while (i < o.size() && o[i] != ')') ++i;
    ++i;
    if (n.size() > 1 && n[0] == 'a') m[(u32)strtoul(n.c_str() + 1, nullptr, 10)] = v;
  }
}

// definitional facts of an atom (true for every input)
void atom_defs(u32 id, std::vector<std::string>& out) {
  Atom& a = atoms[id];
  std::string n = aname(id);
  auto bound = [&]() {
    if (!std::isinf(a.lo)) out.push_back("(>= " + n + " " + qstr(mpq_class(a.lo)) + ")");
    if (!std::isinf(a.hi)) out.push_back("(<= " + n + " " + qstr(mpq_class(a.hi)) + ")");
  };
  bound();
  switch (a.kind) {
    case A_INPUT: break;
    case A_INV: out.push_back("(= (* " + n + " " + pstr(a.a) + ") 1.0)"); break;
    case A_SQRT:
      out.push_back("(>= " + n + " 0.0)");
      out.push_back("(= (* " + n + " " + n + ") " + pstr(a.a) + ")");
      break;
    case A_EXP: {
      out.push_back("(> " + n + " 0.0)");
      std::string x = pstr(a.a);
      out.push_back("(>= " + n + " (+ 1.0 " + x + "))");
      out.push_back("(or (> " + x + " 0.0) (<= " + n + " 1.0))");
      break;
    }
    case A_ABS: {
      std::string x = pstr(a.a);
      out.push_back("(>= " + n + " " + x + ")");
      out.push_back("(>= " + n + " (- " + x + "))");
      out.push_back("(or (= " + n + " " + x + ") (= " + n + " (- " + x + ")))");
      break;
    }
    case A_MIN: case A_MAX: {
      std::string x = pstr(a.a), y = pstr(a.b), r = a.kind == A_MIN ? "<= " : ">= ";
      out.push_back("(" + r + n + " " + x + ")");
      out.push_back("(" + r + n + " " + y + ")");
      out.push_back("(or (= " + n + " " + x + ") (= " + n + " " + y + "))");
      break;
    }
    case A_OPQ: out.push_back("(= " + n + " " + pstr(a.a) + ")"); break;
    case A_TRUNC: {
      std::string x = pstr(a.a);
      out.push_back("(or (and (>= " + x + " 0.0) (<= " + n + " " + x + ") (> " + n + " (- " + x + " 1.0))) (and (< " + x + " 0.0) (>= " + n + " " + x + ") (< " + n + " (+ " + x + " 1.0))))");
      break;
    }
    case A_ATAN2: {  // angle of (x=b, y=a)
      std::string y = pstr(a.a), x = pstr(a.b);
      out.push_back("(or (<= " + y + " 0.0) (> " + n + " 0.0))");
      out.push_back("(or (>= " + y + " 0.0) (< " + n + " 0.0))");
      break;
    }
    default: break;
  }
}
std::vector<std::string> lemmas_global;
struct Lemma { u32 atom; std::string text; };
std::vector<Lemma> lemmas;

// closure of the constraints that share atoms with the goal
struct Query {
  std::set<u32> as;
  std::vector<const Clause*> cons;
  std::vector<Clause> goal;
  bool lin = true;
  bool trans = false;
};
void close_atoms(std::set<u32>& s) {
  std::vector<u32> w(s.begin(), s.end());
  while (!w.empty()) {
    u32 x = w.back(); w.pop_back();
    std::set<u32> t;
    atoms_of(atoms[x].a, t);
    atoms_of(atoms[x].b, t);
    for (u32 y : t) if (s.insert(y).second) w.push_back(y);
  }
}
std::unordered_map<std::string, std::pair<u32, u32>> trig;  // arg key -> (sin, cos) +1
void build(Query& q) {
  for (auto& c : q.goal) for (auto& x : c) { atoms_of(x.p, q.as); atoms_of(x.x, q.as); atoms_of(x.y, q.as); }
  close_atoms(q.as);
  std::vector<std::set<u32>> cs(pc.size());
  std::vector<bool> used(pc.size(), false);
  for (size_t i = 0; i < pc.size(); ++i) {
    for (auto& x : pc[i]) atoms_of(x.p, cs[i]);
    close_atoms(cs[i]);
  }
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); ++i) {
      if (used[i]) continue;
      bool hit = false;
      for (u32 a : cs[i]) if (q.as.count(a)) { hit = true; break; }
      if (!hit) continue;
      used[i] = true; ch = true;
      q.as.insert(cs[i].begin(), cs[i].end());
      q.cons.push_back(&pc[i]);
    }
  }
  for (auto* c : q.cons) for (auto& x : *c) if (!linear(x.p)) q.lin = false;
  for (auto& c : q.goal) for (auto& x : c) if (!linear(x.p) || !linear(x.x) || !linear(x.y)) q.lin = false;
  for (u32 a : q.as) {
    AK k = atoms[a].kind;
    if (k == A_INV || k == A_SQRT) q.lin = false;
    if (k == A_EXP || k == A_LOG || k == A_SIN || k == A_COS || k == A_ATAN2 || k == A_ASIN || k == A_ACOS || k == A_POW || k == A_FN) q.trans = true;
    if (k != A_INPUT && !linear(atoms[a].a)) q.lin = false;
  }
}
std::string text(const Query& q, const char* check, bool cvc) {
  std::string s;
  if (cvc) s += "(set-logic QF_NRA)\n";
  else s += "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 40)\n";
  for (u32 a : q.as) s += "(declare-const " + aname(a) + " Real)\n";
  std::vector<std::string> d;
  for (u32 a : q.as) atom_defs(a, d);
  // monotonicity between exponentials; sin^2+cos^2=1
  std::vector<u32> ex;
  for (u32 a : q.as) if (atoms[a].kind == A_EXP || atoms[a].kind == A_LOG) ex.push_back(a);
  for (size_t i = 0; i < ex.size(); ++i)
    for (size_t j = i + 1; j < ex.size(); ++j) {
      if (atoms[ex[i]].kind != atoms[ex[j]].kind) continue;
      std::string x = pstr(atoms[ex[i]].a), y = pstr(atoms[ex[j]].a);
      std::string m = aname(ex[i]), n = aname(ex[j]);
      d.push_back("(or (>= " + x + " " + y + ") (< " + m + " " + n + "))");
      d.push_back("(or (<= " + x + " " + y + ") (> " + m + " " + n + "))");
      d.push_back("(or (not (= " + x + " " + y + ")) (= " + m + " " + n + "))");
    }
  for (auto& t : trig) {
    u32 si = t.second.first, co = t.second.second;
    if (si && co && q.as.count(si - 1) && q.as.count(co - 1))
      d.push_back("(= (+ (* " + aname(si - 1) + " " + aname(si - 1) + ") (* " + aname(co - 1) + " " + aname(co - 1) + ")) 1.0)");
  }
  for (auto& l : lemmas) if (q.as.count(l.atom)) d.push_back(l.text);
  for (auto& x : d) s += "(assert " + x + ")\n";
  for (auto* c : q.cons) s += "(assert " + clstr(*c) + ")\n";
  for (auto& c : q.goal) s += "(assert " + clstr(c) + ")\n";
  s += check;
  s += "\n";
  if (!q.as.empty()) {
    s += "(get-value (";
    for (u32 a : q.as) s += aname(a) + " ";
    s += "))\n";
  }
  return s;
}
// over-approximation in linear arithmetic: nonlinear monomials become variables
// that range over their interval, atoms keep only their bounds.  Unsat here
// implies unsat of the query itself.
std::string relaxed_text(const Query& q) {
  std::map<Mono, std::pair<double, double>> ms;
  relax = &ms;
  std::string body;
  for (auto* c : q.cons) body += "(assert " + clstr(*c) + ")\n";
  for (auto& c : q.goal) body += "(assert " + clstr(c) + ")\n";
  relax = nullptr;
  std::string s;
  auto bound = [&](const std::string& n, double l, double h) {
    s += "(declare-const " + n + " Real)\n";
    if (std::isfinite(l)) s += "(assert (>= " + n + " " + qstr(mpq_class(l)) + "))\n";
    if (std::isfinite(h)) s += "(assert (<= " + n + " " + qstr(mpq_class(h)) + "))\n";
  };
  for (u32 a : q.as) bound(aname(a), atoms[a].lo, atoms[a].hi);
  for (auto& m : ms) bound("m" + std::to_string(m.first), m.second.first, m.second.second);
  return s + body + "(check-sat)\n";
}
double q_time = 0;
long q_count = 0;

void hash128(const std::string& t, u64& a, u64& b) {
  a = 1469598103934665603ull; b = 0x9E3779B97F4A7C15ull;
  for (unsigned char c : t) { a = (a ^ c) * 1099511628211ull; b = (b + c) * 0xD6E8FEB86659FD93ull; b ^= b >> 32; }
  if (!a) a = 1;
  if (!b) b = 1;
}
bool known_unsat(u64 a, u64 b) {
  for (int i = 0; i < 8; ++i) {
    auto& e = sh->seen[(a + i) & ((1 << 20) - 1)];
    u64 x = e.a.load();
    if (!x) return false;
    if (x == a && e.b.load() == b) return true;
  }
  return false;
}
void remember_unsat(u64 a, u64 b) {
  for (int i = 0; i < 8; ++i) {
    auto& e = sh->seen[(a + i) & ((1 << 20) - 1)];
    u64 x = 0;
    if (e.a.compare_exchange_strong(x, a)) { e.b = b; return; }
  }
}
// 0 unsat, 1 sat (model updated into m), -1 unknown
int solve_once(Query& q, const char* kind, std::map<u32, double>& m, bool hard) {
  double t0 = now_s();
  std::string out, who;
  int r;
  static const std::string Z = "z3-new";
  std::string t1 = text(q, q.lin ? "(check-sat)" : "(check-sat-using (or-else (try-for qfnra-nlsat 8000) smt))", false);
  u64 ha, hb;
  hash128(t1, ha, hb);
  if (known_unsat(ha, hb)) {
    sh->queries++;
    logline(std::string("{\"t\":\"q\",\"k\":\"") + kind + "\",\"r\":0,\"s\":0,\"lin\":" + (q.lin ? "1" : "0") + ",\"n\":" + std::to_string(q.as.size()) + ",\"by\":\"same query as before\"}");
    return 0;
  }
  r = -1;
  bool relaxed_timeout = false;
  if (!q.lin && kind[0] == 'a') {
    r = run_solvers({{{Z, "-in", "-memory:3000"}, relaxed_text(q)}}, 3000, out, who);
    relaxed_timeout = r < 0;
    if (r != 0) r = -1;
    who = "z3-new (linear relaxation)";
  }
  if (r < 0) r = run_solvers({{{Z, "-in", "-memory:3000"}, t1}}, q.lin ? cfg.q_ms : std::min(cfg.q_ms, 4000), out, who);
  if (r < 0 && hard && relaxed_timeout) {  // a loaded machine: give the relaxation another chance
    r = run_solvers({{{Z, "-in", "-memory:3000"}, relaxed_text(q)}}, std::min(cfg.q2_ms, 30000), out, who);
    if (r != 0) r = -1;
    who = "z3-new (linear relaxation)";
  }
  if (r < 0 && hard) {
    std::string t2 = text(q, "(check-sat)", false), t3 = text(q, "(check-sat-using qfnra-nlsat)", false), t4 = text(q, "(check-sat)", true);
    std::string t5 = text(q, "(check-sat-using (then simplify propagate-values solve-eqs simplify qfnra-nlsat))", false);
    r = run_solvers({{{Z, "-in", "-memory:4000"}, t2}, {{Z, "-in", "-memory:4000"}, t3}, {{"z3", "-in", "-memory:4000"}, t5}, {{"cvc5", "--produce-models", "--nl-cov", "--lang=smt2"}, t4}}, cfg.q2_ms, out, who);
  }
  if (r == 1) parse_model(out, m);
  if (r == 0) remember_unsat(ha, hb);
  double dt = now_s() - t0;
  q_time += dt; ++q_count;
  sh->queries++;
  std::string cross;
  if (cfg.cross && r == 0 && kind[0] == 'a') {
    std::string o2, w2;
    int r2 = run_solvers({{{"cvc5", "--nl-cov", "--lang=smt2"}, text(q, "(check-sat)", true)}}, 10000, o2, w2);
    cross = r2 == 0 ? "agree" : r2 == 1 ? "DISAGREE" : "timeout";
  }
  if (!cfg.dump.empty() && kind[0] == 'a') {
    static int k = 0;
    std::string fn = cfg.dump + "/q" + std::to_string(getpid()) + "_" + std::to_string(k++) + ".smt2";
    FILE* f = fopen(fn.c_str(), "w");
    if (f) { std::string t = text(q, "(check-sat)", false); fwrite(t.data(), 1, t.size(), f); fclose(f); }
  }
  char b[256];
  snprintf(b, sizeof b, "{\"t\":\"q\",\"k\":\"%s\",\"r\":%d,\"s\":%.4f,\"lin\":%d,\"n\":%zu,\"by\":\"%s\"%s%s%s}", kind, r, dt, (int)q.lin,
           q.as.size(), who.c_str(), cross.empty() ? "" : ",\"x\":\"", cross.c_str(), cross.empty() ? "" : "\"");
  logline(b);
  return r;
}
std::string dstr(double v) { return qstr(mpq_class(v)); }
// valid facts around the model point for each transcendental atom
void refine(const Query& q) {
  for (u32 a : q.as) {
    Atom& A = atoms[a];
    std::string n = aname(a);
    double x = eval_poly(A.a);
    if (!std::isfinite(x)) continue;
    std::string X = pstr(A.a);
    if (A.kind == A_EXP) {
      double f = std::exp(x), fl = f * (1 - 1e-15), fh = f * (1 + 1e-15);
      std::string x0 = dstr(x);
      lemmas.push_back({a, "(or (> " + X + " " + x0 + ") (<= " + n + " " + dstr(fh) + "))"});
      lemmas.push_back({a, "(or (< " + X + " " + x0 + ") (>= " + n + " " + dstr(fl) + "))"});
      lemmas.push_back({a, "(or (< " + X + " " + x0 + ") (>= " + n + " (* " + dstr(fl) + " (+ 1.0 (- " + X + " " + x0 + ")))))"});
      lemmas.push_back({a, "(or (> " + X + " " + x0 + ") (< (+ 1.0 (- " + X + " " + x0 + ")) 0.0) (>= " + n + " (* " + dstr(fl) + " (+ 1.0 (- " + X + " " + x0 + ")))))"});
    } else if (A.kind == A_SIN || A.kind == A_COS) {
      double f = A.kind == A_SIN ? std::sin(x) : std::cos(x);
      std::string d = "(- " + X + " " + dstr(x) + ")";
      for (int s = 0; s < 2; ++s) {
        // |f(X)-f(x)| <= |X-x|
        lemmas.push_back({a, "(or (< " + d + " 0.0) (<= " + std::string(s ? "(- " + n + " " + dstr(f) + ")" : "(- " + dstr(f) + " " + n + ")") + " (+ " + d + " " + dstr(1e-15) + ")))"});
        lemmas.push_back({a, "(or (> " + d + " 0.0) (<= " + std::string(s ? "(- " + n + " " + dstr(f) + ")" : "(- " + dstr(f) + " " + n + ")") + " (- " + dstr(1e-15) + " " + d + ")))"});
      }
    }
  }
}
// decides PC and goal.  On sat the current model may be replaced (new_model).
int solve(const std::vector<Clause>& goal, const char* kind, std::vector<double>* new_model, bool* consistent, bool hard) {
  Query q;
  q.goal = goal;
  build(q);
  if (consistent) *consistent = false;
  std::vector<double> saved = model;
  size_t nl = lemmas.size();
  (void)nl;
  int r = -1;
  for (int round = 0; round < (q.trans ? 8 : 1); ++round) {
    std::map<u32, double> m;
    r = solve_once(q, kind, m, hard);
    if (r != 1) break;
    // candidate model: inputs from the solver (others keep their value), atoms recomputed
    std::vector<double> nm;
    atom_value(atoms.empty() ? 0 : (u32)atoms.size() - 1);
    std::vector<double> base = model;
    model.clear();
    for (u32 i = 0; i < atoms.size(); ++i) {
      auto it = m.find(i);
      if (atoms[i].kind == A_INPUT) {
        double v = it != m.end() && std::isfinite(it->second) ? it->second : (i < base.size() ? base[i] : 0);
        model.push_back(v);
      } else atom_value(i);
    }
    bool ok = true;
    for (auto* c : q.cons) {
      bool any = false;
      for (auto& x : *c) any = any || holds(x);
      if (!any) ok = false;
    }
    for (auto& c : goal) {
      bool any = false;
      for (auto& x : c) any = any || holds(x);
      if (!any) ok = false;
    }
    nm = model;
    if (consistent) *consistent = ok;
    if (new_model) *new_model = nm;
    if (ok || !q.trans) break;
    refine(q);
    model = base;
  }
  model = saved;
  return r;
}

// ------------------------------------------------------------ path control
struct InputRec { std::string name; int atom; long choice; };
std::vector<InputRec> inputs;
bool holds_token = false;
std::vector<pid_t> kids;
bool allow_abort = false;
bool ending = false;
long ideal_decisions = 0, band_decisions = 0;
bool root = true;
pid_t root_pid;

std::string inputs_json() {
  std::string s = "{";
  for (size_t i = 0; i < inputs.size(); ++i) {
    double v = inputs[i].atom >= 0 ? atom_value(inputs[i].atom) : (double)inputs[i].choice;
    if (inputs[i].atom >= 0) {
      if (v < atoms[inputs[i].atom].lo) v = atoms[inputs[i].atom].lo;
      if (v > atoms[inputs[i].atom].hi) v = atoms[inputs[i].atom].hi;
    }
    s += (i ? "," : "") + jstr(inputs[i].name) + ":" + num(v);
  }
  return s + "}";
}
void reap(pid_t p) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} 
  if (WIFSIGNALED(st)) logline("{\"t\":\"childsig\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}"); }
struct Obs { std::string id; Poly p; double e; };
std::vector<Obs> obs_list;
std::string obs_json();
[[noreturn]] void path_end(const char* how) {
  ending = true;
  itimerval off{};
  setitimer(ITIMER_REAL, &off, nullptr);  // the time limit is the path's own, not that of the paths it waits for
  sh->paths++;
  std::string s = "{\"t\":\"p\",\"how\":" + jstr(how) + ",\"ok\":" + std::to_string(model_ok) + ",\"ideal\":" + std::to_string(ideal_decisions) +
                  ",\"band\":" + std::to_string(band_decisions) + ",\"pc\":" + std::to_string(pc.size());
  s += ",\"in\":" + inputs_json();
  if (!obs_list.empty()) s += ",\"obs\":[" + obs_json() + "]";
  logline(s + "}");
  for (pid_t k : kids) reap(k);
  if (holds_token) sh->tokens++;
  sh->finished++;
  if (getpid() == root_pid) logline("{\"t\":\"done\",\"started\":" + std::to_string(sh->forks.load() + 1) + ",\"finished\":" + std::to_string(sh->finished.load()) + "}");
  _exit(0);
}
void limit_check() {
  if (sh->stop.load()) path_end("stopped");
  if (sh->paths.load() + sh->forks.load() > 4 * cfg.max_paths || sh->paths.load() > cfg.max_paths) {
    sh->stop = 1;
    logline("{\"t\":\"limit\",\"what\":\"paths\"}");
    path_end("stopped");
  }
  if (cfg.deadline && now_s() > cfg.deadline) {
    if (!sh->stop.exchange(1)) logline("{\"t\":\"limit\",\"what\":\"wall\"}");
    path_end("stopped");
  }
}
void arm_alarm() {
  itimerval it{};
  it.it_value.tv_sec = cfg.path_s;
  setitimer(ITIMER_REAL, &it, nullptr);
}
// returns true in the child
bool fork_path() {
  limit_check();
  static const bool bt = getenv("SYM_BT");  // debugging aid: where paths fork
  if (bt) { void* a[12]; int n = backtrace(a, 12); backtrace_symbols_fd(a + 1, n - 1, 2); write(2, "--\n", 3); }
  sh->forks++;
  bool tok = false;
  int t = sh->tokens.load();
  while (t > 0 && !sh->tokens.compare_exchange_weak(t, t - 1)) {}
  if (t > 0) tok = true;
  fflush(stdout);
  itimerval old{}, z{};
  setitimer(ITIMER_REAL, &z, &old);
  pid_t p = fork();
  if (p < 0) { logline("{\"t\":\"limit\",\"what\":\"fork\"}"); if (tok) sh->tokens++; arm_alarm(); return false; }
  if (p == 0) {
    root = false;
    kids.clear();
    holds_token = tok;
    q_time = 0; q_count = 0;
    arm_alarm();
    return true;
  }
  if (tok) kids.push_back(p); else reap(p);
  setitimer(ITIMER_REAL, &old, nullptr);
  limit_check();
  return false;
}

void on_crash(int sig) {
  static int more = 0;
  if (sig == SIGALRM && !ending && more < 3 && q_time > 0.5 * cfg.path_s * (more + 1)) { ++more; arm_alarm(); return; }  // the solver's time, not the code's
  if (ending) _exit(0);
  signal(sig, SIG_DFL);
  if (sig == SIGALRM) {
    logline("{\"t\":\"hang\",\"ok\":" + std::to_string(model_ok) + ",\"in\":" + inputs_json() + "}");
    path_end("hang");
  }
  if (sig == SIGABRT && allow_abort) path_end("abort-allowed");
  logline("{\"t\":\"v\",\"id\":\"crash-signal-" + std::to_string(sig) + "\",\"ok\":" + std::to_string(model_ok) + ",\"in\":" + inputs_json() + "}");
  sh->viol++;
  path_end("crash");
}

std::unordered_map<std::string, bool> decided;
mpq_class Q(double d) { return mpq_class(d); }
Poly plus_c(const Poly& p, double c) { return c == 0 ? p : padd(p, pconst(Q(c))); }

void add_pc(const Clause& c) { pc.push_back(c); }
// constraints for outcome `o` of (d rel 0) with |computed d - d| <= E
std::vector<Clause> outcome(const Poly& d, double E, Rel rel, bool o) {
  std::vector<Clause> r;
  switch (rel) {
    case R_LT: if (o) r.push_back({{plus_c(d, -E), R_LT}}); else r.push_back({{plus_c(d, E), R_GE}}); break;
    case R_LE: if (o) r.push_back({{plus_c(d, -E), R_LE}}); else r.push_back({{plus_c(d, E), R_GT}}); break;
    case R_EQ:
      if (o) {
        if (E == 0) r.push_back({{d, R_EQ}});
        else { r.push_back({{plus_c(d, -E), R_LE}}); r.push_back({{plus_c(d, E), R_GE}}); }
      } else if (E == 0) r.push_back({{d, R_NE}});
      break;
    default: break;
  }
  return r;
}
// interval-only answer: 1 true, 0 false, -1 unknown
int iv(double lo, double hi, double E, Rel rel) {
  switch (rel) {
    case R_LT: if (hi < -E) return 1; if (lo >= E && (E > 0 ? lo > E : true)) return 0; return -1;
    case R_LE: if (hi <= -E) return 1; if (lo > E) return 0; return -1;
    case R_EQ: if (lo > E || hi < -E) return 0; if (lo == 0 && hi == 0 && E == 0) return 1; return -1;
    default: return -1;
  }
}
bool take(const Poly& d, double E, Rel rel, bool other_first_unused = false) {
  (void)other_first_unused;
  // side suggested by the model
  std::vector<Clause> ct = outcome(d, E, rel, true), cf = outcome(d, E, rel, false);
  bool first;
  bool first_known = false;
  std::vector<double> mt, mf;
  int ft = -2, ff = -2;
  bool okt = false, okf = false;
  if (model_ok) {
    double v = eval_poly(d), s = 1e-9 * (eval_abs(d) + 1e-300);
    if (rel == R_EQ) { first = false; if (std::fabs(v) > s + E) { first_known = true; ff = 1; okf = true; mf = model; } }
    else {
      first = v < 0;
      if (std::fabs(v) > s + E) {
        first_known = true;
        if (first) { ft = 1; okt = true; mt = model; } else { ff = 1; okf = true; mf = model; }
      }
    }
  }
  (void)first; (void)first_known;
  if (ft == -2) ft = ct.empty() ? 1 : solve(ct, "b", &mt, &okt, false);
  if (ff == -2) ff = cf.empty() ? 1 : solve(cf, "b", &mf, &okf, false);
  if (ct.empty()) { mt = model; okt = model_ok; }
  if (cf.empty()) { mf = model; okf = model_ok; }
  bool fT = ft != 0, fF = ff != 0;
  if (!fT && !fF) path_end("infeasible");
  auto go = [&](bool o) {
    for (auto& c : (o ? ct : cf)) add_pc(c);
    auto& m = o ? mt : mf;
    bool ok = o ? (ft == 1 && okt) : (ff == 1 && okf);
    if (!m.empty()) model = m;
    model_ok = ok;
    return o;
  };
  if (fT && !fF) return go(true);
  if (!fT && fF) return go(false);
  bool child = fork_path();
  // the child takes the side the model does not suggest
  bool side = model_ok ? (okt && !okf ? true : okf && !okt ? false : eval_poly(d) < 0) : true;
  if (rel == R_EQ) side = false;
  return go(child ? !side : side);
}
bool decide(const Value& d, Rel rel, const std::string& key) {
  double E = d.err;
  if (d.ideal) E = 0;
  mpq_class c;
  if (pisconst(d.p, &c)) {
    double l, h;
    qbounds(c, l, h);
    int r = iv(l, h, E, rel);
    if (r >= 0) return r;
  }
  int r = iv(d.lo, d.hi, E, rel);
  if (r >= 0) return r;
  auto it = decided.find(key);
  if (it != decided.end()) return it->second;
  if (d.ideal) ++ideal_decisions;
  else if (E > 0) ++band_decisions;
  bool o = take(d.p, E, rel);
  decided[key] = o;
  return o;
}

// ------------------------------------------------------------ boxing
const u64 TAG = 0x7FFC000000000000ull, TMASK = 0xFFFF000000000000ull;
const u32 FTAG = 0x7FE00000u, FMASK = 0xFFE00000u;
u64 bits(double d) { u64 x; memcpy(&x, &d, 8); return x; }
u32 bits(float d) { u32 x; memcpy(&x, &d, 4); return x; }
double dbl(u64 x) { double d; memcpy(&d, &x, 8); return d; }
float flt(u32 x) { float d; memcpy(&d, &x, 4); return d; }
inline bool issym(double d) { return (bits(d) & TMASK) == TAG; }
inline bool issym(float d) { return (bits(d) & FMASK) == FTAG; }
u32 ixof(double d) { return (u32)bits(d); }
u32 ixof(float d) { return bits(d) & ~FMASK; }
[[noreturn]] void fatal(const std::string& s) {
  logline("{\"t\":\"fatal\",\"msg\":" + jstr(s) + "}");
  path_end("fatal");
}
template <typename F> F box(u32 ix);
template <> double box<double>(u32 ix) { return dbl(TAG | ix); }
template <> float box<float>(u32 ix) {
  if (ix > ~FMASK) fatal("too many float handles");
  return flt(FTAG | ix);
}
template <typename F> Value get(F x) {
  if (issym(x)) return vals[ixof(x)];
  Value v;
  v.lo = v.hi = (double)x;
  v.err = 0;
  v.ideal = false;
  v.nn = x >= 0;
  if (std::isfinite(x)) v.p = pconst(Q((double)x));
  return v;
}
std::unordered_map<std::string, u32> opq_ix;
u32 new_atom(AK k, const std::string& name, double lo, double hi, const Poly& a = Poly(), const Poly& b = Poly()) {
  Atom A;
  A.kind = k; A.name = name; A.lo = lo; A.hi = hi; A.a = a; A.b = b;
  atoms.push_back(A);
  return atoms.size() - 1;
}
Poly patom(u32 a) { Poly p; p.push_back({mono_of({{a, 1}}), 1}); return p; }
void trim(Value& v) {
  // keep coefficients short: rounding them is added to the error bound
  size_t mx = 0;
  for (auto& t : v.p) mx = std::max(mx, mpz_sizeinbase(t.second.get_num().get_mpz_t(), 2) + mpz_sizeinbase(t.second.get_den().get_mpz_t(), 2));
  if (mx > 900) {
    double total = 0;
    for (auto& t : v.p) {
      size_t b = mpz_sizeinbase(t.second.get_num().get_mpz_t(), 2) + mpz_sizeinbase(t.second.get_den().get_mpz_t(), 2);
      if (b <= 400) continue;
      mpf_class f(t.second, 256);
      mpq_class q(f);
      t.second = q;
      double ml = 1, mh = 1;
      for (auto& g : monos[t.first]) {
        double a, bb, c, d;
        ipow(atoms[g.first].lo, atoms[g.first].hi, g.second, a, bb);
        imul(ml, mh, a, bb, c, d);
        ml = c; mh = d;
      }
      total += std::max(std::fabs(ml), std::fabs(mh)) * std::fabs(q.get_d()) * 0x1p-200;
    }
    if (!(total < INF)) v.ideal = true; else v.err += total;
  }
  if (v.p.size() > 3000) {
    std::string k = pkey(v.p);
    auto it = opq_ix.find(k);
    u32 a;
    if (it == opq_ix.end()) { a = new_atom(A_OPQ, "opq", v.lo, v.hi, v.p); opq_ix[k] = a; } else a = it->second;
    v.p = patom(a);
  }
}
template <typename F> F put(Value v) {
  trim(v);
  if (v.p.size() <= 24) {
    double l, h;
    poly_bounds(v.p, l, h);
    if (l > v.lo) v.lo = l;
    if (h < v.hi) v.hi = h;
  }
  if (!(v.err < INF)) { v.err = 0; v.ideal = true; }
  mpq_class c;
  if (v.err == 0 && !v.ideal && pisconst(v.p, &c)) {
    F d = (F)c.get_d();
    if (mpq_class((double)d) == c) return d;
  }
  if (vals.size() > 200000000) fatal("too many values");
  vals.push_back(std::move(v));
  return box<F>(vals.size() - 1);
}
template <typename F> double ulp_() { return sizeof(F) == 8 ? U : UF; }

Value vadd(const Value& a, const Value& b, int sg, double u, bool exact) {
  Value r;
  r.p = padd(a.p, b.p, sg);
  double bl = sg > 0 ? b.lo : -b.hi, bh = sg > 0 ? b.hi : -b.lo;
  r.lo = dn(a.lo + bl);
  r.hi = up(a.hi + bh);
  if (std::isnan(r.lo)) r.lo = -INF;
  if (std::isnan(r.hi)) r.hi = INF;
  r.ideal = a.ideal || b.ideal;
  if (r.p.size() <= 24) {
    double l, h;
    poly_bounds(r.p, l, h);
    r.lo = std::max(r.lo, l); r.hi = std::min(r.hi, h);
  }
  double e = a.err + b.err;
  double m = std::max(std::fabs(r.lo), std::fabs(r.hi));
  r.err = exact ? e : e + u * (m + e) * 1.0000001;
  r.nn = sg > 0 && a.nn && b.nn;
  return r;
}
bool pow2(double c) { int e; return std::fabs(std::frexp(c, &e)) == 0.5; }

template <typename F> F op_add(F a, F b, int sg) {
  if (!issym(a) && !issym(b)) return sg > 0 ? a + b : a - b;
  if (!issym(a) && !std::isfinite(a)) return a;
  if (!issym(b) && !std::isfinite(b)) return sg > 0 ? b : -b;
  if (!issym(b) && b == 0) return a;
  Value va = get(a), vb = get(b);
  if (!issym(a) && a == 0) {
    if (sg > 0) return b;
    Value r = vb;
    r.p = pscale(vb.p, -1);
    r.lo = -vb.hi; r.hi = -vb.lo;
    r.nn = false;
    return put<F>(r);
  }
  if (issym(a) && issym(b) && sg < 0 && ixof(a) == ixof(b)) return 0;
  return put<F>(vadd(va, vb, sg, ulp_<F>(), false));
}
std::string hkey(const char* op, double a, double b) {
  char s[80];
  snprintf(s, sizeof s, "%s %llx %llx", op, (unsigned long long)bits(a), (unsigned long long)bits(b));
  return s;
}
std::string hkey(const char* op, float a, float b) {
  char s[80];
  snprintf(s, sizeof s, "f%s %x %x", op, bits(a), bits(b));
  return s;
}
// sign of a symbolic value: forks
template <typename F> int sgn(F a) {
  Value v = get(a);
  if (!v.nn && decide(v, R_LT, hkey("s<", a, (F)0))) return -1;
  if (decide(v, R_EQ, hkey("s=", a, (F)0))) return 0;
  return 1;
}
Value vmul(const Value& a, const Value& b, double u) {
  Value r;
  if (a.p.size() * b.p.size() > 200000) {
    // too large: name the larger factor
    Value x = a.p.size() > b.p.size() ? a : b, y = a.p.size() > b.p.size() ? b : a;
    std::string k = pkey(x.p);
    auto it = opq_ix.find(k);
    u32 id;
    if (it == opq_ix.end()) { id = new_atom(A_OPQ, "opq", x.lo, x.hi, x.p); opq_ix[k] = id; } else id = it->second;
    x.p = patom(id);
    return vmul(x, y, u);
  }
  r.p = pmul(a.p, b.p);
  imul(a.lo, a.hi, b.lo, b.hi, r.lo, r.hi);
  r.ideal = a.ideal || b.ideal;
  double ma = mag(a), mb = mag(b);
  double e = 0;
  if (a.err) e += a.err * mb;
  if (b.err) e += b.err * ma;
  if (a.err && b.err) e += a.err * b.err;
  if (std::isnan(e)) e = INF;
  double m = std::max(std::fabs(r.lo), std::fabs(r.hi));
  r.err = (e + u * (m + e)) * 1.0000001 + 5e-324;
  if (std::isnan(r.err)) r.err = INF;
  r.nn = a.nn && b.nn;
  return r;
}
template <typename F> F op_neg(F a) {
  if (!issym(a)) return -a;
  Value r = get(a);
  double l = r.lo;
  r.p = pscale(r.p, -1);
  r.lo = -r.hi; r.hi = -l;
  r.nn = false;
  return put<F>(r);
}
template <typename F> std::unordered_map<u32, F>& sq_of() { static std::unordered_map<u32, F> m; return m; }
template <typename F> F op_mul(F a, F b) {
  if (!issym(a) && !issym(b)) return a * b;
  if (!issym(a)) std::swap(a, b);
  // a symbolic
  if (!issym(b)) {
    if (std::isnan(b)) return b;
    if (std::isinf(b)) { int s = sgn(a); return s == 0 ? (F)QNAN : s > 0 ? b : -b; }
    if (b == 0) return 0;
    if (b == 1) return a;
    if (b == -1) return op_neg(a);
    Value va = get(a);
    if (pow2(b)) {
      Value r = va;
      r.p = pscale(va.p, Q(b));
      r.lo = va.lo * b; r.hi = va.hi * b;
      if (b < 0) std::swap(r.lo, r.hi);
      r.err = va.err * std::fabs(b);
      r.nn = va.nn && b > 0;
      return put<F>(r);
    }
  }
  Value r = vmul(get(a), get(b), ulp_<F>());
  if (issym(b) && ixof(a) == ixof(b)) {
    if (r.lo < 0) r.lo = 0;
    r.nn = true;
    F q = put<F>(r);
    if (issym(q)) sq_of<F>()[ixof(q)] = a;
    return q;
  }
  return put<F>(r);
}
std::unordered_map<std::string, u32> inv_ix, sqrt_ix, fn_ix;
void add_rule(u32 atom, const MonoV& lead, const Poly& rep) {
  has_rules = true;
  rules[atom].push_back({lead, rep});
}
// 1/den for a non-constant polynomial that is nonzero on this path
Poly pinv(const Poly& den, double lo, double hi) {
  if (den.size() == 1) {
    // c * product of atoms
    Poly r = pconst(1 / den[0].second);
    MonoV mv = monos[den[0].first];
    for (auto& f : mv) {
      if (atoms[f.first].kind == A_SQRT) {  // 1/s = s * (1/rad)
        Poly rad = atoms[f.first].a;
        double rl, rh;
        poly_bounds(rad, rl, rh);
        mpq_class cc;
        Poly one = pisconst(rad, &cc) ? pscale(patom(f.first), 1 / cc)
                                      : pmul(patom(f.first), pinv(rad, std::max(0.0, rl), rh));
        for (u32 i = 0; i < f.second; ++i) r = pmul(r, one);
        continue;
      }
      std::string k = "m" + std::to_string(f.first);
      auto it = inv_ix.find(k);
      u32 id;
      if (it == inv_ix.end()) {
        double l = atoms[f.first].lo, h = atoms[f.first].hi, il = -INF, ih = INF;
        if (l > 0) { il = dn(1 / h); ih = up(1 / l); if (std::isinf(h)) il = 0; }
        else if (h < 0) { il = dn(1 / h); ih = up(1 / l); }
        else if (l == 0) { il = std::isinf(h) ? 0 : dn(1 / h); }
        id = new_atom(A_INV, "inv", il, ih, patom(f.first));
        inv_ix[k] = id;
        add_rule(id, MonoV{{f.first, 1}, {id, 1}}, pconst(1));
      } else id = it->second;
      for (u32 i = 0; i < f.second; ++i) r = pmul(r, patom(id));
    }
    return r;
  }
  // normalise to a monic leading monomial
  size_t li = 0;
  for (size_t i = 1; i < den.size(); ++i)
    if (lex_less(monos[den[li].first], monos[den[i].first])) li = i;
  mpq_class lc = den[li].second;
  Poly d = pscale(den, 1 / lc);
  std::string k = pkey(d);
  auto it = inv_ix.find(k);
  u32 id;
  if (it == inv_ix.end()) {
    double c = lc.get_d();
    double l = lo / c, h = hi / c;
    if (l > h) std::swap(l, h);
    l = dn(l); h = up(h);
    double il = -INF, ih = INF;
    if (l > 0) { il = std::isinf(h) ? 0 : dn(1 / h); ih = up(1 / l); }
    else if (h < 0) { il = dn(1 / h); ih = std::isinf(l) ? 0 : up(1 / l); }
    else if (lo == 0 || hi == 0) { if (c > 0 ? lo == 0 : hi == 0) il = 0; else ih = 0; }
    id = new_atom(A_INV, "inv", il, ih, d);
    inv_ix[k] = id;
    MonoV lead = monos[d[li].first];
    MonoV lv = lead;
    lv.push_back({id, 1});
    // lead*J -> 1 - (d - lead)*J
    Poly rest = d;
    rest.erase(rest.begin() + li);
    Poly rep = padd(pconst(1), pmul(rest, patom(id)), -1);
    add_rule(id, lv, rep);
  } else id = it->second;
  return pscale(patom(id), 1 / lc);
}
template <typename F> F op_div(F a, F b) {
  if (!issym(a) && !issym(b)) return a / b;
  double u = ulp_<F>();
  if (!issym(b)) {
    if (std::isnan(b)) return b;
    if (std::isinf(b)) return 0;
    if (b == 1) return a;
    if (b == -1) return op_neg(a);
    if (b == 0) { int s = sgn(a); return s == 0 ? (F)QNAN : (s > 0) == !std::signbit(b) ? (F)INF : -(F)INF; }
    if (pow2(b) && std::isfinite(1 / b)) return op_mul(a, (F)(1 / b));
    Value va = get(a), r;
    r.p = pscale(va.p, 1 / Q(b));
    double l = va.lo / b, h = va.hi / b;
    if (b < 0) std::swap(l, h);
    r.lo = dn(l); r.hi = up(h);
    double e = va.err / std::fabs(b);
    r.err = (e + u * (std::max(std::fabs(r.lo), std::fabs(r.hi)) + e)) * 1.0000001 + 5e-324;
    r.ideal = va.ideal;
    r.nn = va.nn && b > 0;
    return put<F>(r);
  }
  if (!issym(a) && std::isnan(a)) return a;
  if (!issym(a) && std::isinf(a)) { int s = sgn(b); return s >= 0 ? a : -a; }
  Value vb = get(b);
  // a zero divisor is a path of its own
  {
    Value z = vb;
    if (z.err > 0 && !(z.lo > z.err || z.hi < -z.err)) { z.ideal = true; }
    if (decide(z, R_EQ, hkey("d0", b, b))) {
      if (!issym(a)) return a == 0 ? (F)QNAN : a > 0 ? (F)INF : -(F)INF;
      int s = sgn(a);
      return s == 0 ? (F)QNAN : s > 0 ? (F)INF : -(F)INF;
    }
  }
  Value va = get(a), r;
  if (issym(a) && ixof(a) == ixof(b)) return 1;
  mpq_class c;
  if (pisconst(vb.p, &c)) {
    r.p = c == 0 ? Poly() : pscale(va.p, 1 / c);
    if (c == 0) { fatal("division by a value that is exactly zero up to rounding"); }
  } else r.p = pmul(va.p, pinv(vb.p, vb.lo, vb.hi));
  double il = -INF, ih = INF;
  if (vb.lo > 0) { il = std::isinf(vb.hi) ? 0 : dn(1 / vb.hi); ih = up(1 / vb.lo); }
  else if (vb.hi < 0) { il = dn(1 / vb.hi); ih = std::isinf(vb.lo) ? 0 : up(1 / vb.lo); }
  else if (vb.lo == 0) il = 0;
  else if (vb.hi == 0) ih = 0;
  imul(va.lo, va.hi, il, ih, r.lo, r.hi);
  if ((vb.lo <= 0 && vb.hi >= 0) && !(va.lo == 0 && va.hi == 0)) {
    r.lo = (va.lo >= 0 && vb.lo >= 0) ? 0 : -INF;
    r.hi = INF;
  }
  r.ideal = va.ideal || vb.ideal;
  r.nn = va.nn && vb.nn;
  double bm = vb.lo > 0 ? vb.lo : vb.hi < 0 ? -vb.hi : 0;
  if (bm > vb.err) {
    double q = mag(r);
    double e = (va.err + q * vb.err) / (bm - vb.err);
    r.err = (e + u * (q + e)) * 1.0000001 + 5e-324;
    if (std::isnan(r.err)) r.err = INF;
  } else { r.err = 0; r.ideal = true; }
  return put<F>(r);
}
bool qsqrt(const mpq_class& c, mpq_class& r) {
  if (c < 0) return false;
  if (!mpz_perfect_square_p(c.get_num().get_mpz_t()) || !mpz_perfect_square_p(c.get_den().get_mpz_t())) return false;
  mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den());
  r = mpq_class(n, d);
  return true;
}
template <typename F> F op_fabs(F a);
template <typename F> F op_sqrt(F a) {
  if (!issym(a)) return std::sqrt(a);
  {  // sqrt(x*x) is |x| up to one rounding
    auto it = sq_of<F>().find(ixof(a));
    if (it != sq_of<F>().end()) {
      F m = op_fabs(it->second);
      if (!issym(m)) return m;
      Value r = get(m);
      r.err = (r.err + 3 * ulp_<F>() * (mag(r) + r.err)) * 1.0000001 + 1e-160;
      r.nn = true;
      return put<F>(r);
    }
  }
  Value v = get(a);
  if (v.nn && v.lo < 0) v.lo = 0;
  if (v.lo < 0) {
    Value z = v;
    if (decide(z, R_LT, hkey("s<", a, (F)0))) return (F)QNAN;
    if (v.lo < 0) v.lo = 0;
  }
  double u = ulp_<F>();
  Value r;
  r.nn = true;
  r.lo = std::max(0.0, dn(std::sqrt(v.lo)));
  r.hi = up(std::sqrt(v.hi));
  r.ideal = v.ideal;
  double e = v.err == 0 ? 0 : v.lo > v.err ? v.err / std::sqrt(v.lo - v.err) : std::sqrt(v.err) * 1.5;
  r.err = (e + u * (r.hi + e)) * 1.0000001;
  mpq_class c, s;
  if (pisconst(v.p, &c) && qsqrt(c, s)) { r.p = pconst(s); return put<F>(r); }
  if (v.p.size() == 1 && qsqrt(v.p[0].second, s)) {
    bool sq = true;
    MonoV h;
    for (auto& f : monos[v.p[0].first]) {
      if (f.second % 2) { sq = false; break; }
      h.push_back({f.first, f.second / 2});
    }
    if (sq) {
      Value x;
      x.p.push_back({mono_of(h), s});
      poly_bounds(x.p, x.lo, x.hi);
      x.err = r.err; x.ideal = r.ideal;
      F bx = put<F>(x);
      return op_fabs(bx);
    }
  }
  // pull out a rational scale so that proportional radicands share an atom
  std::string k = pkey(v.p);
  auto it = sqrt_ix.find(k);
  u32 id;
  if (it == sqrt_ix.end()) {
    id = new_atom(A_SQRT, "sqrt", r.lo, r.hi, v.p);
    sqrt_ix[k] = id;
    if (v.p.size() <= 64) add_rule(id, MonoV{{id, 2}}, v.p);
  } else id = it->second;
  r.p = patom(id);
  return put<F>(r);
}
template <typename F> F op_fabs(F a) {
  if (!issym(a)) return std::fabs(a);
  Value v = get(a);
  if (v.nn) return a;
  Value r = v;
  r.nn = true;
  if (v.lo >= 0) return put<F>(r);
  if (v.hi <= 0) { r.p = pscale(v.p, -1); r.lo = -v.hi; r.hi = -v.lo; return put<F>(r); }
  r.lo = 0;
  r.hi = mag(v);
  r.nn = true;
  // canonical sign
  Poly p = v.p;
  if (!p.empty() && p.back().second < 0) p = pscale(p, -1);
  std::string k = "abs" + pkey(p);
  auto it = fn_ix.find(k);
  u32 id;
  if (it == fn_ix.end()) {
    id = new_atom(A_ABS, "abs", 0, r.hi, p);
    fn_ix[k] = id;
    add_rule(id, MonoV{{id, 2}}, pmul(p, p));
  } else id = it->second;
  r.p = patom(id);
  return put<F>(r);
}
template <typename F> F op_minmax(F a, F b, bool mx) {
  if (!issym(a) && !issym(b)) return mx ? std::fmax(a, b) : std::fmin(a, b);
  Value va = get(a), vb = get(b);
  if (va.lo >= vb.hi) return mx ? a : b;
  if (vb.lo >= va.hi) return mx ? b : a;
  Value r;
  r.lo = mx ? std::max(va.lo, vb.lo) : std::min(va.lo, vb.lo);
  r.hi = mx ? std::max(va.hi, vb.hi) : std::min(va.hi, vb.hi);
  r.err = std::max(va.err, vb.err);
  r.ideal = va.ideal || vb.ideal;
  r.nn = mx ? va.nn || vb.nn : va.nn && vb.nn;
  r.p = patom(new_atom(mx ? A_MAX : A_MIN, mx ? "max" : "min", r.lo, r.hi, va.p, vb.p));
  return put<F>(r);
}
// keyed transcendental atom of one argument
u32 fn_atom(AK k, const char* nm, const Poly& p, double lo, double hi) {
  std::string key = std::string(nm) + pkey(p);
  auto it = fn_ix.find(key);
  if (it != fn_ix.end()) return it->second;
  u32 id = new_atom(k, nm, lo, hi, p);
  fn_ix[key] = id;
  return id;
}
// an atom of the same function whose argument differs only by rounded constants
bool near_atom(AK k, const Poly& p, u32& id, double& delta) {
  for (u32 a = 0; a < atoms.size(); ++a) {
    if (atoms[a].kind != k || atoms[a].a.size() > 64) continue;
    double l, h;
    poly_bounds(padd(p, atoms[a].a, -1), l, h);
    const double d = std::max(std::fabs(l), std::fabs(h));
    if (d < 1e-9) { id = a; delta = d * 1.0000001; return true; }
  }
  return false;
}
template <typename F> F op_exp(F a) {
  if (!issym(a)) return std::exp(a);
  Value v = get(a), r;
  double u = ulp_<F>();
  r.nn = true;
  r.lo = std::max(0.0, std::exp(v.lo) * (1 - 1e-15));
  r.hi = std::exp(v.hi) * (1 + 1e-15) + 5e-324;
  r.ideal = v.ideal;
  double e = r.hi * std::expm1(v.err);
  r.err = (e + 2 * u * (r.hi + e)) * 1.0000001;
  mpq_class c;
  if (pisconst(v.p, &c) && c == 0) r.p = pconst(1);
  else {
    u32 id;
    double d = 0;
    if (v.p.size() <= 64 && near_atom(A_EXP, v.p, id, d)) r.err += r.hi * std::expm1(d) * 1.0000001;
    else id = fn_atom(A_EXP, "exp", v.p, r.lo, r.hi);
    r.p = patom(id);
  }
  return put<F>(r);
}
template <typename F> F op_log(F a) {
  if (!issym(a)) return std::log(a);
  Value v = get(a), r;
  if (v.lo <= 0) {
    int s = sgn(a);
    if (s < 0) return (F)QNAN;
    if (s == 0) return -(F)INF;
    v.lo = std::max(0.0, v.lo);
  }
  double u = ulp_<F>();
  r.lo = v.lo > 0 ? std::log(v.lo) - 1e-15 - 1e-15 * std::fabs(std::log(v.lo)) : -INF;
  r.hi = std::log(v.hi) + 1e-15 + 1e-15 * std::fabs(std::log(v.hi));
  r.ideal = v.ideal;
  if (v.lo > v.err) { double e = v.err / (v.lo - v.err); r.err = e + 2 * u * (mag(r) + e); }
  else { r.err = 0; r.ideal = true; }
  r.p = patom(fn_atom(A_LOG, "log", v.p, r.lo, r.hi));
  return put<F>(r);
}
bool single_atom(const Poly& p, u32& id) {
  if (p.size() != 1 || p[0].second != 1) return false;
  auto& m = monos[p[0].first];
  if (m.size() != 1 || m[0].second != 1) return false;
  id = m[0].first;
  return true;
}
template <typename F> F op_sincos(F a, bool isin) {
  if (!issym(a)) return isin ? std::sin(a) : std::cos(a);
  Value v = get(a), r;
  double u = ulp_<F>();
  r.ideal = v.ideal;
  r.err = v.err + 2 * u;
  r.lo = -1; r.hi = 1;
  // tighter enclosures on [-pi/2, pi/2] etc.
  const double PI = 3.141592653589793;
  if (isin) {
    if (v.lo >= -PI / 2 && v.hi <= PI / 2) { r.lo = std::max(-1.0, std::sin(v.lo) - 1e-15); r.hi = std::min(1.0, std::sin(v.hi) + 1e-15); }
    else if (v.lo >= 0 && v.hi <= PI) r.lo = 0;
    else if (v.lo >= -PI && v.hi <= 0) r.hi = 0;
  } else {
    if (v.lo >= 0 && v.hi <= PI) { r.lo = std::max(-1.0, std::cos(v.hi) - 1e-15); r.hi = std::min(1.0, std::cos(v.lo) + 1e-15); }
    else if (v.lo >= -PI && v.hi <= 0) { r.lo = std::max(-1.0, std::cos(v.lo) - 1e-15); r.hi = std::min(1.0, std::cos(v.hi) + 1e-15); }
    else if (v.lo >= -PI / 2 && v.hi <= PI / 2) r.lo = -1e-15;
  }
  u32 id;
  if (single_atom(v.p, id)) {
    Atom& A = atoms[id];
    if ((A.kind == A_ASIN && isin) || (A.kind == A_ACOS && !isin)) { r.p = A.a; return put<F>(r); }
    if (A.kind == A_ASIN || A.kind == A_ACOS) {  // the other one is +sqrt(1-x^2)
      Value x;
      x.p = padd(pconst(1), pmul(A.a, A.a), -1);
      poly_bounds(x.p, x.lo, x.hi);
      x.lo = std::max(0.0, x.lo);
      x.err = 0; x.ideal = v.ideal;
      F s = op_sqrt(put<F>(x));
      if (!issym(s)) return s;
      Value y = get(s);
      y.err += r.err;
      y.nn = false;
      return put<F>(y);
    }
    if (A.kind == A_ATAN2) {
      Value x;
      x.p = padd(pmul(A.a, A.a), pmul(A.b, A.b));
      poly_bounds(x.p, x.lo, x.hi);
      x.lo = std::max(0.0, x.lo);
      x.err = 0; x.ideal = v.ideal;
      F rad = op_sqrt(put<F>(x));
      Value n;
      n.p = isin ? A.a : A.b;
      poly_bounds(n.p, n.lo, n.hi);
      n.err = 0; n.ideal = v.ideal;
      F q = op_div(put<F>(n), rad);
      if (!issym(q)) return q;
      Value y = get(q);
      y.err += r.err;
      y.nn = false;
      y.lo = std::max(y.lo, -1.0); y.hi = std::min(y.hi, 1.0);
      return put<F>(y);
    }
  }
  Poly p = v.p;
  bool neg = !p.empty() && p.back().second < 0;
  if (neg) p = pscale(p, -1);
  double l = -1, h = 1;
  if (neg && isin) { l = -r.hi; h = -r.lo; } else { l = r.lo; h = r.hi; }
  std::string key = pkey(p);
  auto& t = trig[key];
  u32 s, c;
  if (!t.first) { s = new_atom(A_SIN, "sin", -1, 1, p); t.first = s + 1; }
  s = t.first - 1;
  if (!t.second) {
    c = new_atom(A_COS, "cos", -1, 1, p);
    t.second = c + 1;
    // cos^2 -> 1 - sin^2
    add_rule(c, MonoV{{c, 2}}, padd(pconst(1), pmul(patom(s), patom(s)), -1));
  }
  c = t.second - 1;
  u32 a_ = isin ? s : c;
  atoms[a_].lo = std::max(atoms[a_].lo, l);
  atoms[a_].hi = std::min(atoms[a_].hi, h);
  r.p = patom(a_);
  if (neg && isin) r.p = pscale(r.p, -1);
  return put<F>(r);
}
template <typename F> F op_atan2(F y, F x) {
  if (!issym(y) && !issym(x)) return std::atan2(y, x);
  Value vy = get(y), vx = get(x), r;
  r.lo = -3.1415926535897936; r.hi = 3.1415926535897936;
  if (vx.lo > 0) { r.lo = -1.5707963267948970; r.hi = 1.5707963267948970; }
  if (vy.lo >= 0) r.lo = 0;
  r.ideal = vy.ideal || vx.ideal;
  double u = ulp_<F>();
  double m = std::max(vx.lo > 0 ? vx.lo : vx.hi < 0 ? -vx.hi : 0, vy.lo > 0 ? vy.lo : vy.hi < 0 ? -vy.hi : 0);
  double e = vx.err + vy.err;
  if (e > 0) { if (m > 2 * e && vx.lo > 0) r.err = e / (m - e); else { r.err = 0; r.ideal = true; } }
  else r.err = 0;
  r.err += 4 * u * 3.15;
  // origin
  if (!(m > 0)) {
    Value z;
    z.p = padd(pmul(vy.p, vy.p), pmul(vx.p, vx.p));
    poly_bounds(z.p, z.lo, z.hi);
    z.lo = std::max(0.0, z.lo); z.err = 0; z.ideal = false;
    if (decide(z, R_EQ, hkey("atan2", y, x))) return 0;
  }
  std::string key = "atan2" + pkey(vy.p) + "|" + pkey(vx.p);
  auto it = fn_ix.find(key);
  u32 id;
  if (it == fn_ix.end()) { id = new_atom(A_ATAN2, "atan2", r.lo, r.hi, vy.p, vx.p); fn_ix[key] = id; } else id = it->second;
  r.p = patom(id);
  return put<F>(r);
}
template <typename F> F op_asincos(F x, bool isin) {
  if (!issym(x)) return isin ? std::asin(x) : std::acos(x);
  Value v = get(x), r;
  if (v.lo < -1 || v.hi > 1) {
    Value a = v;
    a.p = padd(v.p, pconst(1));
    a.lo = dn(v.lo + 1); a.hi = up(v.hi + 1);
    if (decide(a, R_LT, hkey("as-", x, x))) return (F)QNAN;
    Value b = v;
    b.p = padd(pconst(1), v.p, -1);
    b.lo = dn(1 - v.hi); b.hi = up(1 - v.lo);
    if (decide(b, R_LT, hkey("as+", x, x))) return (F)QNAN;
    v.lo = std::max(-1.0, v.lo); v.hi = std::min(1.0, v.hi);
  }
  if (isin) { r.lo = std::asin(v.lo) - 1e-15; r.hi = std::asin(v.hi) + 1e-15; }
  else { r.lo = std::max(0.0, std::acos(v.hi) - 1e-15); r.hi = std::acos(v.lo) + 1e-15; }
  r.ideal = v.ideal;
  double u = ulp_<F>();
  double mm = std::max(std::fabs(v.lo), std::fabs(v.hi)) + v.err;
  if (mm < 1) r.err = v.err / std::sqrt(1 - mm * mm) + 4 * u * 3.2;
  else if (v.err == 0) r.err = 4 * u * 3.2;
  else { r.err = 2 * std::sqrt(v.err) + 4 * u * 3.2; }
  u32 ca;
  if (single_atom(v.p, ca) && atoms[ca].kind == (isin ? A_SIN : A_COS)) {  // acos(cos(p)) = p for p in [0, pi]
    double l, h;
    poly_bounds(atoms[ca].a, l, h);
    if (isin ? l >= -1.5707963267948966 && h <= 1.5707963267948966 : l >= 0 && h <= 3.141592653589793) {
      r.p = atoms[ca].a;
      r.lo = std::max(r.lo, l); r.hi = std::min(r.hi, h);
      return put<F>(r);
    }
  }
  r.p = patom(fn_atom(isin ? A_ASIN : A_ACOS, isin ? "asin" : "acos", v.p, r.lo, r.hi));
  return put<F>(r);
}
template <typename F> F op_powi(F x, int n) {
  if (!issym(x)) return std::pow(x, n);
  if (n == 0) return 1;
  int m = n < 0 ? -n : n;
  F r = x;
  for (int i = 1; i < m; ++i) r = op_mul(r, x);
  if (n < 0) r = op_div((F)1, r);
  return r;
}
template <typename F> F op_pow(F x, F y) {
  if (!issym(x) && !issym(y)) return std::pow(x, y);
  if (!issym(y)) {
    if (y == std::floor(y) && std::fabs(y) <= 64) return op_powi(x, (int)y);
    if (y == (F)0.5) return op_sqrt(x);
  }
  Value vx = get(x), vy = get(y), r;
  if (vx.lo < 0) { if (sgn(x) < 0) return (F)QNAN; vx.lo = 0; }
  double c[4] = {std::pow(vx.lo, vy.lo), std::pow(vx.lo, vy.hi), std::pow(vx.hi, vy.lo), std::pow(vx.hi, vy.hi)};
  r.lo = *std::min_element(c, c + 4); r.hi = *std::max_element(c, c + 4);
  if (vx.lo < 1 && vx.hi > 1) { r.lo = std::min(r.lo, 1.0); r.hi = std::max(r.hi, 1.0); }
  r.lo = std::max(0.0, r.lo * (1 - 1e-14)); r.hi = r.hi * (1 + 1e-14);
  r.err = 0; r.ideal = true;
  std::string key = "pow" + pkey(vx.p) + "|" + pkey(vy.p);
  auto it = fn_ix.find(key);
  u32 id;
  if (it == fn_ix.end()) { id = new_atom(A_POW, "pow", r.lo, r.hi, vx.p, vy.p); fn_ix[key] = id; } else id = it->second;
  r.p = patom(id);
  return put<F>(r);
}
// d = a - b for a comparison
template <typename F> bool op_cmp(int pred, F a, F b) {
  // LLVM predicates: 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une
  bool nan = (!issym(a) && std::isnan(a)) || (!issym(b) && std::isnan(b));
  if (nan) return pred >= 8;
  switch (pred) { case 7: return true; case 8: return false; }
  int p = pred & 7;  // 1 eq 2 gt 3 ge 4 lt 5 le 6 ne
  if (!issym(a) && !issym(b))
    switch (p) { case 1: return a == b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b; case 6: return a != b; }
  bool neg = false;
  Rel rel = R_LT;
  switch (p) {
    case 1: rel = R_EQ; break;
    case 6: rel = R_EQ; neg = true; break;
    case 4: rel = R_LT; break;
    case 5: rel = R_LE; break;
    case 2: std::swap(a, b); rel = R_LT; break;
    case 3: std::swap(a, b); rel = R_LE; break;
  }
  if (!issym(a) && std::isinf(a)) { bool r = rel == R_EQ ? false : a < 0; return neg ? !r : r; }
  if (!issym(b) && std::isinf(b)) { bool r = rel == R_EQ ? false : b > 0; return neg ? !r : r; }
  if (issym(a) && issym(b) && ixof(a) == ixof(b)) { bool r = rel != R_LT; return neg ? !r : r; }
  if (!issym(b) && b <= 0 && get(a).nn && (rel == R_LT || b < 0)) return neg;
  if (!issym(a) && a <= 0 && get(b).nn && rel != R_EQ && (rel == R_LE || a < 0)) return true;
  if (!issym(a) && a < 0 && rel == R_EQ && get(b).nn) return neg;
  Value d = vadd(get(a), get(b), -1, 0, true);
  // normalise so that a<b and b<a share decisions: key on ordered handles
  bool r = decide(d, rel, hkey(rel == R_LT ? "<" : rel == R_LE ? "<=" : "==", a, b));
  if (rel == R_LT && d.err == 0 && !d.ideal) decided[hkey("<=", b, a)] = !r;
  if (rel == R_LE && d.err == 0 && !d.ideal) decided[hkey("<", b, a)] = !r;
  if (rel == R_LT && r) { decided[hkey("<=", a, b)] = true; decided[hkey("<", b, a)] = false; decided[hkey("<=", b, a)] = false; decided[hkey("==", a, b)] = decided[hkey("==", b, a)] = false; }
  if (rel == R_LT && !r) { decided[hkey("<=", b, a)] = true; }
  if (rel == R_LE && !r) { decided[hkey("<", a, b)] = false; decided[hkey("<", b, a)] = true; decided[hkey("<=", b, a)] = true; decided[hkey("==", a, b)] = decided[hkey("==", b, a)] = false; }
  if (rel == R_LE && r) { decided[hkey("<", b, a)] = false; }
  if (rel == R_EQ) {
    decided[hkey("==", b, a)] = r;
    if (r) { decided[hkey("<", a, b)] = decided[hkey("<", b, a)] = false; decided[hkey("<=", a, b)] = decided[hkey("<=", b, a)] = true; }
  }
  return neg ? !r : r;
}
bool tagged = false;
const u64 ITAG = 0x15A5A50000000000ull, IMASK = 0xFFFFFF0000000000ull;
// integer part as a concrete number: forks over the possible values
template <typename F> double op_int(F x, int mode /*0 trunc 1 floor 2 ceil 3 round*/) {
  Value v = get(x);
  auto fl = [&](double y) { return mode == 0 ? std::trunc(y) : mode == 1 ? std::floor(y) : mode == 2 ? std::ceil(y) : std::round(y); };
  // one predicate per boundary: "the value lies below boundary b"
  auto below = [&](double b) {
    bool lt = mode == 1 || (mode != 2 && b > 0);
    char kb[96];
    Value d = v;
    d.p = padd(v.p, pconst(Q(b)), -1); d.lo = dn(v.lo - b); d.hi = up(v.hi - b);
    snprintf(kb, sizeof kb, "i%d<%.17g %llx", (int)lt, b, (unsigned long long)ixof(x));
    return decide(d, lt ? R_LT : R_LE, kb);
  };
  double k = fl(eval_poly(v.p));
  for (int it = 0; it < 100000; ++it) {
    if (!std::isfinite(k)) fatal("integer conversion of a non-finite value");
    double l, h;
    switch (mode) {
      case 1: l = k; h = k + 1; break;
      case 2: l = k - 1; h = k; break;
      case 3: l = k - 0.5; h = k + 0.5; break;
      default: l = k > 0 ? k : k - 1; h = k < 0 ? k : k + 1;
    }
    double m;
    if (below(l)) { m = fl(eval_poly(v.p)); k = m < k ? m : k - 1; continue; }
    if (!below(h)) { m = fl(eval_poly(v.p)); k = m > k ? m : k + 1; continue; }
    return k;
  }
  fatal("integer concretisation did not converge");
}
template <typename F> u64 op_toint(F x, int width, bool sg) {
  if (!issym(x)) {
    if (sg) return (u64)(int64_t)x;
    return x < 9.2233720368547758e18 ? (u64)(int64_t)x : (u64)x;
  }
  if (tagged && width == 64) {
    Value v = get(x), r = v;
    r.lo = std::trunc(v.lo) - 1; r.hi = std::trunc(v.hi) + 1;
    if (v.lo >= 0) r.lo = std::max(0.0, r.lo);
    u32 a = new_atom(A_TRUNC, "trunc", r.lo, r.hi, v.p);
    r.p = patom(a);
    // the IEEE value may truncate to a neighbouring integer when v.err > 0
    if (v.err > 0) r.err = 1;
    if (v.err > 0.5) fatal("tagged integer of an imprecise value");
    vals.push_back(r);
    return ITAG | (vals.size() - 1);
  }
  return (u64)(int64_t)op_int(x, 0);
}
template <typename F> F op_fromint(u64 i, bool sg) {
  if (tagged && (i & IMASK) == ITAG) {
    u32 ix = (u32)(i & ~IMASK);
    Value v = vals[ix];
    return put<F>(v);
  }
  return sg ? (F)(int64_t)i : (F)i;
}

std::map<std::string, int> name_cnt;
std::string uname_(const char* n) {
  int k = name_cnt[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
std::map<std::string, int> viol_cnt;
long obs_count = 0;
void obs(const char* id, const Value& v) {
  if (obs_count++ > 400) return;
  obs_list.push_back({id, v.p, v.ideal ? -1 : v.err});
}
std::string obs_json() {  // with the path's final model
  std::string r;
  for (auto& o : obs_list) {
    if (!r.empty()) r += ",";
    r += "[" + jstr(o.id) + "," + num(eval_poly(o.p)) + "," + num(o.e) + "," + num(eval_abs(o.p)) + "]";
  }
  return r;
}
// obligation: not(goal) must be unsatisfiable with the path condition
void obligation(const char* id, const std::vector<Clause>& negated, const std::vector<Clause>& strong, bool ideal) {
  static std::map<std::string, int> seen;
  std::vector<double> m;
  bool ok = false;
  if (viol_cnt[id] > 0) return;
  int r = solve(negated, "a", &m, &ok, true);
  std::string s = "{\"t\":\"a\",\"id\":" + jstr(id) + ",\"r\":" + std::to_string(r) + ",\"ideal\":" + std::to_string(ideal || ideal_decisions) + ",\"ok\":" + std::to_string(model_ok) + "}";
  logline(s);
  if (r == 0) return;
  auto report = [&](const std::vector<double>& mm, bool cons, const char* kind) {
    std::vector<double> sv = model;
    model = mm;
    logline("{\"t\":\"v\",\"id\":" + jstr(id) + ",\"kind\":\"" + kind + "\",\"ok\":" + std::to_string(cons) + ",\"in\":" + inputs_json() + "}");
    model = sv;
  };
  if (r == 1) {
    viol_cnt[id]++;
    sh->viol++;
    if (!strong.empty()) {
      std::vector<double> m2;
      bool ok2 = false;
      int r2 = solve(strong, "w", &m2, &ok2, false);
      if (r2 == 1) report(m2, ok2, "strong");
    }
    report(m, ok, "weak");
  } else {
    logline("{\"t\":\"unknown\",\"id\":" + jstr(id) + ",\"in\":" + inputs_json() + "}");
  }
}
}  // namespace

// ------------------------------------------------------------ exported operations
// IEEE arithmetic is deterministic: the same operation on the same operands is the same value
struct MKey { u64 a, b; int op; bool operator==(const MKey& o) const { return a == o.a && b == o.b && op == o.op; } };
struct MHash { size_t operator()(const MKey& k) const { return (k.a * 0x9E3779B97F4A7C15ull ^ (k.b + 0x7F4A7C15) * 0xC2B2AE3D27D4EB4Full) + k.op * 1315423911u; } };
static std::unordered_map<MKey, u64, MHash> memo;
static inline u64 b64(double x) { return bits(x); }
static inline u64 b64(float x) { return bits(x); }
static inline void unb(u64 v, double& x) { x = dbl(v); }
static inline void unb(u64 v, float& x) { x = flt((u32)v); }
template <typename F, typename G> static inline F memo2(int op, F a, F b, G g) {
  if (!issym(a) && !issym(b)) return g();
  u64 x = b64(a), y = b64(b);
  if ((op == 0 || op == 2) && x > y) std::swap(x, y);
  MKey k{x, y, op + (sizeof(F) == 4 ? 64 : 0)};
  auto it = memo.find(k);
  F r;
  if (it != memo.end()) { unb(it->second, r); return r; }
  r = g();
  if (issym(r)) memo[k] = b64(r);
  return r;
}
#define OPS(S, F)                                                                                  \
  EXPORT F __sym_add_##S(F a, F b) { return memo2<F>(0, a, b, [&] { return op_add(a, b, 1); }); }                                     \
  EXPORT F __sym_sub_##S(F a, F b) { return memo2<F>(1, a, b, [&] { return op_add(a, b, -1); }); }                                    \
  EXPORT F __sym_mul_##S(F a, F b) { return memo2<F>(2, a, b, [&] { return op_mul(a, b); }); }                                        \
  EXPORT F __sym_div_##S(F a, F b) { return memo2<F>(3, a, b, [&] { return op_div(a, b); }); }                                        \
  EXPORT F __sym_neg_##S(F a) { return memo2<F>(4, a, (F)0, [&] { return op_neg(a); }); }                                                \
  EXPORT F __sym_fabs_##S(F a) { return memo2<F>(5, a, (F)0, [&] { return op_fabs(a); }); }                                              \
  EXPORT F __sym_sqrt_##S(F a) { return memo2<F>(6, a, (F)0, [&] { return op_sqrt(a); }); }                                              \
  EXPORT F __sym_exp_##S(F a) { return op_exp(a); }                                                \
  EXPORT F __sym_log_##S(F a) { return op_log(a); }                                                \
  EXPORT F __sym_sin_##S(F a) { return op_sincos(a, true); }                                       \
  EXPORT F __sym_cos_##S(F a) { return op_sincos(a, false); }                                      \
  EXPORT F __sym_tan_##S(F a) { return issym(a) ? op_div(op_sincos(a, true), op_sincos(a, false)) : std::tan(a); } \
  EXPORT F __sym_atan2_##S(F a, F b) { return op_atan2(a, b); }                                    \
  EXPORT F __sym_atan_##S(F a) { return issym(a) ? op_atan2(a, (F)1) : std::atan(a); }             \
  EXPORT F __sym_asin_##S(F a) { return op_asincos(a, true); }                                     \
  EXPORT F __sym_acos_##S(F a) { return op_asincos(a, false); }                                    \
  EXPORT F __sym_pow_##S(F a, F b) { return op_pow(a, b); }                                        \
  EXPORT F __sym_powi_##S(F a, int b) { return op_powi(a, b); }                                    \
  EXPORT F __sym_fmin_##S(F a, F b) { return op_minmax(a, b, false); }                             \
  EXPORT F __sym_fmax_##S(F a, F b) { return op_minmax(a, b, true); }                              \
  EXPORT F __sym_fma_##S(F a, F b, F c) { return op_add(op_mul(a, b), c, 1); }                     \
  EXPORT F __sym_hypot_##S(F a, F b) { return issym(a) || issym(b) ? op_sqrt(op_add(op_mul(a, a), op_mul(b, b), 1)) : std::hypot(a, b); } \
  EXPORT F __sym_floor_##S(F a) { return issym(a) ? (F)op_int(a, 1) : std::floor(a); }             \
  EXPORT F __sym_ceil_##S(F a) { return issym(a) ? (F)op_int(a, 2) : std::ceil(a); }               \
  EXPORT F __sym_trunc_##S(F a) { return issym(a) ? (F)op_int(a, 0) : std::trunc(a); }             \
  EXPORT F __sym_round_##S(F a) { return issym(a) ? (F)op_int(a, 3) : std::round(a); }             \
  EXPORT F __sym_rint_##S(F a) { return issym(a) ? (F)op_int(a, 3) : std::rint(a); }               \
  EXPORT int64_t __sym_lround_##S(F a) { return issym(a) ? (int64_t)op_int(a, 3) : std::lround(a); } \
  EXPORT F __sym_fmod_##S(F a, F b) {                                                              \
    if (!issym(a) && !issym(b)) return std::fmod(a, b);                                            \
    F q = op_div(a, b);                                                                            \
    F k = issym(q) ? (F)op_int(q, 0) : std::trunc(q);                                              \
    return op_add(a, op_mul(k, b), -1);                                                            \
  }                                                                                                \
  EXPORT F __sym_copysign_##S(F a, F b) {                                                          \
    if (!issym(a) && !issym(b)) return std::copysign(a, b);                                        \
    F m = op_fabs(a);                                                                              \
    if (!issym(b)) return std::signbit(b) ? op_neg(m) : m;                                         \
    return sgn(b) < 0 ? op_neg(m) : m;                                                             \
  }                                                                                                \
  EXPORT int __sym_fcmp_##S(int p, F a, F b) { return op_cmp(p, a, b); }                           \
  EXPORT u64 __sym_toi_##S(F a, int w) { return op_toint(a, w, true); }                            \
  EXPORT u64 __sym_tou_##S(F a, int w) { return op_toint(a, w, false); }                           \
  EXPORT F __sym_fromi_##S(u64 i) { return op_fromint<F>(i, true); }                               \
  EXPORT F __sym_fromu_##S(u64 i) { return op_fromint<F>(i, false); }                              \
  EXPORT F __sym_concrete_##S(F a) { if (issym(a)) fatal("symbolic value reaches an uninterpreted conversion"); return a; } \
  EXPORT int __sym_fpclass_##S(F a, int m) {                                                       \
    if (issym(a)) {                                                                                \
      if ((m & 0x3FC) == 0x3FC ? false : false) return 1;                                          \
      int fin = m & 0x1F8, nanm = m & 3, infm = m & 0x204;                                         \
      (void)nanm; (void)infm;                                                                      \
      if (fin == 0x1F8) return 1;                                                                  \
      if (fin == 0) return 0;                                                                      \
      int s = sgn(a);                                                                              \
      if (s == 0) return (m & 0x60) != 0;                                                          \
      return s > 0 ? (m & 0x100) != 0 : (m & 0x8) != 0;                                            \
    }                                                                                              \
    int c = 0;                                                                                     \
    if (std::isnan(a)) c = 3;                                                                      \
    else if (std::isinf(a)) c = a < 0 ? 0x4 : 0x200;                                               \
    else if (a == 0) c = std::signbit(a) ? 0x20 : 0x40;                                            \
    else if (std::fpclassify(a) == FP_SUBNORMAL) c = a < 0 ? 0x10 : 0x80;                          \
    else c = a < 0 ? 0x8 : 0x100;                                                                  \
    return (c & m) != 0;                                                                           \
  }
OPS(d, double)
OPS(f, float)
#define UNSUP(S, F, n) EXPORT F __sym_##n##_##S(F a) { if (issym(a)) fatal("unsupported function " #n); return std::n(a); }
UNSUP(d, double, cbrt) UNSUP(f, float, cbrt) UNSUP(d, double, exp2) UNSUP(f, float, exp2) UNSUP(d, double, log2) UNSUP(f, float, log2)
UNSUP(d, double, log10) UNSUP(f, float, log10) UNSUP(d, double, sinh) UNSUP(f, float, sinh) UNSUP(d, double, cosh) UNSUP(f, float, cosh)
UNSUP(d, double, tanh) UNSUP(f, float, tanh)
EXPORT float __sym_fptrunc(double a) {
  if (!issym(a)) return (float)a;
  Value v = get(a);
  v.err = v.err + UF * (mag(v) + v.err);
  return put<float>(v);
}
EXPORT double __sym_fpext(float a) {
  if (!issym(a)) return a;
  return put<double>(get(a));
}

// ------------------------------------------------------------ harness interface
EXPORT double sym_double(const char* name, double lo, double hi) {
  std::string n = uname_(name);
  if (cfg.concrete) {
    auto it = cfg.fixed.find(n);
    double v = it == cfg.fixed.end() ? lo + 0.6180339887 * (hi - lo) : it->second;
    return std::max(lo, std::min(hi, v));
  }
  u32 a = new_atom(A_INPUT, n, lo, hi);
  inputs.push_back({n, (int)a, 0});
  if (cfg.fixed.count(n)) { atom_value(a); model[a] = std::max(lo, std::min(hi, cfg.fixed[n])); }
  Value v;
  v.p = patom(a);
  v.lo = lo; v.hi = hi; v.err = 0; v.ideal = false; v.nn = lo >= 0;
  if (lo == hi) return lo;
  return put<double>(v);
}
EXPORT double sym_any(double lo, double hi) { return sym_double("any", lo, hi); }
EXPORT int sym_choice(const char* name, int n) {
  std::string nm = uname_(name);
  if (cfg.concrete) {
    auto it = cfg.fixed.find(nm);
    int v = it == cfg.fixed.end() ? 0 : (int)it->second;
    return std::max(0, std::min(n - 1, v));
  }
  inputs.push_back({nm, -1, 0});
  size_t ix = inputs.size() - 1;
  for (int k = 0; k + 1 < n; ++k)
    if (fork_path()) { inputs[ix].choice = k; return k; }
  inputs[ix].choice = n - 1;
  return n - 1;
}
EXPORT void sym_assume(int c) { if (!c) path_end("assume"); }
EXPORT void sym_end(void) { path_end("end"); }
EXPORT void sym_allow_abort(int on) { allow_abort = on; }
EXPORT void sym_tagged_ints(int on) { tagged = on; }
EXPORT int sym_is_symbolic(void) { return !cfg.concrete; }
EXPORT int sym_is_sym(double v) { return issym(v); }
EXPORT void sym_note(const char* m) { logline("{\"t\":\"note\",\"m\":" + jstr(m) + "}"); }
EXPORT int sym_thorough(void) { return cfg.thorough; }
EXPORT int sym_arg(const char* k, int d) { auto it = cfg.args.find(k); return it == cfg.args.end() ? d : it->second; }
EXPORT void sym_reach(const char* id) {
  logline("{\"t\":\"reach\",\"id\":" + jstr(id) + ",\"ok\":" + std::to_string(model_ok) + "}");
}
EXPORT void sym_observe(const char* id, double v) { obs(id, get(v)); }
EXPORT void sym_assert(int c, const char* id) {
  if (cfg.concrete) { if (!c) logline("{\"t\":\"v\",\"id\":" + jstr(id) + ",\"ok\":1,\"in\":" + inputs_json() + "}"); return; }
  if (c) {
    logline("{\"t\":\"a\",\"id\":" + jstr(id) + ",\"r\":0,\"path\":1,\"ideal\":" + std::to_string(ideal_decisions != 0) + ",\"ok\":" + std::to_string(model_ok) + "}");
    return;
  }
  logline("{\"t\":\"a\",\"id\":" + jstr(id) + ",\"r\":1,\"path\":1,\"ideal\":" + std::to_string(ideal_decisions != 0) + ",\"ok\":" + std::to_string(model_ok) + "}");
  // the path itself is the counterexample: get a confirmed model
  if (!model_ok) {
    std::vector<double> m;
    bool ok = false;
    int r = solve({}, "w", &m, &ok, true);
    Query q;
    // all constraints
    std::vector<Clause> g = pc;
    r = solve(g, "w", &m, &ok, true);
    if (r == 0) path_end("infeasible");
    if (r == 1) { model = m; model_ok = ok; }
  }
  sh->viol++;
  logline("{\"t\":\"v\",\"id\":" + jstr(id) + ",\"kind\":\"path\",\"ok\":" + std::to_string(model_ok) + ",\"in\":" + inputs_json() + "}");
}
static void nan_violation(const char* id) {
  logline("{\"t\":\"a\",\"id\":" + jstr(id) + ",\"r\":1,\"path\":1,\"ok\":" + std::to_string(model_ok) + "}");
  logline("{\"t\":\"v\",\"id\":" + jstr(id) + ",\"kind\":\"nonfinite\",\"ok\":" + std::to_string(model_ok) + ",\"in\":" + inputs_json() + "}");
}
EXPORT void sym_assert_near(double a, double b, double tol, const char* id) {
  if ((!issym(a) && !std::isfinite(a)) || (!issym(b) && !std::isfinite(b))) {
    if (!(a == b)) nan_violation(id);
    return;
  }
  if (cfg.concrete) { if (!(std::fabs(a - b) <= tol)) logline("{\"t\":\"v\",\"id\":" + jstr(id) + ",\"ok\":1,\"in\":" + inputs_json() + "}"); Value d = get(a - b); obs(id, d); return; }
  Value d = vadd(get(a), get(b), -1, 0, true);
  if (!issym(a) && !issym(b)) {  // concrete arithmetic: the two compilers may round differently
    Value o = d;
    o.err += 1e-9 * (std::fabs(a) + std::fabs(b));
    obs(id, o);
  } else obs(id, d);
  double E = d.ideal ? 0 : d.err;
  bool ideal = d.ideal;
  if (E >= tol) { ideal = true; E = 0; }
  double T = tol - E;
  Clause neg = {{plus_c(d.p, -T), R_GT, {}, {}}, {plus_c(d.p, T), R_LT, {}, {}}};
  if (pisconst(d.p)) {  // equal normal forms: let the solver see both sides
    neg[0].x = neg[1].x = get(a).p;
    neg[0].y = neg[1].y = get(b).p;
    neg[0].k = T; neg[1].k = -T;
  }
  double S = 2 * tol + 2 * E + 1e-6;
  Clause strong = {{plus_c(d.p, -S), R_GT}, {plus_c(d.p, S), R_LT}};
  obligation(id, {neg}, {strong}, ideal);
}
EXPORT void sym_assert_le(double a, double b, double tol, const char* id) {
  if ((!issym(a) && std::isnan(a)) || (!issym(b) && std::isnan(b))) { nan_violation(id); return; }
  if ((!issym(a) && std::isinf(a)) || (!issym(b) && std::isinf(b))) {
    bool ok = (!issym(a) && std::isinf(a) && a < 0) || (!issym(b) && std::isinf(b) && b > 0);
    if (!ok) nan_violation(id);
    return;
  }
  if (cfg.concrete) { if (!(a <= b + tol)) logline("{\"t\":\"v\",\"id\":" + jstr(id) + ",\"ok\":1,\"in\":" + inputs_json() + "}"); Value d = get(a - b); obs(id, d); return; }
  Value d = vadd(get(a), get(b), -1, 0, true);
  obs(id, d);
  double E = d.ideal ? 0 : d.err;
  bool ideal = d.ideal;
  if (E >= tol && E > 0) { ideal = true; E = 0; }
  obligation(id, {{{plus_c(d.p, -(tol - E)), R_GT}}}, {{{plus_c(d.p, -(2 * tol + 2 * E + 1e-6)), R_GT}}}, ideal);
}
EXPORT void sym_assume_le(double a, double b) {
  if (!issym(a) && !issym(b)) { sym_assume(a <= b); return; }
  Value d = vadd(get(a), get(b), -1, 0, true);
  double E = d.ideal ? 0 : d.err;
  if (iv(d.lo, d.hi, E, R_LE) == 1) return;
  std::vector<Clause> c = outcome(d.p, E, R_LE, true);
  if (model_ok && eval_poly(d.p) <= 0) { for (auto& x : c) add_pc(x); return; }
  std::vector<double> m;
  bool ok = false;
  int r = solve(c, "b", &m, &ok, true);
  if (r == 0) path_end("assume");
  for (auto& x : c) add_pc(x);
  if (r == 1) { model = m; model_ok = ok; } else model_ok = false;
}
// used by helper libraries (I/O interception, scheduler)
EXPORT void __sym_fn(const char* name, unsigned char* flag) {
  if (*flag) return;
  *flag = 1;
  if (cfg.logfd > 2) logline("{\"t\":\"fn\",\"n\":" + jstr(name) + "}");
}
EXPORT double __symrt_relerr(double a, double rel) {
  if (!issym(a)) return a;
  Value v = get(a);
  v.err += rel * (mag(v) + v.err);
  return put<double>(v);
}
EXPORT double __symrt_model(double a) { return issym(a) ? eval_poly(get(a).p) : a; }
EXPORT void __symrt_fatal(const char* m) { fatal(m); }
EXPORT void __symrt_violation(const char* id) {
  logline("{\"t\":\"v\",\"id\":" + jstr(id) + ",\"kind\":\"path\",\"ok\":" + std::to_string(model_ok) + ",\"in\":" + inputs_json() + "}");
  sh->viol++;
}
EXPORT void __symrt_path_end(const char* how) { path_end(how); }

EXPORT int __symrt_main(int argc, char** argv, void (*h)(void)) {
  std::string srv, lib;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--log") cfg.logfd = open(nx().c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    else if (a == "--jobs") cfg.jobs = atoi(nx().c_str());
    else if (a == "--path-s") cfg.path_s = atoi(nx().c_str());
    else if (a == "--q-ms") cfg.q_ms = atoi(nx().c_str());
    else if (a == "--q2-ms") cfg.q2_ms = atoi(nx().c_str());
    else if (a == "--max-paths") cfg.max_paths = atol(nx().c_str());
    else if (a == "--wall") cfg.deadline = now_s() + atof(nx().c_str());
    else if (a == "--thorough") cfg.thorough = true;
    else if (a == "--cross") cfg.cross = true;
    else if (a == "--dump") cfg.dump = nx();
    else if (a == "--z3srv") srv = nx();
    else if (a == "--z3lib") lib = nx();
    else if (a == "--concrete") cfg.concrete = true;
    else if (a == "--arg") { std::string s = nx(); auto p = s.find('='); cfg.args[s.substr(0, p)] = atoi(s.c_str() + p + 1); }
    else if (a == "--in") {
      FILE* f = fopen(nx().c_str(), "r");
      char n[256]; double v;
      while (f && fscanf(f, "%255s %lf", n, &v) == 2) cfg.fixed[n] = v;
      if (f) fclose(f);
    }
  }
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->tokens = cfg.jobs - 1;
  sh->paths = sh->forks = sh->queries = 0;
  sh->stop = 0;
  sh->viol = 0;
  root_pid = getpid();
  start_server(srv, lib);
  mono_of({});
  static char stk[1 << 16];
  stack_t ss{};
  ss.ss_sp = stk;
  ss.ss_size = sizeof stk;
  (void)ss;
  char* big = (char*)mmap(nullptr, 8 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_sp = big;
  ss.ss_size = 8 << 20;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGALRM}) {
    struct sigaction sa{};
    sa.sa_handler = on_crash;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
    sigaction(s, &sa, nullptr);
  }
  arm_alarm();
  h();
  path_end("end");
}
