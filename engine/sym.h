// Harness interface.  The same harness is compiled twice: through the
// instrumenting pass (symbolic) and natively with g++ -O2 (replay/validation).
#pragma once
#include <cstdint>
extern "C" {
// a symbolic real in [lo, hi]; under replay the value from the input file
double sym_double(const char* name, double lo, double hi);
// one of 0..n-1, every alternative explored
int sym_choice(const char* name, int n);
// silently ends a path whose inputs are outside the stated precondition
void sym_assume(int cond);
// the property: condition on this path (comparisons in it fork)
void sym_assert(int cond, const char* id);
// |a-b| <= tol / a <= b + tol for every input of this path
void sym_assert_near(double a, double b, double tol, const char* id);
void sym_assert_le(double a, double b, double tol, const char* id);
// vacuity witness: this point must be reached by a feasible path
void sym_reach(const char* id);
// value compared between the symbolic model and the native replay
void sym_observe(const char* id, double v);
// ends the path (normal)
void sym_end(void);
// marks that aborting is (not) acceptable from here on; default: not acceptable
void sym_allow_abort(int on);
// conversion of symbolic numbers to 64-bit integers keeps a symbolic tag
void sym_tagged_ints(int on);
// 1 in symbolic execution, 0 in native replay
int sym_is_symbolic(void);
// true if v carries a symbolic expression
int sym_is_sym(double v);
void sym_note(const char* msg);
// thorough tier?
int sym_thorough(void);
// value of an argument given by the driver (--arg key=value), or def
int sym_arg(const char* key, int def);
// an opaque over-approximating value: arbitrary real in [lo,hi] (same as sym_double, name auto-numbered)
double sym_any(double lo, double hi);
// the path condition is strengthened (no fork): a<=b (with rounding band) must hold
void sym_assume_le(double a, double b);
}
extern "C" void harness(void);
