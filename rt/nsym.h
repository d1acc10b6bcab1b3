// Harness interface. Under the nsym executor these are intrinsics; natively (replay) they are
// implemented by rt/native.cpp, which reads the counterexample from a replay file.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
double nsym_real(const char *name);                       // unconstrained real
double nsym_real_in(const char *name, double lo, double hi); // lo <= x <= hi
double nsym_pos(const char *name);                        // strictly positive real
int64_t nsym_int(const char *name, int64_t lo, int64_t hi);  // symbolic 64-bit integer
int64_t nsym_pick(const char *name, int64_t n);           // every value of 0..n-1 is explored
int64_t nsym_concrete(int64_t v);                         // enumerate feasible values with the solver
void nsym_assume(bool c);
void nsym_check(bool c, const char *msg);                 // assertion
void nsym_eq(double a, double b, const char *msg);        // a == b over the reals (NaN/inf kinds too)
void nsym_eq32(double a, double b, const char *msg);      // same, single precision tolerance in replay
void nsym_reach(const char *tag);                         // vacuity witness
void nsym_fail(const char *msg);
void nsym_garbage(void *p, size_t n);                     // contents become unspecified
bool nsym_memsame(const void *a, const void *b, size_t n);// identical contents (terms)
void nsym_mode(const char *mode, int on);                 // "overflow": obligations on every FP result; "int": integers as mathematical integers with range proofs
double nsym_isfinite(double x);                           // 1 finite, 0 otherwise (no fork)
void nsym_note(const char *s);
void nsym_fibers(int64_t n, void (*body)(int64_t), void (*pre)(int64_t), int backwards); // n activations of body that switch only in nsym_fiber_yield; pre runs before each continues
void nsym_fiber_yield(void);
bool nsym_symbolic(void);                                 // true under the executor, false natively
bool nsym_err_small(double computed, double exact, double bound, const char *msg); // rounding mode
}
