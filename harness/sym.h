// Harness API.  In msym these are symbolic; natively (replay.cpp) they read a recorded assignment.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
int64_t sym_int(const char *name, int64_t lo, int64_t hi);              // symbolic integer in [lo,hi]
double sym_fx(const char *name, int64_t lo, int64_t hi, int shift);      // symbolic double k*2^-shift, k in [lo,hi]
double sym_pick(const char *name, const double *vals, int n);            // symbolic choice among n concrete doubles
int64_t sym_fork(const char *name, int64_t lo, int64_t hi);             // symbolic integer, case-split at once
uint64_t sym_u64(const char *name);
double sym_f64(const char *name);                                        // any double (needs fp mode)
uint8_t sym_byte(const char *name);
void sym_assume(bool c);
void sym_assert(bool c, const char *msg);
void sym_reach(const char *tag);
[[noreturn]] void sym_fail(const char *msg);
[[noreturn]] void sym_end();
int64_t sym_concrete(int64_t v);
int sym_symbolic();
void sym_harness();
void sym_dump(const char *n, int64_t v); void sym_dump_d(const char *n, double v);
}
#define CHECK(c) sym_assert((c), #c)
