// Harness primitives.  Interpreted by the symbolic executor; natively
// implemented in sym_native.cpp for replaying a counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t sym_u8(const char* name);
uint16_t sym_u16(const char* name);
uint32_t sym_u32(const char* name);
uint64_t sym_u64(const char* name);
int32_t sym_i32(const char* name);
int64_t sym_i64(const char* name);
bool sym_bool(const char* name);
double sym_real(const char* name);    // arbitrary real number
double sym_dbits(const char* name);   // arbitrary 64-bit double pattern (opaque)
void sym_bytes(const char* name, void* p, size_t n);
void sym_unit_quat(const char* name, double* wxyz);
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_assert_eq(double a, double b, double tol, const char* msg);
void sym_reach(const char* tag);      // vacuity witness: must be satisfiable
int sym_choice(const char* name, int lo, int hi);
int sym_concretize(int v);
void sym_nothrow(bool on);
void sym_jvp(void (*f)(double, void*, double*), void* ctx, double* out, int n);
void sym_obs_i(const char* name, uint64_t v);   // observed value, compared with the native run
void sym_obs_d(const char* name, double v);
[[noreturn]] void sym_end();
}
