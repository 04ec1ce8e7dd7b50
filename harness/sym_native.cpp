#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <dlfcn.h>
static std::map<std::string, std::string> vals;
static std::map<std::string, int> cnt;
static bool nothrow_ = false;
static int fails = 0;
static std::string key(const char* n) { int k = cnt[n]++; return std::string(n) + "#" + std::to_string(k); }
static uint64_t geti(const std::string& k) { auto it = vals.find(k); return it == vals.end() ? 0 : strtoull(it->second.c_str(), nullptr, 0); }
static double getd(const std::string& k) { auto it = vals.find(k); return it == vals.end() ? 0.0 : strtod(it->second.c_str(), nullptr); }
struct EndOfRun {};
struct AssumeFailed {};
extern "C" {
uint8_t sym_u8(const char* n) { return geti(key(n)); }
uint16_t sym_u16(const char* n) { return geti(key(n)); }
uint32_t sym_u32(const char* n) { return geti(key(n)); }
uint64_t sym_u64(const char* n) { return geti(key(n)); }
int32_t sym_i32(const char* n) { return geti(key(n)); }
int64_t sym_i64(const char* n) { return geti(key(n)); }
bool sym_bool(const char* n) { return geti(key(n)) & 1; }
double sym_real(const char* n) { return getd(key(n)); }
double sym_dbits(const char* n) { uint64_t u = geti(key(n)); double d; memcpy(&d, &u, 8); return d; }
void sym_bytes(const char* n, void* p, size_t k) {
    std::string b = key(n);
    for (size_t i = 0; i < k; ++i) ((uint8_t*)p)[i] = geti(b + "[" + std::to_string(i) + "]");
}
void sym_unit_quat(const char* n, double* q) {
    std::string b = key(n);
    const char* c = "wxyz";
    double s = 0;
    for (int i = 0; i < 4; ++i) { q[i] = getd(b + "." + c[i]); s += q[i] * q[i]; }
    s = std::sqrt(s);
    if (s > 0) for (int i = 0; i < 4; ++i) q[i] /= s; else q[0] = 1;
}
void sym_assume(bool c) { if (!c) throw AssumeFailed(); }
void sym_assert(bool c, const char* m) { if (!c) { printf("REPLAY-FAIL %s\n", m); ++fails; } }
void sym_assert_eq(double a, double b, double tol, const char* m) {
    double s = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    bool same = (a == b) || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol * s;
    if (!same) { printf("REPLAY-FAIL %s: %.17g vs %.17g\n", m, a, b); ++fails; }
}
void sym_reach(const char*) {}
int sym_choice(const char* n, int, int) { return (int)geti(key(n)); }
int sym_concretize(int v) { return v; }
void sym_nothrow(bool on) { nothrow_ = on; }
void sym_jvp(void (*f)(double, void*, double*), void* ctx, double* out, int n) {
    std::vector<double> p(n), m(n), p2(n), m2(n);
    const char* hs = getenv("SYM_JVP_H");
    const double h = hs ? atof(hs) : 1e-4;
    f(h, ctx, p.data()); f(-h, ctx, m.data()); f(2 * h, ctx, p2.data()); f(-2 * h, ctx, m2.data());
    for (int i = 0; i < n; ++i) out[i] = (8 * (p[i] - m[i]) - (p2[i] - m2[i])) / (12 * h);
}
void sym_obs_i(const char* n, uint64_t v) { printf("OBS %s u64 %llu\n", n, (unsigned long long)v); }
void sym_obs_d(const char* n, double v) { printf("OBS %s f64 %.17g\n", n, v); }
void sym_end() { throw EndOfRun(); }
}
int main(int argc, char** argv) {
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream s(line);
        std::string k, v;
        s >> k >> v;
        vals[k] = v;
    }
    void (*entry)() = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
    if (!entry) { printf("no entry\n"); return 3; }
    try { entry(); }
    catch (const EndOfRun&) {}
    catch (const AssumeFailed&) { printf("REPLAY-ASSUME-FAILED\n"); }
    catch (...) { if (nothrow_) { printf("REPLAY-FAIL exception escaped\n"); ++fails; } else printf("REPLAY-THROW\n"); }
    fflush(stdout);
    return fails ? 1 : 0;
}
