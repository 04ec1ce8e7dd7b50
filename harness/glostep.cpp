// Stepping of the GLONASS integration (common/satellite/satellite_state.cxx): the integrator is replaced (rk4_record.h) by one
// that moves the position by velocity * step and records the step
#include <array>
#include <type_traits>
#include <limits>
#include <functional>
#include "sym.h"
#include "common/defs.h"
#include "common/satellite/satellite_state.h"
using namespace mc;
using namespace mc::satellite;
double g_step_sum, g_step_max;
int g_steps;
Vec3 g_acc;
void rk4_record(double h, const Vec3& acc)
{
    g_step_sum += h;
    const double a = h < 0 ? -h : h;
    if (a > g_step_max) g_step_max = a;
    ++g_steps;
    g_acc = acc;
}
static Vec3 rv(const char* n)
{
    Vec3 v;
    for (int i = 0; i < 3; ++i) v(i) = sym_real(n);
    return v;
}
static const double DT[12] = {0, 900, -900, 60, -60, 59.5, -59.5, 60.25, 0.001, 125.125, -1799.875, 1};
static UTCTime off(const UTCTime& t, double d)
{
    const int64_t s = (int64_t)d;
    return t + UTCTime(s, (int64_t)((d - s) * 1e9));
}
extern "C" void h_glo_step()
{
    ephemeris::GlonassEphemeris e(4);
    e.pos = rv("p");
    e.vel = rv("v");
    e.acc = rv("a");
    e.taun = sym_real("taun");
    e.gamn = sym_real("gamn");
    SatelliteState s;
    const Vec3 p1 = rv("sp"), v1 = rv("sv");
    const int k = sym_choice("dt", 0, 11);
    const bool fresh = sym_choice("fresh", 0, 1);
    const UTCTime t((int64_t)1600000000, (int64_t)250000000);
    double d = DT[k];
    double dtoe = d;
    if (!fresh)
    {
        // continue from an earlier state
        s.t = off(t, -d);
        s.pos = p1;
        s.vel = v1;
        dtoe = 300.5;
    }
    e.toe = off(t, -dtoe);
    g_step_sum = g_step_max = g_steps = 0;
    eph2Sat(t, e, Out(s));
    sym_assert_eq(g_step_sum, d, 1e-9, "the steps add up to the interval");
    sym_assert(g_step_max <= 60.0, "no step is longer than a minute");
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(s.pos(i), fresh ? e.pos(i) + d * e.vel(i) : p1(i) + d * v1(i), 1e-9, "every step starts where the last one ended");
        sym_assert_eq(s.vel(i), fresh ? e.vel(i) : v1(i), 1e-9, "velocity carried through");
        if (g_steps) sym_assert_eq(g_acc(i), e.acc(i), 1e-12, "broadcast acceleration is applied");
    }
    sym_assert_eq(s.clk(0), -e.taun + e.gamn * dtoe, 1e-12, "clock bias");
    sym_assert_eq(s.clk(1), e.gamn, 1e-12, "clock rate");
    sym_assert((s.t.sec == t.sec) & (s.t.nsec == t.nsec), "the state is stamped with the requested time");
    sym_reach("step");
    sym_reach("end");
}
