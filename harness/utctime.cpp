// Time arithmetic and calendars (common/utctime.*)
#include <array>
#include <type_traits>
#include <limits>
#include "sym.h"
#include "common/utctime.h"
using namespace mc;
using i128 = __int128;
static const int64_t N = 1000000000;

static UTCTime anyTime(const char* s, const char* n, int64_t lim)
{
    UTCTime t;
    t.sec = sym_i64(s);
    t.nsec = sym_i64(n);
    sym_assume(t.sec > -lim && t.sec < lim);
    sym_assume(t.nsec >= 0 && t.nsec < N);
    return t;
}
static const int64_t BIG = (int64_t)1 << 61;

extern "C" void h_order()
{
    const UTCTime a = anyTime("asec", "ansec", BIG), b = anyTime("bsec", "bnsec", BIG);
    const bool lt = a.sec < b.sec || (a.sec == b.sec && a.nsec < b.nsec);
    const bool eq = a.sec == b.sec && a.nsec == b.nsec;
    sym_assert((a < b) == lt, "operator<");
    sym_assert((a > b) == (!lt && !eq), "operator>");
    sym_assert((a == b) == eq, "operator==");
    sym_assert((a != b) == !eq, "operator!=");
    sym_assert((a <= b) == (lt || eq), "operator<=");
    sym_assert((a >= b) == !lt, "operator>=");
    sym_reach("end");
}

// exact value check: out == a + k*b in nanoseconds, and out normalised
static void checkSum(const UTCTime& o, const UTCTime& a, const UTCTime& b, int k, const char* m)
{
    sym_assert(o.nsec >= 0 && o.nsec < N, m);
    int64_t ns = k > 0 ? a.nsec + b.nsec : a.nsec - b.nsec;
    int64_t s = k > 0 ? a.sec + b.sec : a.sec - b.sec;
    if (ns < 0) { ns += N; s -= 1; }
    else if (ns >= N) { ns -= N; s += 1; }
    sym_assert(o.sec == s && o.nsec == ns, m);
}
extern "C" void h_addsub()
{
    const UTCTime a = anyTime("asec", "ansec", BIG), b = anyTime("bsec", "bnsec", BIG);
    checkSum(a + b, a, b, 1, "operator+ exact");
    checkSum(a - b, a, b, -1, "operator- exact");
    UTCTime c = a;
    c += b;
    checkSum(c, a, b, 1, "operator+= exact");
    c = a;
    c -= b;
    checkSum(c, a, b, -1, "operator-= exact");
    c = a + b;
    c -= b;
    sym_assert(c == a, "(a+b)-b == a");
    sym_reach("end");
}
extern "C" void h_addint()
{
    const UTCTime a = anyTime("asec", "ansec", BIG);
    const int k = sym_i32("k");
    UTCTime o = a + k;
    sym_assert(o.sec == a.sec + k && o.nsec == a.nsec, "operator+(int)");
    o = a - k;
    sym_assert(o.sec == a.sec - k && o.nsec == a.nsec, "operator-(int)");
    o = a;
    o += k;
    sym_assert(o.sec == a.sec + k && o.nsec == a.nsec, "operator+=(int)");
    o = a;
    o -= k;
    sym_assert(o.sec == a.sec - k && o.nsec == a.nsec, "operator-=(int)");
    sym_reach("end");
}
// the (sec, nsec) constructor normalises, for any representable nanosecond count
extern "C" void h_ctor()
{
    const int64_t s = sym_i64("s"), n = sym_i64("n");
    sym_assume(s > -BIG && s < BIG);
    const int64_t q = sym_i64("q"), r = sym_i64("r");   // n = q*1e9 + r, 0 <= r < 1e9
    sym_assume(r >= 0 && r < N && q >= -9000000 && q <= 9000000 && n == q * N + r);
    const UTCTime t(s, n);
    sym_assert(t.nsec >= 0 && t.nsec < N, "constructor normalises nsec");
    sym_assert(t.sec == s + q && t.nsec == r, "constructor keeps the value");
    sym_reach("end");
}

extern "C" void h_gps()
{
    const int week = sym_i32("week"), tow = sym_i32("tow_ms");
    sym_assume(week >= 0 && week < 8192 && tow >= 0 && tow < 604800000);
    const int ts = sym_i32("tow_s"), tms = sym_i32("tow_rem_ms");
    sym_assume(ts >= 0 && ts < 604800 && tms >= 0 && tms < 1000 && tow == ts * 1000 + tms);
    const int64_t s = (int64_t)week * 604800 + ts + 315964800 + 18;
    const UTCTime t = UTCTime::fromGPS(week, tow);
    sym_assert(t.sec == s, "fromGPS seconds");
    sym_assert(t.nsec == (int64_t)tms * 1000000, "fromGPS milliseconds");
    const UTCTime g = UTCTime::fromGalileo(week, tow);
    sym_assert(g.sec == s && g.nsec == (int64_t)tms * 1000000, "fromGalileo");
    sym_assert(t.GpsWeek() == week, "GpsWeek inverts fromGPS");
    sym_reach("end");
}
extern "C" void h_gps_tow()
{
    const int week = sym_i32("week"), ts = sym_i32("tow_s");
    sym_assume(week >= 0 && week < 8192 && ts >= 0 && ts < 604800);
    UTCTime t;
    t.sec = (int64_t)week * 604800 + ts + 315964800 + 18;
    t.nsec = sym_i64("nsec");
    sym_assume(t.nsec >= 0 && t.nsec < N);
    sym_assert(t.GpsWeek() == week, "GpsWeek");
    sym_assert_eq(t.GpsTow(), (double)ts + (double)t.nsec * 1e-9, 1e-12, "GpsTow");
    sym_assert_eq(t.toSec(), (double)t.sec + (double)t.nsec * 1e-9, 1e-12, "toSec");
    sym_reach("end");
}
extern "C" void h_glonass()
{
    const int week = sym_i32("week"), tow = sym_i32("tow_ms");
    sym_assume(week >= 0 && week < 8192 && tow >= 0 && tow < 604800000);
    const int ts = sym_i32("tow_s"), tms = sym_i32("tow_rem_ms"), day = sym_i32("day"), sod = sym_i32("sod");
    sym_assume(ts >= 0 && ts < 604800 && tms >= 0 && tms < 1000 && tow == ts * 1000 + tms);
    sym_assume(day >= 0 && day < 7 && sod >= 0 && sod < 86400 && ts == day * 86400 + sod);
    const UTCTime t = UTCTime::fromGlonass(week, tow);
    sym_assert(t.sec == (int64_t)week * 604800 + ts - 10800, "fromGlonass seconds");
    sym_assert(t.nsec == (int64_t)tms * 1000000, "fromGlonass milliseconds");
    sym_assert(t.GlonassWeek() == week, "GlonassWeek inverts fromGlonass");
    sym_assert(t.GlonassDayOfWeek() == day, "GlonassDayOfWeek");
    sym_reach("end");
}
// closest time to ref whose Moscow time of day is tod
extern "C" void h_glonass_tod()
{
    const int rweek = sym_i32("ref_week"), rdow = sym_i32("ref_day"), rsod = sym_i32("ref_sod");
    sym_assume(rweek >= 1 && rweek < 8191 && rdow >= 0 && rdow < 7 && rsod >= 0 && rsod < 86400);
    const int64_t rday = (int64_t)rweek * 7 + rdow;
    UTCTime ref;
    ref.sec = rday * 86400 + rsod - 10800;
    ref.nsec = sym_i64("ref_nsec");
    sym_assume(ref.nsec >= 0 && ref.nsec < N);
    const int ts = sym_i32("tod_s"), tms = sym_i32("tod_rem_ms");
    sym_assume(ts >= 0 && ts < 86400 && tms >= 0 && tms < 1000);
    sym_assert(ref.GlonassWeek() == rweek, "GlonassWeek");
    sym_assert(ref.GlonassDayOfWeek() == rdow, "GlonassDayOfWeek");
    const UTCTime t = UTCTime::fromGlonassTimeOfDay(ref, ts * 1000 + tms);
    sym_assert(t.nsec == (int64_t)tms * 1000000, "fromGlonassTimeOfDay milliseconds");
    const int64_t d0 = (rday - 1) * 86400 + ts - 10800;
    sym_assert(t.sec == d0 || t.sec == d0 + 86400 || t.sec == d0 + 2 * 86400, "fromGlonassTimeOfDay has the requested time of day");
    const int64_t ds = t.sec - ref.sec;
    sym_assert(ds >= -43201 && ds <= 43201, "fromGlonassTimeOfDay is the closest such time");
    sym_reach("end");
}
