// Satellite almanac and SatelliteManager (common/satellite/satellite.*, core/sat_manager.*)
#include <array>
#include <type_traits>
#include <limits>
#include <functional>
#include "sym.h"
#include "common/satellite/satellite.h"
#include "core/sat_manager.h"
using namespace mc;
using namespace mc::satellite;
using Gps = ephemeris::GPSEphemeris;
using Gal = ephemeris::GalileoEphemeris;
using Glo = ephemeris::GlonassEphemeris;
static const int64_t N = 1000000000;

static UTCTime anyTime()
{
    UTCTime t;
    t.sec = (int64_t)sym_u32("sec");
    t.nsec = 0;
    return t;
}
static bool before(const UTCTime& a, const UTCTime& b)
{
    return (a.sec < b.sec) | ((a.sec == b.sec) & (a.nsec < b.nsec));
}
static bool eq(const UTCTime& a, const UTCTime& b) { return (a.sec == b.sec) & (a.nsec == b.nsec); }
// |a - b| in seconds
static int64_t gap(const UTCTime& a, const UTCTime& b)
{
    const int64_t d = a.sec - b.sec;
    return d < 0 ? -d : d;
}

template <typename E>
static E make(int sat, const UTCTime& toe, uint8_t tag)
{
    E e(sat);
    e.toe = toe;
    e.iode = tag;
    return e;
}

// adding ephemerides in any order: the closest one is found
template <typename E, int K>
static void almanac(int gnss)
{
    UTCTime toe[K], t;
    uint8_t tag[K];
    for (int i = 0; i < K; ++i)
    {
        toe[i] = anyTime();
        tag[i] = sym_u8("iode") & 0x7f;
    }
    t = anyTime();
    Satellite<E> sat(gnss, 7);
    sym_assert(sat.gnssId() == gnss && sat.sat_num() == 7 && sat.almanacSize() == 0, "new satellite");
    int distinct = 0;
    for (int i = 0; i < K; ++i)
    {
        sym_assert(sat.addEph(make<E>(7, toe[i], tag[i])).ok(), "addEph succeeds");
        bool dup = false;
        for (int j = 0; j < i; ++j) dup = dup | eq(toe[i], toe[j]);
        distinct += !dup;
        sym_assert(sat.almanacSize() == distinct, "one almanac entry per reference time");
    }
    const E& f = sat.findClosestEphemeris(t);
    bool known = false;
    for (int i = 0; i < K; ++i)
    {
        bool last = eq(f.toe, toe[i]);
        for (int j = i + 1; j < K; ++j) last = last & !eq(toe[i], toe[j]);
        known = known | (last & (f.iode == tag[i]));
    }
    sym_assert(known, "the result is the ephemeris most recently received for its reference time");
    for (int i = 0; i < K; ++i)
    {
        sym_assert(gap(t, f.toe) <= gap(t, toe[i]), "no stored ephemeris is closer");
    }
    sym_reach("end");
}
extern "C" void h_alm_gps3() { almanac<Gps, 3>(GnssID::GPS); }
extern "C" void h_alm_gps4() { almanac<Gps, 4>(GnssID::GPS); }
extern "C" void h_alm_gal() { almanac<Gal, 2>(GnssID::Galileo); }
extern "C" void h_alm_glo() { almanac<Glo, 3>(GnssID::Glonass); }

// evenly spaced almanac of many entries, delivered in a rotated order
extern "C" void h_alm_nsec()
{
    // two reference times within seconds of each other, nanoseconds matter
    UTCTime toe[2], t;
    for (UTCTime* p : {&toe[0], &toe[1], &t})
    {
        p->sec = 1000000 + (sym_u8("sec") & 1);
        p->nsec = (int64_t)(sym_u8("nsec") & 15) * 66666666;
    }
    Satellite<Gps> sat(GnssID::GPS, 7);
    sat.addEph(make<Gps>(7, toe[0], 0));
    sat.addEph(make<Gps>(7, toe[1], 1));
    sym_assert(sat.almanacSize() == 2 - (int)eq(toe[0], toe[1]), "one almanac entry per reference time");
    const Gps& f = sat.findClosestEphemeris(t);
    const auto ns = [&](const UTCTime& x) {
        const int64_t d = (x.sec - t.sec) * N + (x.nsec - t.nsec);
        return d < 0 ? -d : d;
    };
    const int64_t g0 = ns(toe[0]), g1 = ns(toe[1]);
    sym_assert(eq(toe[0], toe[1]) | (g0 == g1) | (f.iode == (g1 < g0)), "no stored ephemeris is closer");
    sym_reach("end");
}
extern "C" void h_alm_long()
{
    const int K = 8;
    const int rot = sym_choice("rotation", 0, K - 1);
    const bool rev = sym_choice("reverse", 0, 1);
    UTCTime t = anyTime();
    Satellite<Gps> sat(GnssID::GPS, 7);
    const int gaps[K] = {0, 10, 7210, 7211, 14400, 20000, 20002, 99999};
    for (int i = 0; i < K; ++i)
    {
        const int k = rev ? (2 * K - 1 - i - rot) % K : (i + rot) % K;
        sat.addEph(make<Gps>(7, UTCTime((int64_t)(1000000 + gaps[k]), (int64_t)0), k));
    }
    sym_assert(sat.almanacSize() == K, "one almanac entry per reference time");
    const Gps& f = sat.findClosestEphemeris(t);
    sym_assert(f.toe.sec == 1000000 + gaps[f.iode], "entry keeps its data");
    for (int i = 0; i < K; ++i)
        sym_assert(gap(t, f.toe) <= gap(t, UTCTime((int64_t)(1000000 + gaps[i]), (int64_t)0)) , "no stored ephemeris is closer");
    sym_reach("end");
}
// an empty almanac, a foreign satellite or constellation are refused and change nothing
extern "C" void h_alm_refuse()
{
    Satellite<Gps> sat(GnssID::GPS, 7);
    const UTCTime toe = anyTime();
    const int other = sym_u8("sat");
    sym_assume(other != 7);
    const bool filled = sym_choice("filled", 0, 1);
    if (filled) sat.addEph(make<Gps>(7, toe, 1));
    const UTCTime toe2 = anyTime();
    const uint8_t g = sym_u8("gnss");
    sym_assume(g != GnssID::GPS);
    const int kind = sym_choice("kind", 0, 3);
    sym_assume(!filled | (kind < 2));
    sym_reach("end");
    switch (kind)
    {
    case 0:
        sat.addEph(make<Gps>(other, toe2, 2));
        break;
    case 1:
    {
        Gps e = make<Gps>(7, toe2, 2);
        e.gnssID = g;
        sat.addEph(e);
        break;
    }
    case 2:
        sat.findClosestEphemeris(toe);
        break;
    case 3:
        sat.carrierWavelength(0);
        break;
    }
    sym_assert(false, "refused");
}

struct Key
{
    int g, s;
    UTCTime toe;
};
static void feed(SatelliteManager& m, const Key& k, uint8_t tag)
{
    if (k.g == GnssID::GPS)
        m.ephCb(make<Gps>(k.s, k.toe, tag));
    else if (k.g == GnssID::Galileo)
        m.ephCb(make<Gal>(k.s, k.toe, tag));
    else
        m.ephCb(make<Glo>(k.s, k.toe, tag));
}
static int gnss(int c) { return c == 0 ? GnssID::GPS : c == 1 ? GnssID::Galileo : GnssID::Glonass; }

extern "C" void h_manager()
{
    const int K = 3;
    Key k[K];
    uint8_t tag[K];
    for (int i = 0; i < K; ++i)
    {
        k[i].s = sym_u8("sat");
        k[i].toe = anyTime();
        tag[i] = sym_u8("iode");
    }
    const int q = sym_i32("query");
    for (int i = 0; i < K; ++i) k[i].g = gnss(sym_choice("gnss", 0, i == 0 ? 2 : 1) + (i == 0 ? 0 : 0));
    SatelliteManager m;
    for (int i = 0; i < K; ++i) feed(m, k[i], tag[i]);
    const int g = gnss(sym_choice("query_gnss", 0, 2));
    const SatelliteBase* s = nullptr;
    const Error err = m.getSat(g, q, Out(s));
    bool have = false;
    int n = 0;
    for (int i = 0; i < K; ++i)
    {
        const bool mine = (k[i].g == g) & (k[i].s == q);
        have = have | mine;
        bool dup = false;
        for (int j = 0; j < i; ++j) dup = dup | ((k[j].g == g) & (k[j].s == q) & eq(k[j].toe, k[i].toe));
        n += mine & !dup;
    }
    sym_assert(err.ok() == have, "a satellite is found exactly when an ephemeris of it was received");
    if (err.ok())
    {
        sym_assert(s != nullptr && s->gnssId() == g && s->sat_num() == q, "the satellite found is the one requested");
        sym_assert(s->almanacSize() == n, "it holds one entry per reference time received for it");
    }
    sym_reach("end");
}
extern "C" void h_manager_other()
{
    SatelliteManager m;
    const int g = sym_i32("gnss"), s = sym_i32("sat");
    sym_assume((g != GnssID::GPS) & (g != GnssID::Galileo) & (g != GnssID::Glonass));
    m.ephCb(Gps(1));
    const SatelliteBase* p = nullptr;
    sym_assert(!m.getSat(g, s, Out(p)).ok(), "other constellations are refused");
    sym_reach("end");
}
// 29 satellites fit; one more replaces the one first seen and only that
template <typename E>
static void full(int g)
{
    const int extra = sym_u8("extra"), q = sym_i32("query");
    SatelliteManager m;
    for (int i = 0; i < 29; ++i) m.ephCb(E(i + 10));
    m.ephCb(E(extra));
    const bool isnew = (extra < 10) | (extra >= 39);
    const SatelliteBase* s = nullptr;
    const bool ok = m.getSat(g, q, Out(s)).ok();
    const bool orig = (q >= 10) & (q < 39);
    const bool want = (orig & !(isnew & (q == 10))) | (q == extra);
    sym_assert(ok == want, "a full manager forgets exactly the satellite first seen");
    if (ok) sym_assert(s->sat_num() == q && s->gnssId() == g, "the satellite found is the one requested");
    sym_reach("end");
}
extern "C" void h_full_gps() { full<Gps>(GnssID::GPS); }
extern "C" void h_full_gal() { full<Gal>(GnssID::Galileo); }
extern "C" void h_full_glo() { full<Glo>(GnssID::Glonass); }
