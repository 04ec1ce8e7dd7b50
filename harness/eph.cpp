// Broadcast ephemeris decoding: common/ephemeris/{gps,galileo,glonass}.*
#include <array>
#include <type_traits>
#include <cstring>
#include <cmath>
#include "sym.h"
#include "common/ephemeris/gps.h"
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "utils/crc.h"
#include "glosum.h"
using namespace mc;
using namespace mc::ephemeris;

// an MSB-first bit string kept as bytes
static inline uint64_t bitsOf(const uint8_t* b, int pos, int len)
{
    uint64_t r = 0;
    for (int k = pos; k < pos + len; ++k) r = (r << 1) | ((b[k >> 3] >> (7 - (k & 7))) & 1);
    return r;
}
static inline void put(uint8_t* b, int pos, int len, uint64_t v)
{
    for (int k = 0; k < len; ++k)
    {
        const int p = pos + k;
        const uint8_t m = (uint8_t)(1 << (7 - (p & 7)));
        b[p >> 3] = (uint8_t)((b[p >> 3] & ~m) | (((v >> (len - 1 - k)) & 1) ? m : 0));
    }
}
static inline double sgnd(const uint8_t* b, int pos, int len)
{
    const uint64_t v = bitsOf(b, pos, len);
    return (double)(((int64_t)(v << (64 - len))) >> (64 - len));
}
static inline double usgd(const uint8_t* b, int pos, int len) { return (double)(int64_t)bitsOf(b, pos, len); }
static inline double p2(int n)
{
    double r = 1;
    for (int i = 0; i < n; ++i) r *= 0.5;
    return r;
}
static const double SEMI = 3.1415926535898;   // value of pi fixed by the interface documents
// relative agreement of a decoded value with raw * scale
static void is(double v, double raw, double scale, double full, const char* m)
{
    // full: largest raw magnitude; the tolerance is far below one raw unit
    (void)full;
    sym_assert_eq(v * (1.0 / scale), raw, 1e-3, m);
}

//------------------------------------------------------------------ GPS
// ten 32-bit words, data in bits 29..6; data bit i of the subframe:
static void gpsData(const uint8_t* raw, uint8_t* d)
{
    memset(d, 0, 30);
    for (int w = 0; w < 10; ++w)
    {
        // bits 29..6 of the little-endian word, as three bytes
        const uint8_t* q = raw + 4 * w;
        d[3 * w + 0] = (uint8_t)((q[3] << 2) | (q[2] >> 6));
        d[3 * w + 1] = (uint8_t)((q[2] << 2) | (q[1] >> 6));
        d[3 * w + 2] = (uint8_t)((q[1] << 2) | (q[0] >> 6));
    }
}
// build the 40-byte message from 240 data bits and arbitrary parity/padding
static void gpsMsg(const char* n, uint8_t* raw, uint8_t* d, int id)
{
    sym_bytes(n, raw, 40);
    // fix the subframe id and preamble
    if (id >= 0)
    {
        // preamble 0x8b in data bits 0..7 of word 0: bits 29..22
        raw[3] = (uint8_t)((raw[3] & 0xc0) | (0x8b >> 2));
        raw[2] = (uint8_t)((raw[2] & 0x3f) | ((0x8b & 3) << 6));
        // id in data bits 43..45: word 1, data bits 19..21 of the word -> word bits 10..8
        raw[5] = (uint8_t)((raw[5] & 0xf8) | (id & 7));
    }
    gpsData(raw, d);
}
static void gpsFields(const GPSEphemeris& e, const uint8_t* f1, const uint8_t* f2, const uint8_t* f3)
{
    sym_assert(e.week == bitsOf(f1, 48, 10) + 2048, "GPS week");
    sym_assert(e.code_on_L2 == bitsOf(f1, 58, 2), "GPS code on L2");
    sym_assert(e.ura == bitsOf(f1, 60, 4), "GPS URA");
    sym_assert(e.health == bitsOf(f1, 64, 6), "GPS health");
    sym_assert(e.L2_P_data_flag == bitsOf(f1, 72, 1), "GPS L2 P flag");
    sym_assert(e.iodc == ((bitsOf(f1, 70, 2) << 8) | bitsOf(f1, 168, 8)), "GPS IODC");
    sym_assert(e.iode == bitsOf(f2, 48, 8), "GPS IODE");
    const uint64_t tg = bitsOf(f1, 160, 8);
    is(e.tgd, tg == 0x80 ? 0.0 : sgnd(f1, 160, 8), p2(31), 128, "GPS group delay");
    sym_assert(e.tocs == 16 * bitsOf(f1, 176, 16), "GPS clock reference time");
    is(e.af2, sgnd(f1, 192, 8), p2(55), 128, "GPS af2");
    is(e.af1, sgnd(f1, 200, 16), p2(43), 32768, "GPS af1");
    is(e.af0, sgnd(f1, 216, 22), p2(31), 1 << 21, "GPS af0");
    is(e.crs, sgnd(f2, 56, 16), p2(5), 32768, "GPS Crs");
    is(e.delta_n, sgnd(f2, 72, 16), p2(43) * SEMI, 32768, "GPS delta n");
    is(e.m0, sgnd(f2, 88, 32), p2(31) * SEMI, 2147483648., "GPS M0");
    is(e.cuc, sgnd(f2, 120, 16), p2(29), 32768, "GPS Cuc");
    is(e.ecc, usgd(f2, 136, 32), p2(33), 4294967296., "GPS eccentricity");
    is(e.cus, sgnd(f2, 168, 16), p2(29), 32768, "GPS Cus");
    is(e.sqrta, usgd(f2, 184, 32), p2(19), 4294967296., "GPS sqrt A");
    sym_assert(e.toes == 16 * bitsOf(f2, 216, 16), "GPS ephemeris reference time");
    sym_assert(e.fit_interval_flag == (bitsOf(f2, 232, 1) ? 0 : 4), "GPS fit interval");
    is(e.cic, sgnd(f3, 48, 16), p2(29), 32768, "GPS Cic");
    is(e.omega0, sgnd(f3, 64, 32), p2(31) * SEMI, 2147483648., "GPS Omega0");
    is(e.cis, sgnd(f3, 96, 16), p2(29), 32768, "GPS Cis");
    is(e.i0, sgnd(f3, 112, 32), p2(31) * SEMI, 2147483648., "GPS i0");
    is(e.crc, sgnd(f3, 144, 16), p2(5), 32768, "GPS Crc");
    is(e.w, sgnd(f3, 160, 32), p2(31) * SEMI, 2147483648., "GPS omega");
    is(e.omegadot, sgnd(f3, 192, 24), p2(43) * SEMI, 8388608, "GPS Omega dot");
    is(e.idot, sgnd(f3, 224, 14), p2(43) * SEMI, 8192, "GPS I dot");
}
static void gpsTimes(const GPSEphemeris& e, const uint8_t* f1, const uint8_t* f2)
{
    const int64_t wk = (int64_t)(bitsOf(f1, 48, 10) + 2048) * 604800 + 315964800 + 18;
    sym_assert(e.toe.sec == wk + 16 * (int64_t)bitsOf(f2, 216, 16) && e.toe.nsec == 0, "GPS toe");
    sym_assert(e.toc.sec == wk + 16 * (int64_t)bitsOf(f1, 176, 16) && e.toc.nsec == 0, "GPS toc");
}
// the three subframes in any order, arbitrary contents
extern "C" void h_gps_fields()
{
    static const int ORD[6][3] = {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}};
    const int o = sym_choice("order", 0, 5);
    uint8_t m[3][40], d[4][30];
    for (int k = 0; k < 3; ++k)
    {
        const int id = ORD[o][k];
        gpsMsg(id == 1 ? "f1" : id == 2 ? "f2" : "f3", m[k], d[id], id);
    }
    const uint64_t a = bitsOf(d[1], 168, 8), b = bitsOf(d[2], 48, 8), c = bitsOf(d[3], 216, 8);
    // week and reference times that fit the calendar
    sym_assume(bitsOf(d[2], 216, 16) < 37800 && bitsOf(d[1], 176, 16) < 37800);
    GPSEphemeris e(7);
    sym_assert(!e.parse(m[0], 40), "GPS incomplete after one subframe");
    sym_assert(!e.parse(m[1], 40), "GPS incomplete after two subframes");
    const bool r = e.parse(m[2], 40);
    sym_assert(r == (a == b && a == c), "GPS complete exactly when the issues of data agree");
    sym_assert(e.sat == 7 && e.gnssID == GnssID::GPS, "GPS satellite identity");
    if (r)
    {
        gpsFields(e, d[1], d[2], d[3]);
        gpsTimes(e, d[1], d[2]);
    }
    sym_reach("end");
}
// histories: whenever the parser reports a complete ephemeris, the latest
// subframes 1..3 carry one issue of data, and a short message or another
// subframe id changes nothing
template <int N>
static void gpsHistory()
{
    GPSEphemeris e(7);
    uint8_t m[40], d[30], last[4][30];
    bool have[4] = {false, false, false, false};
    static const char* NM[6] = {"m0", "m1", "m2", "m3", "m4", "m5"};
    for (int k = 0; k < N; ++k)
    {
        const int id = sym_choice("id", 0, 3);
        gpsMsg(NM[k], m, d, id == 0 ? 4 : id);
        if (id == 1) sym_assume(bitsOf(d, 176, 16) < 37800);
        if (id == 2) sym_assume(bitsOf(d, 216, 16) < 37800);
        const bool r = e.parse(m, 40);
        if (id == 0)
        {
            sym_assert(!r, "GPS other subframes never complete an ephemeris");
            continue;
        }
        memcpy(last[id], d, 30);
        have[id] = true;
        if (r)
        {
            sym_assert(have[1] && have[2] && have[3], "GPS complete only after subframes 1, 2 and 3");
            if (have[1] && have[2] && have[3])
            {
                sym_assert(bitsOf(last[1], 168, 8) == bitsOf(last[2], 48, 8) && bitsOf(last[1], 168, 8) == bitsOf(last[3], 216, 8),
                           "GPS complete only with one issue of data");
                gpsTimes(e, last[1], last[2]);
            }
        }
    }
    sym_reach("end");
}
extern "C" void h_gps_history4() { gpsHistory<4>(); }
extern "C" void h_gps_history5() { gpsHistory<5>(); }
// truncated messages and wrong preambles
extern "C" void h_gps_reject()
{
    uint8_t m[40], d[30];
    const int n = sym_choice("size", 0, 39);
    sym_bytes("m", m, n);
    GPSEphemeris e(7);
    sym_assert(!e.parse(m, n), "GPS short message rejected");
    sym_bytes("full", m, 40);
    gpsData(m, d);
    sym_assume(d[0] != 0x8b);
    sym_assert(!e.parse(m, 40), "GPS wrong preamble rejected");
    sym_reach("end");
}

//------------------------------------------------------------------ Galileo
// page pair as 16 + 16 bytes MSB first; words are little-endian in the message
static void galSwap(const uint8_t* b, uint8_t* msg)
{
    for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 4; ++j) msg[4 * i + j] = b[4 * i + 3 - j];
}
static uint32_t galCrc(const uint8_t* b)
{
    // 196 bits: even page bits 0..113, odd page bits 0..81, right aligned in 25 bytes
    uint8_t c[25];
    for (int i = 0; i < 25; ++i) c[i] = 0;
    for (int k = 0; k < 114; ++k) c[(4 + k) >> 3] |= (uint8_t)(((b[k >> 3] >> (7 - (k & 7))) & 1) << (7 - ((4 + k) & 7)));
    for (int k = 0; k < 82; ++k)
    {
        const int s = 128 + k, q = 118 + k;
        c[q >> 3] |= (uint8_t)(((b[s >> 3] >> (7 - (s & 7))) & 1) << (7 - (q & 7)));
    }
    return utils::crc24(c, 25);
}
// a correct page of the given type; w: its 128 data bits (last 16 from the odd
// page); alt: same with the last 16 bits as the current implementation takes
// them (a known finding)
static void galPage(const char* n, int type, uint8_t* msg, uint8_t* w, uint8_t* alt, bool good = true)
{
    uint8_t b[32];
    sym_bytes(n, b, 32);
    b[0] = (uint8_t)(type & 0x3f);                 // even, nominal, type
    b[16] = (uint8_t)(0x80 | (b[16] & 0x3f));      // odd, nominal
    if (good) put(b, 128 + 82, 24, galCrc(b));
    else sym_assume(bitsOf(b, 128 + 82, 24) != galCrc(b));
    galSwap(b, msg);
    for (int k = 0; k < 14; ++k) w[k] = alt[k] = (uint8_t)((b[k] << 2) | (b[k + 1] >> 6));
    for (int k = 0; k < 2; ++k)
    {
        w[14 + k] = (uint8_t)((b[16 + k] << 2) | (b[17 + k] >> 6));
        alt[14 + k] = (uint8_t)((b[29 + k] << 2) | (b[30 + k] >> 6));
    }
}
static void near2(double v, double raw, double raw2, double scale, const char* m)
{
    const double x = v * (1.0 / scale);
    const double d1 = x - raw, d2 = x - raw2;
    sym_assert((d1 < 1e-3 && d1 > -1e-3) | (d2 < 1e-3 && d2 > -1e-3), m);
}
typedef uint8_t Word[16];
// fields that lie in the even page
static void galFields(const GalileoEphemeris& e, const Word* w)
{
    sym_assert(e.iode == (uint8_t)bitsOf(w[1], 6, 10) && e.iodc == bitsOf(w[1], 6, 10), "Galileo issue of data");
    sym_assert(e.toes == 60 * bitsOf(w[1], 16, 14), "Galileo ephemeris reference time");
    is(e.m0, sgnd(w[1], 30, 32), p2(31) * SEMI, 0, "Galileo M0");
    is(e.ecc, usgd(w[1], 62, 32), p2(33), 0, "Galileo eccentricity");
    is(e.omega0, sgnd(w[2], 16, 32), p2(31) * SEMI, 0, "Galileo Omega0");
    is(e.i0, sgnd(w[2], 48, 32), p2(31) * SEMI, 0, "Galileo i0");
    is(e.w, sgnd(w[2], 80, 32), p2(31) * SEMI, 0, "Galileo omega");
    is(e.omegadot, sgnd(w[3], 16, 24), p2(43) * SEMI, 0, "Galileo Omega dot");
    is(e.delta_n, sgnd(w[3], 40, 16), p2(43) * SEMI, 0, "Galileo delta n");
    is(e.cuc, sgnd(w[3], 56, 16), p2(29), 0, "Galileo Cuc");
    is(e.cus, sgnd(w[3], 72, 16), p2(29), 0, "Galileo Cus");
    is(e.crc, sgnd(w[3], 88, 16), p2(5), 0, "Galileo Crc");
    is(e.cic, sgnd(w[4], 22, 16), p2(29), 0, "Galileo Cic");
    is(e.cis, sgnd(w[4], 38, 16), p2(29), 0, "Galileo Cis");
    sym_assert(e.tocs == 60 * bitsOf(w[4], 54, 14), "Galileo clock reference time");
    is(e.af0, sgnd(w[4], 68, 31), p2(34), 0, "Galileo af0");
    is(e.bgd_e1_e5a, sgnd(w[5], 47, 10), p2(32), 0, "Galileo BGD E1 E5a");
    is(e.bgd_e1_e5b, sgnd(w[5], 57, 10), p2(32), 0, "Galileo BGD E1 E5b");
    sym_assert(e.e5b_hs == bitsOf(w[5], 67, 2) && e.e1b_hs == bitsOf(w[5], 69, 2), "Galileo signal health");
    sym_assert(e.e5b_dvs == bitsOf(w[5], 71, 1) && e.e1b_dvs == bitsOf(w[5], 72, 1), "Galileo data validity");
}
// fields that extend into the odd page
static void galTail(const GalileoEphemeris& e, const Word* w, const Word* a)
{
    near2(e.sqrta, usgd(w[1], 94, 32), usgd(a[1], 94, 32), p2(19), "Galileo sqrt A");
    near2(e.idot, sgnd(w[2], 112, 14), sgnd(a[2], 112, 14), p2(43) * SEMI, "Galileo i dot");
    near2(e.crs, sgnd(w[3], 104, 16), sgnd(a[3], 104, 16), p2(5), "Galileo Crs");
    near2(e.af1, sgnd(w[4], 99, 21), sgnd(a[4], 99, 21), p2(46), "Galileo af1");
    near2(e.af2, sgnd(w[4], 120, 6), sgnd(a[4], 120, 6), p2(59), "Galileo af2");
    sym_assert((e.tow == bitsOf(w[0], 108, 20)) | (e.tow == bitsOf(a[0], 108, 20)), "Galileo time of week");
}
static int64_t galWeek(const GalileoEphemeris& e, const Word* w)
{
    int64_t wk = (int64_t)bitsOf(w[0], 96, 12);
    const int64_t toes = 60 * (int64_t)bitsOf(w[1], 16, 14), tocs = 60 * (int64_t)bitsOf(w[4], 54, 14), tow = e.tow;
    if (toes - tow > 302400) wk -= 1;
    else if (toes - tow < -302400) wk += 1;
    wk += 1024;
    sym_assert(e.week == wk, "Galileo week");
    return wk;
}
static void galTimes(const GalileoEphemeris& e, const Word* w)
{
    const int64_t toes = 60 * (int64_t)bitsOf(w[1], 16, 14), tocs = 60 * (int64_t)bitsOf(w[4], 54, 14);
    const int64_t wk = galWeek(e, w);
    const int64_t s = wk * 604800 + 315964800 + 18;
    sym_assert(e.toe.sec == s + toes && e.toe.nsec == 0, "Galileo toe");
    sym_assert(e.toc.sec == s + tocs && e.toc.nsec == 0, "Galileo toc");
}
static void galAssume(int type, const uint8_t* w, bool svid)
{
    if (type == 4 && svid) sym_assume(bitsOf(w, 16, 6) == 19);
    if (type == 0) sym_assume(bitsOf(w, 96, 12) >= 1 && bitsOf(w, 96, 12) < 4000);
}
static const char* GNM[9] = {"p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8"};
// the six words in the order of transmission
extern "C" void h_gal_fields()
{
    static const int ORD[6] = {2, 4, 1, 3, 5, 0};
    uint8_t msg[32];
    Word w[7], a[7];
    GalileoEphemeris e(19);
    bool r = false;
    for (int k = 0; k < 6; ++k)
    {
        const int t = ORD[k];
        galPage(GNM[t], t, msg, w[t], a[t]);
        galAssume(t, w[t], true);
        r = e.parse(msg, 32);
        if (k < 5) sym_assert(!r, "Galileo incomplete before the sixth word");
    }
    const uint64_t i1 = bitsOf(w[1], 6, 10);
    const bool same = i1 == bitsOf(w[2], 6, 10) && i1 == bitsOf(w[3], 6, 10) && i1 == bitsOf(w[4], 6, 10);
    sym_assert(r == same, "Galileo complete exactly when the issues of data agree");
    sym_assert(e.sat == 19 && e.gnssID == GnssID::Galileo, "Galileo satellite identity");
    if (r)
    {
        galFields(e, w);
        galTail(e, w, a);
        galTimes(e, w);
    }
    sym_reach("end");
}
// the last 16 data bits of a word come from the start of the odd page
extern "C" void h_gal_odd()
{
    static const int ORD[6] = {2, 4, 1, 3, 5, 0};
    uint8_t msg[32];
    Word w[7], a[7];
    GalileoEphemeris e(19);
    bool r = false;
    for (int k = 0; k < 6; ++k)
    {
        const int t = ORD[k];
        galPage(GNM[t], t, msg, w[t], a[t]);
        galAssume(t, w[t], true);
        r = e.parse(msg, 32);
    }
    if (r) sym_assert_eq(e.sqrta * (1.0 / p2(19)), usgd(w[1], 94, 32), 1e-3, "Galileo data bits 112..127 are the first 16 data bits of the odd page");
    sym_reach("end");
}
// one more page of any type anywhere in the sequence
static void galHistory(int tail)
{
    static const int ORD[6] = {2, 4, 1, 3, 5, 0};
    uint8_t msg[6][32], xmsg[32];
    Word dw[6], da[6], w[7], xw, xa;
    bool have[7] = {false, false, false, false, false, false, false};
    for (int k = 0; k < 6; ++k)
    {
        galPage(GNM[k], ORD[k], msg[k], dw[k], da[k]);
        galAssume(ORD[k], dw[k], true);
    }
    // kind 0: any page with a correct CRC; kind 1: with a wrong one
    const int xt = sym_choice("type", 0, 6), kind = sym_choice("kind", 0, 1);
    galPage("px", xt, xmsg, xw, xa, kind == 0);
    galAssume(xt, xw, false);
    GalileoEphemeris e(19);
    const int at = tail ? 6 : sym_choice("at", 0, 5);
    for (int k = 0; k < 7; ++k)
    {
        const bool extra = k == at;
        const int j = k < at ? k : k - 1;
        const int t = extra ? xt : ORD[j];
        const bool r = e.parse(extra ? xmsg : msg[j], 32);
        const bool ignored = extra && (kind == 1 || t > 5 || (t == 4 && bitsOf(xw, 16, 6) != 19));
        if (ignored && t != 4) sym_assert(!r, "Galileo pages with a wrong CRC or of other types never complete an ephemeris");
        if (!ignored)
        {
            if (t == 2)
                for (int q = 0; q < 6; ++q) have[q] = false;
            have[t] = true;
            for (int q = 0; q < 16; ++q) w[t][q] = extra ? xw[q] : dw[j][q];
        }
        if (r)
        {
            const bool all = have[0] && have[1] && have[2] && have[3] && have[4] && have[5];
            sym_assert(all, "Galileo complete only after words 0 to 5");
            if (all)
            {
                const uint64_t i1 = bitsOf(w[1], 6, 10);
                sym_assert((i1 == bitsOf(w[2], 6, 10)) & (i1 == bitsOf(w[3], 6, 10)) & (i1 == bitsOf(w[4], 6, 10)),
                           "Galileo complete only with one issue of data");
                galWeek(e, w);
                sym_assert(e.toes == 60 * bitsOf(w[1], 16, 14), "Galileo ephemeris reference time is that of the accepted word 1");
                is(e.cis, sgnd(w[4], 38, 16), p2(29), 0, "Galileo Cis is that of the accepted word 4");
            }
        }
    }
    sym_reach("end");
}
extern "C" void h_gal_extra() { galHistory(0); }
extern "C" void h_gal_after() { galHistory(1); }
// alert pages, swapped halves, short pages
extern "C" void h_gal_reject()
{
    uint8_t msg[32], b[32];
    GalileoEphemeris e(19);
    const int n = sym_choice("size", 0, 31);
    sym_bytes("m", msg, n);
    sym_assert(!e.parse(msg, n), "Galileo short page rejected");
    sym_bytes("b", b, 32);
    sym_assume((b[0] >> 6) != 0 || (b[16] >> 6) != 2);
    galSwap(b, msg);
    sym_assert(!e.parse(msg, 32), "Galileo alert or misordered page rejected");
    sym_assert(e.collected_subframes == 0, "Galileo rejected page leaves nothing");
    sym_reach("end");
}

//------------------------------------------------------------------ GLONASS
static double sm(const uint8_t* b, int pos, int len)
{
    const double v = (double)(int64_t)bitsOf(b, pos + 1, len - 1);
    return bitsOf(b, pos, 1) ? -v : v;
}
// string number id of the super-frame, MSB-first, with its check bits
static void gloString(const char* n, int id, uint8_t* b)
{
    sym_bytes(n, b, 16);
    b[0] = (uint8_t)((b[0] & 0x87) | (id << 3));
    encodeSums(b);
}
// the message: little-endian words; mark: super-frame counter
static void gloMsg(uint8_t* msg, uint8_t* b, int mark)
{
    b[12] = (uint8_t)(mark >> 8);
    b[13] = (uint8_t)mark;
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j) msg[4 * i + j] = b[4 * i + 3 - j];
}
static void gloFields(const GlonassEphemeris& e, uint8_t (*s)[16])
{
    is(e.vel.x(), sm(s[1], 21, 24), p2(20) * 1e3, 0, "GLONASS x velocity");
    is(e.acc.x(), sm(s[1], 45, 5), p2(30) * 1e3, 0, "GLONASS x acceleration");
    is(e.pos.x(), sm(s[1], 50, 27), p2(11) * 1e3, 0, "GLONASS x position");
    is(e.vel.y(), sm(s[2], 21, 24), p2(20) * 1e3, 0, "GLONASS y velocity");
    is(e.acc.y(), sm(s[2], 45, 5), p2(30) * 1e3, 0, "GLONASS y acceleration");
    is(e.pos.y(), sm(s[2], 50, 27), p2(11) * 1e3, 0, "GLONASS y position");
    is(e.vel.z(), sm(s[3], 21, 24), p2(20) * 1e3, 0, "GLONASS z velocity");
    is(e.acc.z(), sm(s[3], 45, 5), p2(30) * 1e3, 0, "GLONASS z acceleration");
    is(e.pos.z(), sm(s[3], 50, 27), p2(11) * 1e3, 0, "GLONASS z position");
    is(e.gamn, sm(s[3], 6, 11), p2(40), 0, "GLONASS frequency bias");
    is(e.taun, sm(s[4], 5, 22), p2(30), 0, "GLONASS clock bias");
    is(e.dtaun, sm(s[4], 27, 5), p2(30), 0, "GLONASS L1/L2 delay");
    sym_assert(e.svh == (int)bitsOf(s[2], 5, 3), "GLONASS health");
    sym_assert(e.iode == (int)bitsOf(s[2], 9, 7), "GLONASS issue of data");
    sym_assert(e.age == (int)bitsOf(s[4], 32, 5), "GLONASS age");
    sym_assert(e.sva == (int)bitsOf(s[4], 52, 4), "GLONASS accuracy");
    sym_assert(e.slot == (int)bitsOf(s[4], 70, 5), "GLONASS slot");
}
static void gloTimes(const GlonassEphemeris& e, uint8_t (*s)[16])
{
    const int64_t N4 = (int64_t)bitsOf(s[5], 49, 5), NT = (int64_t)bitsOf(s[4], 59, 11);
    const int64_t day = 820454400 + (N4 - 1) * (1461 * 86400) + (NT - 1) * 86400 - 10800;
    sym_assert(e.toe.sec == day + 900 * (int64_t)bitsOf(s[2], 9, 7) && e.toe.nsec == 0, "GLONASS toe");
    sym_assert(e.tof.sec == day + 3600 * (int64_t)bitsOf(s[1], 9, 5) + 60 * (int64_t)bitsOf(s[1], 14, 6) + 30 * (int64_t)bitsOf(s[1], 20, 1) && e.tof.nsec == 0,
               "GLONASS frame time");
}
static void gloAssume(int id, const uint8_t* b)
{
    if (id == 5) sym_assume((bitsOf(b, 49, 5) >= 1) & (bitsOf(b, 49, 5) < 18));
    if (id == 4) sym_assume((bitsOf(b, 59, 11) >= 1) & (bitsOf(b, 59, 11) <= 1461));
}
// sign bits of the sign-magnitude fields of a string
static void gloPositive(int id, const uint8_t* b)
{
    if (id <= 3) sym_assume((bitsOf(b, 21, 1) | bitsOf(b, 45, 1) | bitsOf(b, 50, 1)) == 0);
    if (id == 3) sym_assume(bitsOf(b, 6, 1) == 0);
    if (id == 4) sym_assume((bitsOf(b, 5, 1) | bitsOf(b, 27, 1)) == 0);
}
static const char* SNM[8] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7"};
extern "C" void h_glo_fields()
{
    uint8_t msg[16], s[6][16];
    for (int id = 1; id <= 5; ++id)
    {
        gloString(SNM[id], id, s[id]);
        gloAssume(id, s[id]);
    }
    // the first four strings in a chosen rotation, then the fifth
    // (both signs in one string at a time)
    const int rot = sym_choice("rot", 0, 3), any = rot ? 0 : sym_choice("any_sign", 1, 4), mark = 0x1234;
    for (int id = 1; id <= 5; ++id)
        if (id != any) gloPositive(id, s[id]);
    GlonassEphemeris e(4);
    bool r = false;
    for (int k = 0; k < 5; ++k)
    {
        const int id = k == 4 ? 5 : 1 + (k + rot) % 4;
        gloMsg(msg, s[id], mark);
        r = e.parse(msg, 16);
        if (k < 4) sym_assert(!r, "GLONASS incomplete before the fifth string");
    }
    sym_assert(r, "GLONASS complete after five strings of one super-frame");
    sym_assert(e.sat == 4 && e.gnssID == GnssID::Glonass, "GLONASS satellite identity");
    if (r)
    {
        gloFields(e, s);
        if (any <= 1) gloTimes(e, s);
    }
    sym_reach("end");
}
// histories of six strings: one super-frame change, one damaged string, one
// string in place of another
extern "C" void h_glo_history()
{
    GlonassEphemeris e(4);
    uint8_t msg[16], s[6][16], b[6][16];
    bool have[6] = {false, false, false, false, false, false};
    int cur = -1;
    const int fifth = sym_choice("fifth", 1, 5);
    int id[6] = {1, 2, 3, 4, fifth, 5};
    for (int k = 0; k < 6; ++k)
    {
        gloString(SNM[k], id[k], b[k]);
        gloAssume(id[k], b[k]);
        gloPositive(id[k], b[k]);
    }
    // any two different super-frame marks
    const int m1 = sym_i32("mark"), m2 = sym_i32("mark");
    sym_assume((m1 >= 0) & (m1 < 65536) & (m2 >= 0) & (m2 < 65536) & (m1 != m2));
    const int chg = sym_choice("change_at", 1, 6), skip = sym_choice("bad_at", 0, 6);
    for (int k = 0; k < 6; ++k)
    {
        const bool first = k < chg;
        const int mark = first ? m1 : m2;
        if (k == skip) b[k][(85 - 20) >> 3] ^= (uint8_t)(1 << (7 - ((85 - 20) & 7)));
        gloMsg(msg, b[k], mark);
        const bool r = e.parse(msg, 16);
        if (k != skip)
        {
            if (first != (cur == 1))
                for (int q = 0; q < 6; ++q) have[q] = false;
            cur = first;
            have[id[k]] = true;
            memcpy(s[id[k]], b[k], 16);
        }
        const bool all = have[1] && have[2] && have[3] && have[4] && have[5];
        if (r)
        {
            sym_assert(k != skip, "GLONASS string that fails the check is ignored");
            sym_assert(all && id[k] == 5, "GLONASS complete only on string five of a full super-frame");
            if (all && fifth == 5 && skip == 6) gloTimes(e, s);
        }
        else sym_assert(!(all && id[k] == 5 && k != skip), "GLONASS complete on string five of a full super-frame");
    }
    sym_reach("end");
}
extern "C" void h_glo_reject()
{
    uint8_t msg[16];
    GlonassEphemeris e(4);
    const int n = sym_choice("size", 0, 15);
    sym_bytes("m", msg, n);
    sym_assert(!e.parse(msg, n), "GLONASS short string rejected");
    sym_reach("end");
}
extern "C" void h_wavelength()
{
    const double c = 299792458.0;
    GPSEphemeris g(1);
    sym_assert_eq(g.getWavelength(GPSEphemeris::L1) * 1.57542e9, c, 1e-3, "GPS L1 wavelength");
    sym_assert_eq(g.getWavelength(GPSEphemeris::L2) * 1.2276e9, c, 1e-3, "GPS L2 wavelength");
    sym_assert_eq(g.getWavelength(GPSEphemeris::L5) * 1.17645e9, c, 1e-3, "GPS L5 wavelength");
    GalileoEphemeris l(1);
    sym_assert_eq(l.getWavelength(GalileoEphemeris::E1) * 1.57542e9, c, 1e-3, "Galileo E1 wavelength");
    sym_assert_eq(l.getWavelength(GalileoEphemeris::E5a) * 1.17645e9, c, 1e-3, "Galileo E5a wavelength");
    sym_assert_eq(l.getWavelength(GalileoEphemeris::E5b) * 1.20714e9, c, 1e-3, "Galileo E5b wavelength");
    sym_assert_eq(l.getWavelength(GalileoEphemeris::E5ab) * 1.191795e9, c, 1e-3, "Galileo E5ab wavelength");
    sym_assert_eq(l.getWavelength(GalileoEphemeris::E6) * 1.27875e9, c, 1e-3, "Galileo E6 wavelength");
    GlonassEphemeris o(1);
    o.slot = sym_i32("slot");
    sym_assume(o.slot >= -7 && o.slot <= 31);
    const double k = o.slot;
    sym_assert_eq(o.getWavelength(GlonassEphemeris::L1) * (1602.0e6 + 0.5625e6 * k), c, 1e-3, "GLONASS L1 wavelength");
    sym_assert_eq(o.getWavelength(GlonassEphemeris::L2) * (1246.0e6 + 0.4375e6 * k), c, 1e-3, "GLONASS L2 wavelength");
    sym_reach("end");
}
