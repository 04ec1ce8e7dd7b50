// Log records (common/logging/serialize.*)
#include <array>
#include <cstring>
#include <cmath>
#include <limits>
#include <functional>
#include <type_traits>
#include <sstream>
#include "sym.h"
#include "common/ephemeris/galileo.h"
#include "common/ephemeris/glonass.h"
#include "common/ephemeris/gps.h"
#include "common/math/dquat.h"
#include "common/math/jet.h"
#include "common/math/quat.h"
#include "common/math/two_jet.h"
#include "common/measurements/gnss_observation.h"
#include "common/measurements/imu.h"
#include "common/quantized_time.h"
#include "common/utctime.h"
#include "common/logging/serialize.h"
using namespace mc;
using namespace mc::ephemeris;

#ifdef SYM_ENCODING
struct File
{
    char buf[2048];
    long n = 0, r = 0;
    std::ostream& out() { return *reinterpret_cast<std::ostream*>(this); }
    std::istream& in() { return *reinterpret_cast<std::istream*>(this); }
    bool over() { return r == n; }
};
// the two stream operations used
extern "C" void* fileWrite(void* p, const char* s, long k) __asm__("_ZNSo5writeEPKcl");
extern "C" void* fileRead(void* p, char* s, long k) __asm__("_ZNSi4readEPcl");
void* fileWrite(void* p, const char* s, long k)
{
    File* f = static_cast<File*>(p);
    memcpy(f->buf + f->n, s, k);
    f->n += k;
    return p;
}
void* fileRead(void* p, char* s, long k)
{
    File* f = static_cast<File*>(p);
    memcpy(s, f->buf + f->r, k);
    f->r += k;
    return p;
}
#else
struct File
{
    std::stringstream s;
    std::ostream& out() { return s; }
    std::istream& in() { return s; }
    bool over() { return s.good() && s.tellg() == s.tellp(); }
};
#endif

// one field: any value in, the same value out
static void fill(double& x)
{
    const uint64_t b = sym_i64("f");
    std::memcpy(&x, &b, 8);
}
static void fill(int& x) { x = sym_i32("i"); }
static void fill(int64_t& x) { x = sym_i64("l"); }
static void fill(uint32_t& x) { x = sym_u32("u"); }
static void fill(uint16_t& x) { x = sym_u16("h"); }
static void fill(uint8_t& x) { x = sym_u8("b"); }
static void fill(UTCTime& t)
{
    fill(t.sec);
    fill(t.nsec);
}
static void fill(QuantizedTime& t)
{
    fill(t.sec);
    fill(t.nsec);
}
template <typename D>
static void fill(Eigen::MatrixBase<D>& v)
{
    for (int i = 0; i < v.size(); ++i) fill(v.derived().data()[i]);
}
template <typename T>
static void same(const T& a, const T& b, const char* m)
{
    sym_assert(std::memcmp(&a, &b, sizeof(T)) == 0, m);
}
static void same(const double& a, const double& b, const char* m)
{
    uint64_t x, y;
    std::memcpy(&x, &a, 8);
    std::memcpy(&y, &b, 8);
    sym_assert(x == y, m);
}
static void same(const UTCTime& a, const UTCTime& b, const char* m) { sym_assert((a.sec == b.sec) & (a.nsec == b.nsec), m); }
static void same(const QuantizedTime& a, const QuantizedTime& b, const char* m) { sym_assert((a.sec == b.sec) & (a.nsec == b.nsec), m); }
static void same(const Vec3& a, const Vec3& b, const char* m)
{
    for (int i = 0; i < 3; ++i) same(a(i), b(i), m);
}

#define FILL(f) fill(in.f);
#define SAME(f) same(out.f, in.f, #f);
#define RECORD(T, FIELDS)                                        \
    static void fillAll(T& in) { FIELDS(FILL) }                  \
    static void sameAll(const T& out, const T& in) { FIELDS(SAME) }

#define GNSS(F) F(t) F(gnss_id) F(sat_num) F(freq) F(pseudorange) F(doppler) F(carrier_phase)
#define IMU(F) F(t) F(accel) F(gyro)
#define EPH(F) F(gnssID) F(sat) F(toe)
#define KEP(F) EPH(F) F(toc) F(tow) F(iodc) F(iode) F(week) F(toes) F(tocs) F(af2) F(af1) F(af0) F(m0) F(delta_n) F(ecc) F(sqrta) F(omega0) F(i0) \
    F(w) F(omegadot) F(idot) F(cuc) F(cus) F(crc) F(crs) F(cic) F(cis)
#define GPS(F) KEP(F) F(health) F(alert_flag) F(anti_spoof) F(code_on_L2) F(ura) F(L2_P_data_flag) F(fit_interval_flag) F(age_of_data_offset) F(tgd)
#define GAL(F) KEP(F) F(ai0) F(ai1) F(ai2) F(bgd_e1_e5a) F(bgd_e1_e5b) F(e5b_hs) F(e1b_hs) F(e5b_dvs) F(e1b_dvs)
#define GLO(F) EPH(F) F(iode) F(slot) F(svh) F(sva) F(age) F(tof) F(pos) F(vel) F(acc) F(taun) F(gamn) F(dtaun)
#define TIME(F) F(sec) F(nsec)
RECORD(meas::GnssObservation, GNSS)
RECORD(meas::ImuSample, IMU)
RECORD(GPSEphemeris, GPS)
RECORD(GalileoEphemeris, GAL)
RECORD(GlonassEphemeris, GLO)
RECORD(UTCTime, TIME)
RECORD(QuantizedTime, TIME)

// two stamped records and a sentinel
template <typename T>
static void roundTrip()
{
    T a[2], b[2];
    UTCTime t[2], q[2];
    const uint32_t mark = sym_u32("mark");
    uint32_t got = 0;
    File f;
    for (int i = 0; i < 2; ++i)
    {
        fillAll(a[i]);
        fill(t[i]);
        logging::log(f.out(), t[i], a[i]);
    }
    logging::log(f.out(), mark);
    for (int i = 0; i < 2; ++i)
    {
        logging::read(f.in(), q[i], b[i]);
        same(q[i], t[i], "stamp");
        sameAll(b[i], a[i]);
    }
    logging::read(f.in(), got);
    sym_assert(got == mark, "what follows the record");
    sym_assert(f.over(), "all that was written is read");
    sym_reach("end");
}
extern "C" void h_gnss() { roundTrip<meas::GnssObservation>(); }
extern "C" void h_imu() { roundTrip<meas::ImuSample>(); }
extern "C" void h_gps() { roundTrip<GPSEphemeris>(); }
extern "C" void h_gal() { roundTrip<GalileoEphemeris>(); }
extern "C" void h_glo() { roundTrip<GlonassEphemeris>(); }
extern "C" void h_time() { roundTrip<UTCTime>(); }
extern "C" void h_qtime() { roundTrip<QuantizedTime>(); }

// rotations, motions and jets, over the reals
static math::Quat<double> quat(const char* n)
{
    double c[4];
    sym_unit_quat(n, c);
    return math::Quat<double>(c[0], c[1], c[2], c[3]);
}
static Vec3 vec()
{
    Vec3 v;
    for (int i = 0; i < 3; ++i)
    {
        v(i) = sym_real("v");
        sym_assume((v(i) >= -100) & (v(i) <= 100));
    }
    return v;
}
static void near(const math::DQuat<double>& a, const math::DQuat<double>& b, const char* m)
{
    const Vec4 ra = a.real().arr_, rb = b.real().arr_, da = a.dual().arr_, db = b.dual().arr_;
    for (int i = 0; i < 4; ++i)
    {
        sym_assert_eq(ra(i), rb(i), 1e-9, m);
        sym_assert_eq(da(i), db(i), 1e-9, m);
    }
}
static math::Jet<double> jet()
{
    math::Jet<double> j;
    j.x = math::DQuat<double>(quat("q"), vec());
    j.dx << vec(), vec();
    return j;
}
extern "C" void h_quat()
{
    const math::Quat<double> a = quat("q");
    const math::DQuat<double> d(quat("r"), vec());
    const Vec3 v = vec();
    math::Quat<double> b;
    math::DQuat<double> e;
    Vec3 w;
    File f;
    logging::log(f.out(), a, d, v);
    logging::read(f.in(), b, e, w);
    for (int i = 0; i < 4; ++i) sym_assert_eq(b.arr_(i), a.arr_(i), 1e-12, "quaternion");
    near(e, d, "dual quaternion");
    for (int i = 0; i < 3; ++i) sym_assert_eq(w(i), v(i), 1e-12, "vector");
    sym_assert(f.over(), "all that was written is read");
    sym_reach("end");
}
extern "C" void h_jet()
{
    const math::Jet<double> a = jet();
    math::TwoJet<double> c;
    c.x = math::DQuat<double>(quat("q"), vec());
    c.dx << vec(), vec();
    c.d2x << vec(), vec();
    math::Jet<double> b;
    math::TwoJet<double> d;
    File f;
    logging::log(f.out(), a, c);
    logging::read(f.in(), b, d);
    near(b.x, a.x, "jet pose");
    near(d.x, c.x, "second-order jet pose");
    for (int i = 0; i < 6; ++i)
    {
        sym_assert_eq(b.dx(i), a.dx(i), 1e-12, "jet velocity");
        sym_assert_eq(d.dx(i), c.dx(i), 1e-12, "second-order jet velocity");
        sym_assert_eq(d.d2x(i), c.d2x(i), 1e-12, "acceleration");
    }
    sym_assert(f.over(), "all that was written is read");
    sym_reach("end");
}
