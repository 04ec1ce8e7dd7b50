// Geodesy (WGS84, azimuth and elevation) and the atmospheric delays.
#include <array>
#include <cmath>
#include <functional>
#include <limits>
#include <sstream>
#include <type_traits>
#include "common/defs.h"
#include "common/satellite/atm_correction.h"
#include "common/satellite/azel.h"
#include "utils/wgs84.h"
#include "sym.h"
using namespace mc;
using namespace mc::satellite;
using mc::utils::WGS84;
static constexpr double A = 6378137.0, B = 6356752.314245, E2 = 1.0 - (B / A) * (B / A);
static constexpr double PI = 3.14159265358979323846;

// the textbook definitions
static Vec3 toEcef(double sp, double cp, double sl, double cl, double h)
{
    const double n = A / std::sqrt(1.0 - E2 * sp * sp);
    return Vec3((n + h) * cp * cl, (n + h) * cp * sl, (n * (1.0 - E2) + h) * sp);
}
static Mat3 axes(double sp, double cp, double sl, double cl)
{
    Mat3 r;  // columns: north, east, down
    r << -sp * cl, -sl, -cp * cl, -sp * sl, cl, -cp * sl, cp, 0, -sp;
    return r;
}
static void same(const Vec3& a, const Vec3& b, double tol, const char* m)
{
    for (int i = 0; i < 3; ++i) sym_assert_eq(a(i), b(i), tol, m);
}
static Vec3 vec(const char* x, const char* y, const char* z) { return Vec3(sym_real(x), sym_real(y), sym_real(z)); }

extern "C" void h_lla2ecef()
{
    const double lat = sym_real("lat"), lon = sym_real("lon"), h = sym_real("h");
    const Vec3 want = toEcef(std::sin(lat), std::cos(lat), std::sin(lon), std::cos(lon), h);
    same(WGS84::lla2ecef(Vec3(lat, lon, h)), want, 1e-9, "geodetic to earth-fixed position");
    Vec3 out;
    WGS84::lla2ecef(Vec3(lat, lon, h), &out);
    same(out, want, 1e-9, "geodetic to earth-fixed position");
    sym_reach("end");
}

// latitude, longitude: twice a symbolic value, so that half angles are plain
extern "C" void h_axes()
{
    const double a = sym_real("hlat"), b = sym_real("hlon");
    const math::Quat<double> q = WGS84::q_e2n(Vec3(2 * a, 2 * b, sym_real("h")));
    const Mat3 r = axes(std::sin(2 * a), std::cos(2 * a), std::sin(2 * b), std::cos(2 * b));
    const Vec3 v = vec("x", "y", "z");
    same(q.rotp(v), r.transpose() * v, 1e-9, "earth-fixed to north-east-down rotation");
    same(q.rota(v), r * v, 1e-9, "north-east-down to earth-fixed rotation");
    sym_reach("end");
}

// transforms about a given frame are the rigid motion and its inverse, whatever the frame
extern "C" void h_frame()
{
    double w[4];
    sym_unit_quat("q", w);
    const Mat3 r = axes(0.6, 0.8, -0.28, 0.96);
    const Vec3 p = vec("px", "py", "pz"), v = vec("x", "y", "z");
    const math::Quat<double> q(w[0], w[1], w[2], w[3]);
    const math::DQuat<double> t(q, p);
    Vec3 o;
    WGS84::ned2ecef(t, v, &o);
    same(WGS84::ned2ecef(t, v), q.rota(v) + p, 1e-9, "local to earth-fixed position");
    same(o, q.rota(v) + p, 1e-9, "local to earth-fixed position");
    WGS84::ecef2ned(t, v, &o);
    same(WGS84::ecef2ned(t, v), q.rotp(v - p), 1e-9, "earth-fixed to local position");
    same(o, q.rotp(v - p), 1e-9, "earth-fixed to local position");
    same(WGS84::ecef2ned(t, WGS84::ned2ecef(t, v)), v, 1e-9, "local to earth-fixed and back");
    sym_reach("end");
}

// local coordinates of any point about any reference
extern "C" void h_lla2ned()
{
    const double a = sym_real("hlat"), b = sym_real("hlon"), h0 = sym_real("h0");
    const double lat = sym_real("lat"), lon = sym_real("lon"), h = sym_real("h");
    const double sp = std::sin(2 * a), cp = std::cos(2 * a), sl = std::sin(2 * b), cl = std::cos(2 * b);
    const Vec3 d = toEcef(std::sin(lat), std::cos(lat), std::sin(lon), std::cos(lon), h) - toEcef(sp, cp, sl, cl, h0);
    same(WGS84::lla2ned(Vec3(2 * a, 2 * b, h0), Vec3(lat, lon, h)), axes(sp, cp, sl, cl).transpose() * d, 1e-8,
         "local coordinates of a geodetic position");
    sym_reach("end");
}

// sites: a grid of latitudes and heights, any longitude
static const double LAT[11] = {0, 0.3, -0.3, 0.7, -0.9, 1.2, -1.2, 1.55, -1.55, 1e-9, 1.5707};
static const double HGT[5] = {0, 1388.25, -400, 9000, 2.02e7};
struct Site
{
    double lat, lon, h, sl, cl;
    Vec3 ecef;
    Mat3 r;
};
static Site site(int nlat, int nh)
{
    Site s;
    const double b = sym_real("hlon");
    sym_assume((b > -1.57) & (b < 1.57));
    const int i = sym_choice("lat", 0, nlat - 1), j = sym_choice("hgt", 0, nh - 1);
    s.lat = LAT[i];
    s.h = HGT[j];
    s.lon = 2 * b;
    s.sl = std::sin(s.lon);
    s.cl = std::cos(s.lon);
    s.ecef = toEcef(std::sin(s.lat), std::cos(s.lat), s.sl, s.cl, s.h);
    s.r = axes(std::sin(s.lat), std::cos(s.lat), s.sl, s.cl);
    return s;
}
extern "C" void h_ecef2lla()
{
    const Site s = site(11, 5);
    Vec3 o;
    WGS84::ecef2lla(s.ecef, &o);
    const Vec3 p = WGS84::ecef2lla(s.ecef);
    sym_assert_eq(o(0) - s.lat, 0, 2e-12, "geodetic latitude of an earth-fixed position");
    sym_assert_eq(o(1), s.lon, 1e-12, "longitude of an earth-fixed position");
    sym_assert_eq(o(2) - s.h, 0, 1e-5, "height of an earth-fixed position");
    same(o, p, 0, "the two forms agree");
    sym_reach("end");
}
extern "C" void h_poles()
{
    const double h = sym_real("h");
    sym_assume((h > -1e5) & (h < 1e9));
    const bool north = sym_choice("north", 0, 1);
    const Vec3 o = WGS84::ecef2lla(Vec3(0, 0, north ? B + h : -(B + h)));
    sym_assert_eq(o(0), north ? PI / 2 : -PI / 2, 1e-12, "latitude at a pole");
    sym_assert_eq(o(1), 0, 0, "longitude at a pole");
    sym_assert_eq(o(2) - h, 0, 1e-5, "height at a pole");
    sym_reach("end");
}
extern "C" void h_equator()
{
    const double h = sym_real("h"), b = sym_real("hlon");
    sym_assume((h > -1e5) & (h < 1e9) & (b > -1.57) & (b < 1.57));
    const double r = A + h;
    const Vec3 o = WGS84::ecef2lla(Vec3(r * std::cos(2 * b), r * std::sin(2 * b), 0));
    sym_assert_eq(o(0), 0, 0, "latitude on the equator");
    sym_assert_eq(o(1), 2 * b, 1e-12, "longitude on the equator");
    sym_assert_eq(o(2) - h, 0, 1e-5, "height on the equator");
    sym_reach("end");
}
// the frame at a position
extern "C" void h_dq()
{
    const Site s = site(8, 2);
    math::DQuat<double> t = WGS84::dq_ecef2ned(s.ecef), u;
    WGS84::dq_ecef2ned(s.ecef, &u);
    const Vec3 v = vec("x", "y", "z");
    same(t.transforma(v), s.r * v + s.ecef, 1e-8, "the frame at a position has its axes north, east, down");
    same(u.transforma(v), s.r * v + s.ecef, 1e-8, "the frame at a position has its axes north, east, down");
    sym_reach("end");
}
// azimuth and elevation of any direction
extern "C" void h_azel()
{
    const Site s = site(8, 2);
    const Vec3 n = vec("n", "e", "d");
    const Vec3 l = s.r * n;
    const double h2 = n(0) * n(0) + n(1) * n(1);
    sym_assume(h2 > 1e-8);
    AzimuthElevation o;
    const int k = sym_choice("form", 0, 2);
    if (k == 0)
        los2AzEl(s.ecef, l, &o);
    else if (k == 1)
        o = los2AzEl(s.ecef, l);
    else
    {
        SatelliteState st;
        st.pos = s.ecef + l;
        o = getAzEl(s.ecef, st);
    }
    const double h = std::sqrt(h2), d = std::sqrt(h2 + n(2) * n(2));
    sym_assert_eq(std::sin(o.az) * h, n(1), 1e-8, "azimuth is measured from north to east");
    sym_assert_eq(std::cos(o.az) * h, n(0), 1e-8, "azimuth is measured from north to east");
    sym_assert_eq(std::sin(o.el) * d, -n(2), 1e-8, "elevation is measured up from the horizon");
    sym_assert_eq(std::cos(o.el) * d, h, 1e-8, "elevation is measured up from the horizon");
    sym_reach("end");
}
// Saastamoinen
extern "C" void h_trop()
{
    const UTCTime t((int64_t)1600000000, (int64_t)0);
    AzimuthElevation az;
    az.az = sym_real("az");
    az.el = sym_real("el");
    sym_assume((az.el > -1.57) & (az.el < 1.57));
    const Vec3 lla = vec("lat", "lon", "h");
    sym_assume((lla(0) > -1.58) & (lla(0) < 1.58));
    const double o = computeTroposphericDelay(t, lla, az);
    if ((lla(2) < -100) | (lla(2) > 10000) | (az.el <= 0))
    {
        sym_assert_eq(o, 0, 0, "no tropospheric delay below the horizon or outside the model's heights");
        sym_reach("none");
        return;
    }
    const double h = lla(2) < 0 ? 0 : lla(2);
    const double p = 1013.25 * std::pow(1.0 - 2.2557e-5 * h, 5.2568), T = 15.0 - 6.5e-3 * h + 273.16;
    const double e = 6.108 * 0.7 * std::exp((17.15 * T - 4684.0) / (T - 38.45));
    const double cz = std::sin(az.el);
    const double dry = 0.0022768 * p / (1.0 - 0.00266 * std::cos(2.0 * lla(0)) - 0.00028 * h / 1e3);
    const double wet = 0.002277 * (1255.0 / T + 0.05) * e;
    sym_assert_eq(o * cz, dry + wet, 1e-9, "tropospheric delay");
    sym_reach("end");
}
// Klobuchar
static double klobuchar(double lat, double lon, double az, double el, double sod, bool& day)
{
    static const double al[4] = {0.1118e-07, -0.7451e-08, -0.5961e-07, 0.1192e-06};
    static const double be[4] = {0.1167e+06, -0.2294e+06, -0.1311e+06, 0.1049e+07};
    const double E = el / PI, psi = 0.0137 / (E + 0.11) - 0.022;
    double phi = lat / PI + psi * std::cos(az);
    if (phi > 0.416) phi = 0.416;
    if (phi < -0.416) phi = -0.416;
    const double lam = lon / PI + psi * std::sin(az) / std::cos(phi * PI);
    const double pm = phi + 0.064 * std::cos((lam - 1.617) * PI);
    double t = 43200.0 * lam + sod;
    t -= std::floor(t / 86400.0) * 86400.0;
    double am = al[0] + al[1] * pm + al[2] * pm * pm + al[3] * pm * pm * pm;
    double pr = be[0] + be[1] * pm + be[2] * pm * pm + be[3] * pm * pm * pm;
    if (am < 0) am = 0;
    if (pr < 72000) pr = 72000;
    const double x = std::fabs(2 * PI * (t - 50400) / pr);
    const double k = 0.53 - E, F = 1.0 + 16.0 * k * k * k;
    day = x <= 1.57;
    return 299792458.0 * F * (day ? 5e-9 + am * (1.0 - x * x / 2 + x * x * x * x / 24) : 5e-9);
}
static const int64_t SOD[2] = {40000, 300000};
static void iono(int64_t k)
{
    AzimuthElevation az;
    az.az = sym_real("az");
    az.el = sym_real("el");
    sym_assume((az.el > 0) & (az.el < 1.57));
    const Vec3 lla = vec("lat", "lon", "h");
    sym_assume((lla(0) > -1.58) & (lla(0) < 1.58) & (lla(1) > -3.15) & (lla(1) < 3.15));
    // RTKLIB's seconds of the week for this time
    const UTCTime t(315964800 + (int64_t)604800 * 2000 + SOD[k], (int64_t)0);
    bool day;
    const double want = klobuchar(lla(0), lla(1), az.az, az.el, SOD[k], day);
    sym_assert_eq(computeIonosphericDelay(t, lla, az), want, 1e-9, "ionospheric delay");
    if (day) sym_reach("day");
    sym_reach("end");
}
extern "C" void h_iono0() { iono(0); }
extern "C" void h_iono1() { iono(1); }
// the two delays are those at the receiver, for the direction of the satellite
extern "C" void h_atm()
{
    const double LON[3] = {0.4, -2.9, 3.1};
    const int j = sym_choice("site", 0, 2);
    const Vec3 at(LAT[j + 1], LON[j], HGT[1]);
    Site s;
    s.ecef = WGS84::lla2ecef(at);
    s.r = axes(std::sin(at(0)), std::cos(at(0)), std::sin(at(1)), std::cos(at(1)));
    SatelliteState st;
    st.pos = s.ecef + s.r * Vec3(1.2e7, 0.9e7, -1.1e7);
    const int64_t k = sym_choice("t", 0, 1);
    const UTCTime t(315964800 + (int64_t)604800 * 2000 + SOD[k], (int64_t)0);
    AtmosphericCorrection c;
    const Error err = computeAtmCorrection(t, s.ecef, st, Out<AtmosphericCorrection>(c));
    sym_assert(err.ok(), "no error");
    const AzimuthElevation az = getAzEl(s.ecef, st);
    const Vec3 lla = WGS84::ecef2lla(s.ecef);
    sym_assert_eq(c.ionospheric_delay_m, computeIonosphericDelay(t, lla, az), 1e-9, "ionospheric delay of the satellite");
    sym_assert_eq(c.tropospheric_delay_m, computeTroposphericDelay(t, lla, az), 1e-9, "tropospheric delay of the satellite");
    sym_reach("end");
}
