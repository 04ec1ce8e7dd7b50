// Satellite position, velocity and clock from broadcast elements (common/satellite/satellite_state.*)
#include <array>
#include <type_traits>
#include <limits>
#include <functional>
#include "sym.h"
#include "common/defs.h"
#include "common/matrix_defs.h"
#include "common/satellite/satellite_state.h"
#include "common/math/rk4.h"
using namespace mc;
using namespace mc::satellite;
using ephemeris::KeplerianEphemeris;
using ephemeris::GlonassEphemeris;
static const double T = 1e-5, TV = 1e-4;

// Broadcast orbit at time dt after toe, given sine and cosine of the eccentric anomaly
static Vec3 icd(const KeplerianEphemeris& e, double dt, double sE, double cE)
{
    const double A = e.sqrta * e.sqrta;
    const double den = 1.0 - e.ecc * cE;
    const double cnu = (cE - e.ecc) / den, snu = std::sqrt(1.0 - e.ecc * e.ecc) * sE / den;
    const double cw = std::cos(e.w), sw = std::sin(e.w);
    const double cphi = cnu * cw - snu * sw, sphi = snu * cw + cnu * sw;
    const double c2 = 1.0 - 2.0 * sphi * sphi, s2 = 2.0 * sphi * cphi;
    const double du = e.cus * s2 + e.cuc * c2;
    const double r = A * den + e.crs * s2 + e.crc * c2;
    const double di = e.idot * dt + e.cis * s2 + e.cic * c2;
    const double cu = cphi * std::cos(du) - sphi * std::sin(du), su = sphi * std::cos(du) + cphi * std::sin(du);
    const double ci = std::cos(e.i0 + di), si = std::sin(e.i0 + di);
    const double om = e.omega0 + (e.omegadot - 7.2921151467e-5) * dt - 7.2921151467e-5 * e.toes;
    const double co = std::cos(om), so = std::sin(om);
    const double xo = r * cu, yo = r * su;
    return Vec3(xo * co - yo * ci * so, xo * so + yo * ci * co, yo * si);
}
struct Ctx
{
    const KeplerianEphemeris* e;
    double dt, sE, cE, Edot;
    UTCTime t;
};
static void along(double t, void* p, double* out)
{
    const Ctx& c = *static_cast<const Ctx*>(p);
    // the eccentric anomaly moves by a = Edot t: to first order sin(E + a) = sin E + a cos E
    const double a = c.Edot * t;
    const Vec3 x = icd(*c.e, c.dt + t, c.sE * std::cos(a) + c.cE * std::sin(a), c.cE * std::cos(a) - c.sE * std::sin(a));
    for (int i = 0; i < 3; ++i) out[i] = x(i);
}
// the six harmonic amplitudes scaled by g
static KeplerianEphemeris scaled(const KeplerianEphemeris& e, double g)
{
    KeplerianEphemeris r = e;
    r.cuc *= g;
    r.cus *= g;
    r.crc *= g;
    r.crs *= g;
    r.cic *= g;
    r.cis *= g;
    return r;
}
static void rates(double g, void* p, double* out)
{
    const Ctx& c = *static_cast<const Ctx*>(p);
    const KeplerianEphemeris e = scaled(*c.e, g);
    Ctx d = c;
    d.e = &e;
    sym_jvp(along, &d, out, 3);
}
static void code(double g, void* p, double* out)
{
    const Ctx& c = *static_cast<const Ctx*>(p);
    SatelliteState s;
    eph2Sat(c.t, scaled(*c.e, g), Out(s));
    for (int i = 0; i < 3; ++i) out[i] = s.vel(i);
}
static const double DT[4] = {0, 900.5, -3600.25, 7200};
static void elements(KeplerianEphemeris& e)
{
    e.gnssID = GnssID::GPS;
    e.sat = 3;
    e.delta_n = sym_real("dn");
    e.w = sym_real("w");
    e.i0 = sym_real("i0");
    e.omega0 = sym_real("om0");
    e.omegadot = sym_real("omd");
    e.idot = sym_real("idot");
    e.cuc = sym_real("cuc");
    e.cus = sym_real("cus");
    e.crc = sym_real("crc");
    e.crs = sym_real("crs");
    e.cic = sym_real("cic");
    e.cis = sym_real("cis");
    e.af0 = sym_real("af0");
    e.af1 = sym_real("af1");
    e.af2 = sym_real("af2");
    e.sqrta = sym_real("sqrta");
    sym_assume((e.sqrta > 1e3) & (e.sqrta < 1e4));
    e.toes = 345600;
}
static void compare(const KeplerianEphemeris& e, const SatelliteState& s, const UTCTime& t, double dt, double dtc, double sE, double cE)
{
    const double A = e.sqrta * e.sqrta;
    const double n = std::sqrt(3.986005e14 / (A * A * A)) + e.delta_n;
    Ctx c{&e, dt, sE, cE, n / (1.0 - e.ecc * cE), t};
    const Vec3 p = icd(e, dt, sE, cE);
    static const char* np[3] = {"satellite position x", "satellite position y", "satellite position z"};
    static const char* nv[3] = {"satellite velocity x", "satellite velocity y", "satellite velocity z"};
    for (int i = 0; i < 3; ++i) sym_assert_eq(s.pos(i), p(i), T, np[i]);
    // the velocity is the rate of the position, to first order in the harmonic amplitudes
    double v[3], w[3];
    rates(0, &c, v);
    code(0, &c, w);
    for (int i = 0; i < 3; ++i) sym_assert_eq(w[i], v[i], TV, nv[i]);
    sym_jvp(rates, &c, v, 3);
    sym_jvp(code, &c, w, 3);
    for (int i = 0; i < 3; ++i) sym_assert_eq(w[i], v[i], TV, "first-order effect of the harmonic corrections on the velocity");
    const double rel = -2.0 * std::sqrt(3.986005e14 * A) / (299792458.0 * 299792458.0) * e.ecc * sE;
    sym_assert_eq(s.clk(0), e.af0 + dtc * (e.af1 + e.af2 * dtc) + rel, 1e-12, "satellite clock bias");
    sym_assert_eq(s.clk(1), e.af1 + 2.0 * e.af2 * dtc, 1e-12, "satellite clock drift");
    sym_assert((s.t.sec == t.sec) & (s.t.nsec == t.nsec), "the state is stamped with the requested time");
}
// circular orbits: any mean anomaly
extern "C" void h_kep_circ()
{
    KeplerianEphemeris e;
    elements(e);
    e.ecc = 0;
    const double m = sym_real("m");
    const int k = sym_choice("dt", 0, 3);
    const double dt = DT[k];
    const UTCTime t((int64_t)1600000000, (int64_t)500000000);
    e.toe = t - UTCTime((int64_t)(dt * 2) / 2, (int64_t)((dt - (int64_t)dt) * 1e9));
    e.toc = t - UTCTime((int64_t)(k == 2 ? 1800 : 25), (int64_t)0);
    e.m0 = m - (std::sqrt(3.986005e14 / (e.sqrta * e.sqrta * e.sqrta * e.sqrta * e.sqrta * e.sqrta)) + e.delta_n) * dt;
    SatelliteState s;
    eph2Sat(t, e, Out(s));
    compare(e, s, t, dt, k == 2 ? 1800 : 25, std::sin(m), std::cos(m));
    sym_reach("circ");
    sym_reach("end");
}
static const double EE[13][2] = {{0.01, 0}, {0.02, 3.14159265358979323846}, {0.001, 0.5}, {0.02, 1.5707963267948966}, {0.0223578442819, -2.2},
                                {0.3, 2.5}, {0.01, -3.14159265358979323846}, {0.7, 1.0}, {0.005, 4.4}, {0.012, 6.2}, {0.25, -0.7}, {0.02, 9.0}, {0.015, -5.0}};
static void ellipse(int lo, int hi)
{
    KeplerianEphemeris e;
    elements(e);
    const int k = sym_choice("shape", lo, hi);
    e.ecc = EE[k][0];
    const double E = EE[k][1];
    const double M = E - e.ecc * std::sin(E);
    const double dt = DT[k % 4];
    const UTCTime t((int64_t)1600000000, (int64_t)500000000);
    e.toe = t - UTCTime((int64_t)(dt * 2) / 2, (int64_t)((dt - (int64_t)dt) * 1e9));
    const double dtc = k % 3 ? -1200.5 : 64;
    e.toc = t - UTCTime((int64_t)dtc, (int64_t)((dtc - (int64_t)dtc) * 1e9));
    e.m0 = M - (std::sqrt(3.986005e14 / (e.sqrta * e.sqrta * e.sqrta * e.sqrta * e.sqrta * e.sqrta)) + e.delta_n) * dt;
    SatelliteState s;
    eph2Sat(t, e, Out(s));
    compare(e, s, t, dt, dtc, std::sin(E), std::cos(E));
    sym_reach("ellipse");
}
extern "C" void h_kep_ell() { ellipse(0, 6); sym_reach("end"); }
extern "C" void h_kep_ell2() { ellipse(7, 12); sym_reach("end"); }
// ---------------------------------------------------------------- freshness
extern "C" void h_kep_stale()
{
    KeplerianEphemeris e;
    e.gnssID = GnssID::GPS;
    e.sat = 3;
    e.delta_n = e.w = e.omega0 = e.omegadot = e.idot = 0;
    e.cuc = e.cus = e.crc = e.crs = e.cic = e.cis = e.af0 = e.af1 = e.af2 = 0;
    e.i0 = 1;
    e.m0 = 0;
    e.ecc = 0;
    e.sqrta = 5000;
    e.toes = 0;
    e.toe.sec = sym_i64("toe");
    e.toe.nsec = sym_i64("toe_n");
    sym_assume((e.toe.sec > -((int64_t)1 << 40)) & (e.toe.sec < ((int64_t)1 << 40)));
    sym_assume((e.toe.nsec >= 0) & (e.toe.nsec < 1000000000));
    e.toc = e.toe;
    const int32_t ds = sym_i32("ds");
    const int64_t dn = sym_i64("dn");
    sym_assume((dn >= 0) & (dn < 1000000000));
    sym_assume((ds > -1000000000) & (ds < 1000000000));
    UTCTime t;
    t.sec = e.toe.sec + ds;
    t.nsec = e.toe.nsec + dn;
    if (t.nsec >= 1000000000)
    {
        t.nsec -= 1000000000;
        t.sec += 1;
    }
    // more than two hours old (or early): refused by a failed check, so this point is not reached
    const bool stale = (ds > 7200) | ((ds == 7200) & (dn > 0)) | (ds < -7200);
    sym_assume(stale);
    sym_reach("start");
    SatelliteState s;
    eph2Sat(t, e, Out(s));
    sym_assert(false, "an ephemeris more than two hours away is refused");
}
// ---------------------------------------------------------------- GLONASS
static Vec3 gloAcc(const Vec3& p, const Vec3& v, const Vec3& a)
{
    // ICD GLONASS A.3.1.2
    const double r2 = p(0) * p(0) + p(1) * p(1) + p(2) * p(2);
    const double r = std::sqrt(r2);
    const double mu = 3.9860044e14, ae = 6378136.0, j2 = 1.0826257e-3, om = 7.292115e-5;
    const double k = mu / (r2 * r);
    const double j = 1.5 * j2 * mu * ae * ae / (r2 * r2 * r);
    const double z2 = p(2) * p(2) / r2;
    return Vec3(-k * p(0) - j * p(0) * (1 - 5 * z2) + om * om * p(0) + 2 * om * v(1) + a(0),
                -k * p(1) - j * p(1) * (1 - 5 * z2) + om * om * p(1) - 2 * om * v(0) + a(1),
                -k * p(2) - j * p(2) * (3 - 5 * z2) + a(2));
}
static Vec3 rv(const char* n)
{
    Vec3 v;
    for (int i = 0; i < 3; ++i) v(i) = sym_real(n);
    return v;
}
extern "C" void h_glo_orbit()
{
    const Vec3 p = rv("p"), v = rv("v"), a = rv("a");
    sym_assume(p(0) * p(0) + p(1) * p(1) + p(2) * p(2) > 1);
    Vec6 x;
    x << p, v;
    const Vec6 d = glonassOrbit(x, a);
    const Vec3 w = gloAcc(p, v, a);
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(d(i), v(i), 1e-9, "the position changes with the velocity");
        sym_assert_eq(d(3 + i), w(i), 1e-9, "the velocity changes with gravity, oblateness, rotation and the broadcast acceleration");
    }
    sym_reach("orbit");
    sym_reach("end");
}
// x' = A x + b: a fourth-order method reproduces the Taylor polynomial of degree four
struct Lin
{
    double a[4], b[2];
    Vec2 operator()(const Vec2& x, const Vec2& u) const
    {
        return Vec2(a[0] * x(0) + a[1] * x(1) + b[0] + u(0), a[2] * x(0) + a[3] * x(1) + b[1] + u(1));
    }
};
extern "C" void h_rk4()
{
    Lin f;
    for (double& c : f.a) c = sym_real("A");
    for (double& c : f.b) c = sym_real("b");
    const Vec2 x0(sym_real("x"), sym_real("x")), u(sym_real("u"), sym_real("u"));
    const double h = sym_real("h");
    const Vec2 y = math::RK4(f, h, x0, u);
    Vec2 term = f(x0, u), sum = x0;
    double k = h;
    for (int n = 1; n <= 4; ++n)
    {
        sum += term * k;
        term = Vec2(f.a[0] * term(0) + f.a[1] * term(1), f.a[2] * term(0) + f.a[3] * term(1));
        k *= h / (n + 1);
    }
    for (int i = 0; i < 2; ++i) sym_assert_eq(y(i), sum(i), 1e-9, "Runge-Kutta step");
    sym_reach("rk4");
    sym_reach("end");
}
// x' = x^4/... : the classical weights on a right-hand side that is a polynomial of its own time (one component is the time)
struct Quad
{
    double c[4];
    Vec2 operator()(const Vec2& x) const { return Vec2(1.0, c[0] + x(0) * (c[1] + x(0) * (c[2] + x(0) * c[3]))); }
};
extern "C" void h_rk4_quad()
{
    Quad f;
    for (double& c : f.c) c = sym_real("c");
    const double t0 = sym_real("t0"), y0 = sym_real("y0"), h = sym_real("h");
    const Vec2 r = math::RK4(f, h, Vec2(t0, y0));
    const double t1 = t0 + h;
    auto P = [&](double t) { return t * (f.c[0] + t * (f.c[1] / 2 + t * (f.c[2] / 3 + t * f.c[3] / 4))); };
    sym_assert_eq(r(0), t1, 1e-9, "time component");
    sym_assert_eq(r(1), y0 + P(t1) - P(t0), 1e-7, "quadrature of a cubic is exact");
    sym_reach("quad");
    sym_reach("end");
}
