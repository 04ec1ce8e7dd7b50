// Measurement models (models/*): residuals and Jacobians
#include <array>
#include <type_traits>
#include <limits>
#include <functional>
#include "sym.h"
#include "common/defs.h"
#include "common/matrix_defs.h"
#include "common/math/dquat.h"
#include "common/satellite/satellite.h"
#include "models/prange_model.h"
#include "models/relative_carrier_phase_model.h"
#include "models/gnss_dynamics_model.h"
#include "models/pose_error_model.h"
using namespace mc;
using DQ = math::DQuat<double>;
using Q = math::Quat<double>;
static const double T = 1e-6, TJ = 1e-5;

static Vec3 rv(const char* n)
{
    Vec3 v;
    for (int i = 0; i < 3; ++i) v(i) = sym_real(n);
    return v;
}
static Q uq(const char* n)
{
    double b[4];
    sym_unit_quat(n, b);
    return Q(b[0], b[1], b[2], b[3]);
}
static DQ pose(const char* q, const char* t)
{
    const Q r = uq(q);
    return DQ(r, rv(t));
}
static DQ fixedPose(int k)
{
    if (k == 0) return DQ(Q(0.5, 0.5, -0.5, 0.5), Vec3(3, -1, 2));
    if (k == 1) return DQ(Q(0.8, 0, 0.6, 0), Vec3(10, 20, -5));
    return DQ(Q(0.28, 0.96, 0, 0), Vec3(5000, 6000, 7000));
}

// ---------------------------------------------------------------- atmosphere stand-in
static double g_iono, g_tropo;
static UTCTime g_atm_t;
static Vec3 g_atm_rec;
namespace mc { namespace satellite {
Error computeAtmCorrection(const UTCTime& t, const Vec3& rec, const SatelliteState&, Out<AtmosphericCorrection> atm)
{
    g_atm_t = t;
    g_atm_rec = rec;
    atm->ionospheric_delay_m = g_iono;
    atm->tropospheric_delay_m = g_tropo;
    return Error::none();
}
} }
// ---------------------------------------------------------------- satellite stand-in
// The first answer makes the signal travel time consistent, the second is the state the model works with.
struct FakeSat : satellite::SatelliteBase
{
    FakeSat(int g, int n) : SatelliteBase(g, n) {}
    mutable int calls = 0;
    mutable UTCTime asked;
    satellite::SatelliteState first[2], last[2];
    double wl = 0.19;
    int n_alm = 1;
    Error getState(const UTCTime& t, Out<satellite::SatelliteState> s) const override
    {
        const int k = calls / 2;
        *s = (calls % 2) ? last[k & 1] : first[k & 1];
        if (calls % 2) asked = t;
        ++calls;
        return Error::none();
    }
    double carrierWavelength(int) const override { return wl; }
    int almanacSize() const override { return n_alm; }
};
static const Vec3 REC(0, 6e6, 0);
static const double SAG = OMEGA_EARTH * (2e7 * 6e6) / C_LIGHT;
static void setup(FakeSat& s, const UTCTime& t, int k, const char* pn, const char* vn, const char* cn)
{
    // |(2e7,-6e6,0)| + sagnac over c, in nanoseconds
    const double range = 20880613.017821106 + SAG;
    const int64_t tau = (int64_t)(range / C_LIGHT * 1e9 + 0.5);
    s.first[k].t = t - UTCTime((int64_t)0, tau);
    s.first[k].pos = Vec3(2e7, 0, 0);
    s.first[k].vel = Vec3(1, 0, 0);
    s.first[k].clk = Vec2(0, 0);
    s.last[k].t = s.first[k].t;
    s.last[k].pos = rv(pn);
    s.last[k].vel = rv(vn);
    for (int i = 0; i < 3; ++i) sym_assume((s.last[k].vel(i) < 5e3) & (s.last[k].vel(i) > -5e3));
    for (int i = 0; i < 2; ++i) s.last[k].clk(i) = 1e-6 * sym_real(cn);
}

// ---------------------------------------------------------------- pseudorange and Doppler
struct PR
{
    FakeSat sat{GnssID::GPS, 7};
    meas::GnssObservation obs;
    DQ e2r;
    Vec3 var;
    DQ n2b, r2n;
    double v[3], clk[2], sw, pbg[3];
    double si[3];
};
static void prSetup(PR& p, int which)
{
    p.obs.setZero();
    p.obs.t = UTCTime((int64_t)1600000000, (int64_t)300000000);
    p.obs.sat_num = 7;
    p.obs.pseudorange = sym_real("pr");
    p.obs.doppler = sym_real("dop");
    setup(p.sat, p.obs.t, 0, "sp", "sv", "sc");
    g_iono = sym_real("iono");
    g_tropo = sym_real("tropo");
    p.e2r = which == 2 ? pose("e2r", "te2r") : fixedPose(2);
    p.n2b = which == 0 ? pose("n2b", "tn2b") : fixedPose(0);
    p.r2n = which == 1 ? pose("r2n", "tr2n") : fixedPose(1);
    for (int i = 0; i < 3; ++i)
    {
        p.v[i] = sym_real("v");
        p.pbg[i] = sym_real("pbg");
        p.si[i] = sym_real("sigma");
        sym_assume((p.si[i] > 1e-3) & (p.si[i] < 1e3));
        p.var(i) = p.si[i] * p.si[i];
    }
    for (int i = 0; i < 2; ++i) p.clk[i] = sym_real("clk");
    p.sw = sym_real("sw");
}
// receiver antenna position and velocity in ECEF, by rotation matrices
static void antenna(const DQ& e2r, const DQ& r2n, const DQ& n2b, const Vec3& pbg, const Vec3& v, Vec3* p, Vec3* vel)
{
    const Mat3 Rb = n2b.rotation().R().matrix().transpose();
    const Mat3 Rn = r2n.rotation().R().matrix().transpose();
    const Mat3 Re = e2r.rotation().R().matrix().transpose();
    const Vec3 pn = n2b.translation() + Rb * pbg;
    const Vec3 pr = r2n.translation() + Rn * pn;
    *p = e2r.translation() + Re * pr;
    *vel = Re * (Rn * (Rb * v));
}
static void prResidual(int which)
{
    PR p;
    prSetup(p, which);
    Mat3 cov = Mat3::Zero();
    cov.diagonal() = p.var;
    const models::PseudorangeModel m(p.obs, p.sat, REC, cov, p.e2r);
    sym_assert(p.sat.calls == 2, "satellite state taken once per light-time iteration");
    sym_assert(g_atm_t == p.obs.t, "atmosphere evaluated at reception");
    const double* par[] = {p.n2b.data(), p.v, p.clk, p.r2n.data(), &p.sw, p.pbg};
    double res[3];
    m.Evaluate(par, res, nullptr);
    Vec3 pe, ve;
    antenna(p.e2r, p.r2n, p.n2b, Vec3(p.pbg[0], p.pbg[1], p.pbg[2]), Vec3(p.v[0], p.v[1], p.v[2]), &pe, &ve);
    const satellite::SatelliteState& s = p.sat.last[0];
    const Vec3 los = s.pos - pe;
    const double n = los.norm();
    const double range = n + SAG;
    const double est = range + g_iono + g_tropo + C_LIGHT * (p.clk[0] * 1e-9 - s.clk(0));
    sym_assume(range > 1e6);
    const double rate = (s.vel - ve).dot(los) / range +
        OMEGA_EARTH / C_LIGHT * (s.vel.y() * pe.x() + s.pos.y() * ve.x() - s.vel.x() * pe.y() - s.pos.x() * ve.y()) +
        C_LIGHT * (p.clk[1] * 1e-9 - s.clk(1));
    sym_assert_eq(res[0] * p.si[0], p.sw * (est - p.obs.pseudorange), T, "pseudorange residual");
    sym_assert_eq(res[1] * p.si[1], p.sw * (rate - p.obs.doppler), T, "Doppler residual");
    sym_assert_eq(res[2] * p.si[2], 1.0 - p.sw, T, "switch residual");
    sym_reach("end");
}
extern "C" void h_pr_res_n2b() { prResidual(0); }
extern "C" void h_pr_res_r2n() { prResidual(1); }
extern "C" void h_pr_res_e2r() { prResidual(2); }

struct PCtx
{
    const models::PseudorangeModel* m;
    PR* p;
    int which;
    Vec6 d6;
    Vec3 d3;
    double d;
};
static void f_pr(double t, void* c, double* o)
{
    PCtx* x = (PCtx*)c;
    PR& p = *x->p;
    double a[8], b[8], v[3], clk[2], g[3], sw = p.sw;
    const Vec8 da = p.n2b.dParamDGen() * x->d6, db = p.r2n.dParamDGen() * x->d6;
    for (int i = 0; i < 8; ++i)
    {
        a[i] = p.n2b[i];
        b[i] = p.r2n[i];
        if (x->which == 0) a[i] = a[i] + t * da(i);
        if (x->which == 3) b[i] = b[i] + t * db(i);
    }
    for (int i = 0; i < 3; ++i)
    {
        v[i] = p.v[i];
        g[i] = p.pbg[i];
        if (x->which == 1) v[i] = v[i] + t * x->d3(i);
        if (x->which == 5) g[i] = g[i] + t * x->d3(i);
    }
    for (int i = 0; i < 2; ++i)
    {
        clk[i] = p.clk[i];
        if (x->which == 2) clk[i] = clk[i] + t * x->d3(i);
    }
    if (x->which == 4) sw = sw + t * x->d;
    const double* par[] = {a, v, clk, b, &sw, g};
    x->m->Evaluate(par, o, nullptr);
}
static void prJac(int sympose, int which)
{
    PR p;
    prSetup(p, sympose);
    Mat3 cov = Mat3::Zero();
    cov.diagonal() = p.var;
    const models::PseudorangeModel m(p.obs, p.sat, REC, cov, p.e2r);
    const double* par[] = {p.n2b.data(), p.v, p.clk, p.r2n.data(), &p.sw, p.pbg};
    static const int W[] = {8, 3, 2, 8, 1, 3};
    double J[24];
    double* jac[6] = {nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
    jac[which] = J;
    double res[3], res2[3];
    m.Evaluate(par, res, jac);
    m.Evaluate(par, res2, nullptr);
    for (int i = 0; i < 3; ++i) sym_assert_eq(res[i], res2[i], T, "residual does not depend on asking for Jacobians");
    PCtx c;
    c.m = &m;
    c.p = &p;
    c.which = which;
    double o[3];
    Eigen::Matrix<double, 8, 1> d = Eigen::Matrix<double, 8, 1>::Zero();
    if (W[which] == 8)
    {
        c.d6 << rv("dw"), rv("dt");
        d = which == 0 ? p.n2b.dParamDGen() * c.d6 : p.r2n.dParamDGen() * c.d6;
    }
    else
    {
        c.d6.setZero();
        c.d3 = rv("d");
        c.d = sym_real("ds");
        for (int i = 0; i < W[which]; ++i) d(i) = which == 4 ? c.d : c.d3(i);
    }
    sym_jvp(f_pr, &c, o, 3);
    double e[3] = {0, 0, 0};
    for (int r = 0; r < 3; ++r)
        for (int k = 0; k < W[which]; ++k) e[r] += J[r * W[which] + k] * d(k);
    sym_assert_eq(e[0] * p.si[0], o[0] * p.si[0], TJ, "pseudorange row is the derivative");
    if (which == 2 || which == 4)
        sym_assert_eq(e[1] * p.si[1], o[1] * p.si[1], TJ, "Doppler row is the derivative");
    if (which == 1)
    {
        // Doppler against velocity: minus the line of sight, in body axes (Earth-rotation terms neglected)
        Vec3 pe, dve;
        antenna(p.e2r, p.r2n, p.n2b, Vec3(p.pbg[0], p.pbg[1], p.pbg[2]), c.d3, &pe, &dve);
        const Vec3 los = p.sat.last[0].pos - pe;
        sym_assume(los.squaredNorm() > 1);
        sym_assert_eq(e[1] * p.si[1], -p.sw * los.dot(dve) / los.norm(), T, "Doppler row against velocity is the line of sight");
    }
    sym_assert_eq(e[2] * p.si[2], o[2] * p.si[2], TJ, "switch row is the derivative");
    sym_reach("end");
}
extern "C" void h_pr_jac_n2b() { prJac(0, 0); }
extern "C" void h_pr_jac_vel() { prJac(0, 1); }
extern "C" void h_pr_jac_clk() { prJac(-1, 2); }
extern "C" void h_pr_jac_r2n() { prJac(1, 3); }
extern "C" void h_pr_jac_sw() { prJac(-1, 4); }
extern "C" void h_pr_jac_pbg() { prJac(0, 5); }
extern "C" void h_pr_jac_pbg_r() { prJac(1, 5); }
// correlated measurements: the squared residual is the Mahalanobis distance
extern "C" void h_pr_white()
{
    PR p;
    prSetup(p, -1);
    static const double LL[3][6] = {{2, 0.5, 1, -0.25, 0.125, 0.5}, {0.5, -1, 0.25, 0, 2, 4}, {8, 0, 0.5, 0.25, -0.25, 1}};
    const double* l = LL[sym_choice("cov", 0, 2)];
    Mat3 L;
    L << l[0], 0, 0, l[1], l[2], 0, l[3], l[4], l[5];
    const Mat3 cov = L * L.transpose();
    const models::PseudorangeModel m(p.obs, p.sat, REC, cov, p.e2r);
    const double* par[] = {p.n2b.data(), p.v, p.clk, p.r2n.data(), &p.sw, p.pbg};
    double res[3], raw[3];
    m.Evaluate(par, res, nullptr);
    p.sat.calls = 0;
    const models::PseudorangeModel m1(p.obs, p.sat, REC, Mat3::Identity(), p.e2r);
    m1.Evaluate(par, raw, nullptr);
    double y[3];
    y[0] = raw[0] / l[0];
    y[1] = (raw[1] - l[1] * y[0]) / l[2];
    y[2] = (raw[2] - l[3] * y[0] - l[4] * y[1]) / l[5];
    sym_assert_eq(res[0] * res[0] + res[1] * res[1] + res[2] * res[2], y[0] * y[0] + y[1] * y[1] + y[2] * y[2], T,
                  "squared residual is the Mahalanobis distance");
    sym_reach("end");
}

// ---------------------------------------------------------------- signal travel time
// The satellite answers with arbitrary positions on a line through the receiver; the requested times have to be the
// reception time less the travel time from the last answer.
struct LineSat : satellite::SatelliteBase
{
    LineSat() : SatelliteBase(GnssID::GPS, 7) {}
    mutable int calls = 0;
    mutable UTCTime asked[4];
    double x[4];
    Error getState(const UTCTime& t, Out<satellite::SatelliteState> s) const override
    {
        const int k = calls < 3 ? calls : 3;
        asked[k] = t;
        s->t = t;
        s->pos = Vec3(x[k], 0, 0);
        s->vel = Vec3(3000, 0, 0);
        s->clk = Vec2(0, 0);
        ++calls;
        return Error::none();
    }
    double carrierWavelength(int) const override { return 0.19; }
    int almanacSize() const override { return 1; }
};
static void lightTime(int which)
{
    LineSat sat;
    meas::GnssObservation obs;
    obs.setZero();
    obs.sat_num = 7;
    obs.t = UTCTime((int64_t)1600000000, (int64_t)0);
    for (int i = 0; i < 3; ++i)
    {
        // travel time in whole milliseconds
        const int n = sym_choice("ms", 0, 3);
        static const double ms[4] = {0.0001, 60, 60.0002, 130.5};
        sat.x[i] = C_LIGHT * (ms[n] * 1e-3);
    }
    const double thr = 1e-3 / 3000;
    // the fourth answer repeats the third, so that the search ends
    sat.x[3] = sat.x[2];
    const Vec3 rec(0, 0, 0);
    if (which == 0) { const models::PseudorangeModel m(obs, sat, rec, Mat3::Identity(), fixedPose(2)); }
    if (which == 1) { meas::GnssObservation o2 = obs; const models::RelativeCarrierPhase m(obs, o2, sat, rec, fixedPose(2), 1.0); }
    (void)thr;
    sym_assert(sat.calls >= 2, "travel time is taken into account");
    for (int k = 1; k < 4 && k < sat.calls; ++k)
    {
        const double tof = (obs.t - sat.asked[k]).toSec();
        const double e = tof - sat.x[k - 1] / C_LIGHT;
        sym_assert((e < 3e-9) & (e > -3e-9), "state requested at reception minus travel time");
    }
    if (sat.calls == 2)
    {
        const double d = sat.x[0] / C_LIGHT;
        sym_assert(d < thr + 1e-8, "search ends only when the time has settled");
    }
    if (sat.calls == 3)
    {
        const double d = (sat.x[1] - sat.x[0]) / C_LIGHT;
        sym_assert((d < thr + 1e-8) & (d > -thr - 1e-8), "search ends only when the time has settled");
    }
    sym_reach("end");
}
extern "C" void h_light_pr() { lightTime(0); }

// ---------------------------------------------------------------- clock dynamics
extern "C" void h_gnss_dyn()
{
    // dt in whole seconds plus milliseconds, so that the time difference is exact
    const int s = sym_i32("s");
    sym_assume((s >= -1000) & (s <= 1000));
    const UTCTime t0((int64_t)1000, (int64_t)250000000), tf((int64_t)(1000 + s), (int64_t)750000000);
    Vec3 Xi = rv("xi");
    const models::GnssDynamics m(t0, tf, Xi);
    const double dt = s + 0.5;
    double c1[2], c2[2], s1, s2;
    for (int i = 0; i < 2; ++i) { c1[i] = sym_real("c1"); c2[i] = sym_real("c2"); }
    s1 = sym_real("s1");
    s2 = sym_real("s2");
    const double* par[] = {c1, c2, &s1, &s2};
    double r[3], r0[3], J1[6], J2[6], K1[3], K2[3];
    double* jac[] = {J1, J2, K1, K2};
    m.Evaluate(par, r, jac);
    m.Evaluate(par, r0, nullptr);
    sym_assert_eq(r[0], Xi(0) * (c2[0] - c1[0] - 0.5 * (c1[1] + c2[1]) * dt), T, "bias advances by the mean rate");
    sym_assert_eq(r[1], Xi(1) * (c2[1] - c1[1]), T, "rate is constant");
    sym_assert_eq(r[2], Xi(2) * (s2 - s1), T, "switch is constant");
    for (int i = 0; i < 3; ++i) sym_assert_eq(r[i], r0[i], T, "residual does not depend on Jacobians");
    // residual is affine: a finite change is the Jacobian times the change
    double d[6], e1[2], e2[2];
    for (int i = 0; i < 6; ++i) d[i] = sym_real("d");
    e1[0] = c1[0] + d[0]; e1[1] = c1[1] + d[1];
    e2[0] = c2[0] + d[2]; e2[1] = c2[1] + d[3];
    const double t1 = s1 + d[4], t2 = s2 + d[5];
    const double* par2[] = {e1, e2, &t1, &t2};
    m.Evaluate(par2, r0, nullptr);
    for (int i = 0; i < 3; ++i)
        sym_assert_eq(r0[i] - r[i], J1[2 * i] * d[0] + J1[2 * i + 1] * d[1] + J2[2 * i] * d[2] + J2[2 * i + 1] * d[3] + K1[i] * d[4] + K2[i] * d[5],
                      T, "Jacobians are the derivative");
    sym_reach("end");
}

// ---------------------------------------------------------------- relative carrier phase
struct RC
{
    FakeSat sat{GnssID::GPS, 7};
    meas::GnssObservation o1, o2;
    DQ e2r, r2n, b1, b2;
    double c1[2], c2[2], s1, s2, g[3], xi;
};
static void rcSetup(RC& p, int which, bool jac = false)
{
    p.o1.setZero();
    p.o1.sat_num = 7;
    p.o2 = p.o1;
    p.o1.t = UTCTime((int64_t)1600000000, (int64_t)300000000);
    p.o2.t = UTCTime((int64_t)1600000001, (int64_t)300000000);
    p.o1.carrier_phase = sym_real("cp1");
    p.o2.carrier_phase = sym_real("cp2");
    p.sat.wl = sym_real("lambda");
    setup(p.sat, p.o1.t, 0, "sp1", "sv1", "sc1");
    setup(p.sat, p.o2.t, 1, "sp2", "sv2", "sc2");
    p.e2r = which == 3 ? pose("e2r", "te2r") : fixedPose(2);
    p.r2n = which == 2 ? pose("r2n", "tr2n") : fixedPose(1);
    p.b1 = which == 0 ? pose("b1", "tb1") : fixedPose(0);
    p.b2 = which == 1 ? pose("b2", "tb2") : fixedPose(1);
    // derivative against r2n: the lever arm is a number (both antennas move)
    for (int i = 0; i < 3; ++i) p.g[i] = which == 2 && jac ? 0.5 * (i - 1) : sym_real("pbg");
    for (int i = 0; i < 2; ++i) { p.c1[i] = sym_real("c1"); p.c2[i] = sym_real("c2"); }
    p.s1 = sym_real("s1");
    p.s2 = sym_real("s2");
    p.xi = sym_real("xi");
}
static double phaseRange(const RC& p, const DQ& b, const satellite::SatelliteState& s, double clk)
{
    Vec3 pe, ve;
    antenna(p.e2r, p.r2n, b, Vec3(p.g[0], p.g[1], p.g[2]), Vec3::Zero(), &pe, &ve);
    const double sag = OMEGA_EARTH * (s.pos.x() * pe.y() - s.pos.y() * pe.x()) / C_LIGHT;
    return (s.pos - pe).norm() + sag + C_LIGHT * (clk * 1e-9 - s.clk(0));
}
static void rcResidual(int which)
{
    RC p;
    rcSetup(p, which);
    const models::RelativeCarrierPhase m(p.o1, p.o2, p.sat, REC, p.e2r, p.xi);
    const double* par[] = {p.b1.data(), p.b2.data(), p.c1, p.c2, &p.s1, &p.s2, p.r2n.data(), p.g};
    double r;
    m.Evaluate(par, &r, nullptr);
    const double dr = phaseRange(p, p.b2, p.sat.last[1], p.c2[0]) - phaseRange(p, p.b1, p.sat.last[0], p.c1[0]);
    const double dphi = p.o2.carrier_phase - p.o1.carrier_phase;
    const double gain = p.xi * p.s1 * p.s2;
    // up to the factor between metres and cycles, which is a matter of its own (h_rc_units)
    sym_assert_eq(r, gain * (dphi - p.sat.wl * dr), T, "residual is the weighted difference of measured and predicted phase change");
    sym_reach("end");
}
extern "C" void h_rc_res_b1() { rcResidual(0); }
extern "C" void h_rc_res_b2() { rcResidual(1); }
extern "C" void h_rc_res_r2n() { rcResidual(2); }
extern "C" void h_rc_res_e2r() { rcResidual(3); }
extern "C" void h_rc_units()
{
    RC p;
    rcSetup(p, -1);
    sym_assume((p.sat.wl > 0.1) & (p.sat.wl < 0.3));
    const models::RelativeCarrierPhase m(p.o1, p.o2, p.sat, REC, p.e2r, p.xi);
    const double* par[] = {p.b1.data(), p.b2.data(), p.c1, p.c2, &p.s1, &p.s2, p.r2n.data(), p.g};
    double r, r2;
    m.Evaluate(par, &r, nullptr);
    p.c2[0] += 1;   // one nanosecond more of receiver clock error: c * 1 ns more of range
    m.Evaluate(par, &r2, nullptr);
    sym_assert_eq((r2 - r) * p.sat.wl, -p.xi * p.s1 * p.s2 * (C_LIGHT * 1e-9), T, "a range change of one wavelength is one cycle");
    sym_reach("end");
}
struct RCtx
{
    const models::RelativeCarrierPhase* m;
    RC* p;
    int which;
    Vec6 d6;
    Vec3 d3;
};
static void f_rc(double t, void* c, double* o)
{
    RCtx* x = (RCtx*)c;
    RC& p = *x->p;
    double a[8], b[8], r[8], c1[2], c2[2], g[3], s1 = p.s1, s2 = p.s2;
    const Vec8 da = p.b1.dParamDGen() * x->d6, db = p.b2.dParamDGen() * x->d6, dr = p.r2n.dParamDGen() * x->d6;
    for (int i = 0; i < 8; ++i)
    {
        a[i] = p.b1[i];
        b[i] = p.b2[i];
        r[i] = p.r2n[i];
        if (x->which == 0) a[i] = a[i] + t * da(i);
        if (x->which == 1) b[i] = b[i] + t * db(i);
        if (x->which == 6) r[i] = r[i] + t * dr(i);
    }
    for (int i = 0; i < 3; ++i)
    {
        g[i] = p.g[i];
        if (x->which == 7) g[i] = g[i] + t * x->d3(i);
    }
    for (int i = 0; i < 2; ++i)
    {
        c1[i] = p.c1[i];
        c2[i] = p.c2[i];
        if (x->which == 2) c1[i] = c1[i] + t * x->d3(i);
        if (x->which == 3) c2[i] = c2[i] + t * x->d3(i);
    }
    if (x->which == 4) s1 = s1 + t * x->d3(0);
    if (x->which == 5) s2 = s2 + t * x->d3(0);
    const double* par[] = {a, b, c1, c2, &s1, &s2, r, g};
    x->m->Evaluate(par, o, nullptr);
}
static void rcJac(int sympose, int which)
{
    RC p;
    rcSetup(p, sympose, true);
    const models::RelativeCarrierPhase m(p.o1, p.o2, p.sat, REC, p.e2r, p.xi);
    const double* par[] = {p.b1.data(), p.b2.data(), p.c1, p.c2, &p.s1, &p.s2, p.r2n.data(), p.g};
    static const int W[] = {8, 8, 2, 2, 1, 1, 8, 3};
    double J[8];
    double* jac[8] = {nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
    jac[which] = J;
    double r, r2;
    m.Evaluate(par, &r, jac);
    m.Evaluate(par, &r2, nullptr);
    sym_assert_eq(r, r2, T, "residual does not depend on asking for Jacobians");
    RCtx c;
    c.m = &m;
    c.p = &p;
    c.which = which;
    Vec8 d = Vec8::Zero();
    c.d6.setZero();
    c.d3.setZero();
    if (W[which] == 8)
    {
        c.d6 << rv("dw"), rv("dt");
        d = (which == 0 ? p.b1 : which == 1 ? p.b2 : p.r2n).dParamDGen() * c.d6;
    }
    else
    {
        c.d3 = rv("d");
        for (int i = 0; i < W[which]; ++i) d(i) = c.d3(i);
    }
    double o, e = 0;
    sym_jvp(f_rc, &c, &o, 1);
    for (int k = 0; k < W[which]; ++k) e += J[k] * d(k);
    if (which >= 2 && which <= 5)
        sym_assert_eq(e, o, TJ, "Jacobian is the derivative");
    else
    {
        // the model neglects the change of the Earth-rotation term with position
        RCtx c2 = c;
        (void)c2;
        Vec3 p0, p1, v;
        const DQ& b = which == 1 ? p.b2 : p.b1;
        (void)b;
        const double gain = p.xi * p.s1 * p.s2;
        double sagd = 0;
        for (int k = 0; k < 2; ++k)
        {
            // derivative of the antenna position at epoch k along d (the position is affine in the translation part and
            // quadratic in the rotation part, so a central difference with unit step is exact)
            Vec3 pp[2];
            for (int s = 0; s < 2; ++s)
            {
                const double h = s ? 1.0 : -1.0;
                double a[8];
                const DQ& src = which == 6 ? p.r2n : k ? p.b2 : p.b1;
                for (int i = 0; i < 8; ++i) a[i] = src[i] + ((which == 6 || which == k) ? h * d(i) : 0.0);
                const DQ mod(a);
                Vec3 g(p.g[0], p.g[1], p.g[2]);
                if (which == 7) g += h * c.d3;
                antenna(p.e2r, which == 6 ? mod : p.r2n, which == 6 ? (k ? p.b2 : p.b1) : mod, g, Vec3::Zero(), &pp[s], &v);
            }
            const Vec3 dp = 0.5 * (pp[1] - pp[0]);
            const Vec3& sp = p.sat.last[k].pos;
            sagd += (k ? 1.0 : -1.0) * OMEGA_EARTH / C_LIGHT * (sp.x() * dp.y() - sp.y() * dp.x());
        }
        sym_assert_eq(e, o + gain * p.sat.wl * sagd, TJ, "Jacobian is the derivative up to the Earth-rotation term");
    }
    sym_reach("end");
}
extern "C" void h_rc_jac_b1() { rcJac(0, 0); }
extern "C" void h_rc_jac_b2() { rcJac(1, 1); }
extern "C" void h_rc_jac_c1() { rcJac(-1, 2); }
extern "C" void h_rc_jac_c2() { rcJac(-1, 3); }
extern "C" void h_rc_jac_s1() { rcJac(-1, 4); }
extern "C" void h_rc_jac_s2() { rcJac(-1, 5); }
extern "C" void h_rc_jac_r2n() { rcJac(2, 6); }
extern "C" void h_rc_jac_pbg() { rcJac(0, 7); }
extern "C" void h_rc_jac_pbg2() { rcJac(1, 7); }
// mismatched inputs are refused
extern "C" void h_rc_refuse()
{
    RC p;
    rcSetup(p, -1);
    const int k = sym_choice("what", 0, 5);
    if (k == 0) p.o2.gnss_id = GnssID::Galileo;
    if (k == 1) p.o2.sat_num = 8;
    if (k == 2) p.o2.freq = 1;
    if (k == 3) p.o1.gnss_id = p.o2.gnss_id = GnssID::Galileo;
    if (k == 4) p.o1.sat_num = p.o2.sat_num = 8;
    if (k == 5) p.sat.n_alm = 0;
    sym_reach("before");
    const models::RelativeCarrierPhase m(p.o1, p.o2, p.sat, REC, p.e2r, p.xi);
    sym_assert(false, "mismatched observations are refused");
}

// ---------------------------------------------------------------- pose prior
extern "C" void h_pose_err()
{
    const DQ anchor = fixedPose(1);
    const DQ P = pose("q", "t");
    Vec6 Xi;
    Xi << rv("xi"), rv("xj");
    const models::PoseError m(anchor, Xi);
    const double* par[] = {P.data()};
    double r[6];
    m.Evaluate(par, r, nullptr);
    const DQ E = anchor.inverse() * P;
    sym_assume(E.real().bar().squaredNorm() > 1e-4);
    const Vec6 e = E.log();
    for (int i = 0; i < 6; ++i) sym_assert_eq(r[i], Xi(i) * e(i), T, "residual is the weighted error in the tangent space");
    sym_reach("end");
}
extern "C" void h_pose_err_jac()
{
    const DQ anchor = fixedPose(1);
    static const double QS[3][4] = {{0.5, 0.5, -0.5, 0.5}, {0.8, 0, 0.6, 0}, {2. / 3, 1. / 3, 2. / 3, 0}};
    const double* qs = QS[sym_choice("rotation", 0, 2)];
    const Vec3 tr = rv("t");
    const DQ P(Q(qs[0], qs[1], qs[2], qs[3]), tr);
    Vec6 Xi, d6;
    Xi << rv("xi"), rv("xj");
    d6 << rv("dw"), rv("dt");
    const models::PoseError m(anchor, Xi);
    const double* par[] = {P.data()};
    double r[6], r2[6], J[48];
    double* jac[] = {J};
    double* none[] = {nullptr};
    const DQ E = anchor.inverse() * P;
    m.Evaluate(par, r, jac);
    m.Evaluate(par, r2, none);
    // moving the pose by exp(d) on the right moves the error by exp(d) on the right
    Mat6 dlog;
    const Vec6 e = E.log<JacobianSide::RIGHT>(&dlog);
    const Vec6 de = dlog * d6;
    const Vec8 dp = P.dParamDGen() * d6;
    for (int i = 0; i < 6; ++i)
    {
        sym_assert_eq(r[i], Xi(i) * e(i), T, "residual does not depend on asking for Jacobians");
        sym_assert_eq(r2[i], Xi(i) * e(i), T, "residual with Jacobians switched off");
        double x = 0;
        for (int k = 0; k < 8; ++k) x += J[8 * i + k] * dp(k);
        sym_assert_eq(x, Xi(i) * de(i), T, "Jacobian is the weighted Jacobian of the logarithm");
    }
    sym_reach("end");
}
