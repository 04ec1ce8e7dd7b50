// EKF dynamics and measurement models (core/ekf/rtk_ekf_impl.cxx)
#include <array>
#include <type_traits>
#include <limits>
#include <functional>
#include <vector>
#include "sym.h"
#include "core/ekf/rtk_ekf.h"
using namespace mc;
using namespace mc::ekf;
using DQ = math::DQuat<double>;
using Q = math::Quat<double>;
static const double T = 1e-9, TJ = 1e-5, G = 9.80665, C = 299792458.0, WE = 7.2921151467e-5;

static Vec3 rv(const char* n)
{
    Vec3 v;
    for (int i = 0; i < 3; ++i) v(i) = sym_real(n);
    return v;
}
static Vec2 rv2(const char* n)
{
    Vec2 v;
    for (int i = 0; i < 2; ++i) v(i) = sym_real(n);
    return v;
}
static Vec3 dir(const char* n)
{
    const Vec3 v = rv(n);
    for (int i = 0; i < 3; ++i) sym_assume((v(i) <= 1) & (v(i) >= -1));
    return v;
}
static Q uq(const char* n)
{
    double b[4];
    sym_unit_quat(n, b);
    return Q(b[0], b[1], b[2], b[3]);
}
static Mat3 dcm(const Q& q)
{
    const double w = q.arr_(0), x = q.arr_(1), y = q.arr_(2), z = q.arr_(3);
    Mat3 r;
    r << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
        2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
        2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return r;
}
static Vec3 crs(const Vec3& a, const Vec3& b)
{
    return Vec3(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
}
static const double QS[4][4] = {{1, 0, 0, 0}, {0.5, 0.5, -0.5, 0.5}, {0.8, 0, 0.6, 0}, {0.2, 0.4, 0.8, -0.4}};
static Q fixedRot(int k) { return Q(QS[k][0], QS[k][1], QS[k][2], QS[k][3]); }

static void rest(State& x, int n)
{
    x.vel = rv("vel");
    x.acc_bias = rv("ba");
    x.gyro_bias = rv("bg");
    x.gps_clk = rv2("gps");
    x.gal_clk = rv2("gal");
    x.glo_clk = rv2("glo");
    x.p_b2g = rv("p_b2g");
    x.num_sd = n;
    for (int i = 0; i < n; ++i) x.sd[i](0) = sym_real("sd");
}
static Input input()
{
    Input u;
    u.accel = rv("accel");
    u.gyro = rv("gyro");
    return u;
}
static ErrorState zero()
{
    ErrorState e;
    e.setZero();
    return e;
}
static void same(const ErrorState& a, const ErrorState& b, const char* m, int n)
{
    for (int i = 0; i < 6; ++i) sym_assert_eq(a.pose(i), b.pose(i), T, m);
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(a.vel(i), b.vel(i), T, m);
        sym_assert_eq(a.acc_bias(i), b.acc_bias(i), T, m);
        sym_assert_eq(a.gyro_bias(i), b.gyro_bias(i), T, m);
        sym_assert_eq(a.p_b2g(i), b.p_b2g(i), T, m);
    }
    for (int i = 0; i < 2; ++i)
    {
        sym_assert_eq(a.gps_clk(i), b.gps_clk(i), T, m);
        sym_assert_eq(a.gal_clk(i), b.gal_clk(i), T, m);
        sym_assert_eq(a.glo_clk(i), b.glo_clk(i), T, m);
    }
    for (int i = 0; i < 6; ++i) sym_assert_eq(a.T_I2e(i), b.T_I2e(i), T, m);
    for (int i = 0; i < n; ++i) sym_assert_eq(a.sd(i)(0), b.sd(i)(0), T, m);
}

// ---------------------------------------------------------------- dynamics
extern "C" void h_dynamics()
{
    State x;
    x.pose = DQ(uq("q"), rv("p"));
    x.T_I2e = DQ(fixedRot(1), Vec3(1, 2, 3));
    const int n = sym_choice("sd", 0, 2);
    rest(x, n);
    const Input u = input();
    const ErrorState f = dynamics(x, u, nullptr, nullptr);
    ErrorState e = zero();
    const Vec3 w = u.gyro - x.gyro_bias, g = dcm(x.pose.rotation()).transpose() * Vec3(0, 0, G);
    e.pose << w(0), w(1), w(2), x.vel(0), x.vel(1), x.vel(2);
    e.vel = u.accel - x.acc_bias + g;
    e.gps_clk(0) = x.gps_clk(1);
    e.gal_clk(0) = x.gal_clk(1);
    e.glo_clk(0) = x.glo_clk(1);
    same(f, e, "rates", n);
    StateJac A;
    InputJac B;
    same(dynamics(x, u, &A, &B), e, "rates with Jacobians", n);
    sym_reach("end");
}
// the error of a pose whose twist is (w, v) turns with -ad(w, v); everything else is the derivative of the rates
static ErrorState lin(const State& x, const Input& u, const ErrorState& d, const Input& eta)
{
    const Vec3 w = u.gyro - x.gyro_bias, g = dcm(x.pose.rotation()).transpose() * Vec3(0, 0, G);
    const Vec3 dr(d.pose(0), d.pose(1), d.pose(2)), dp(d.pose(3), d.pose(4), d.pose(5));
    const Vec3 r = -crs(w, dr) - d.gyro_bias + eta.gyro, p = -crs(x.vel, dr) - crs(w, dp) + d.vel;
    ErrorState e = zero();
    e.pose << r(0), r(1), r(2), p(0), p(1), p(2);
    e.vel = crs(g, dr) - d.acc_bias + eta.accel;
    e.gps_clk(0) = d.gps_clk(1);
    e.gal_clk(0) = d.gal_clk(1);
    e.glo_clk(0) = d.glo_clk(1);
    return e;
}
extern "C" void h_lin()
{
    State x;
    x.pose = DQ(uq("q"), rv("p"));
    x.T_I2e = DQ(fixedRot(1), Vec3(1, 2, 3));
    const int n = sym_choice("sd", 0, 2);
    rest(x, n);
    const Input u = input();
    ErrorState d = zero();
    for (int i = 0; i < 6; ++i) d.pose(i) = sym_real("dpose"), d.T_I2e(i) = sym_real("dT");
    d.vel = rv("dvel");
    d.acc_bias = rv("dba");
    d.gyro_bias = rv("dbg");
    d.p_b2g = rv("dpb2g");
    d.gps_clk = rv2("dgps");
    d.gal_clk = rv2("dgal");
    d.glo_clk = rv2("dglo");
    for (int i = 0; i < n; ++i) d.sd(i)(0) = sym_real("dsd");
    Input eta;
    eta.accel = rv("na");
    eta.gyro = rv("nw");
    const ErrorState e = lin(x, u, d, eta);
    same(errorStateDynamics(d, x, u, eta), e, "error dynamics", n);
    StateJac A;
    InputJac B;
    dynamics(x, u, &A, &B);
    const int only = sym_choice("only", 0, 2);
    if (only == 1)
    {
        StateJac A1;
        dynamics(x, u, &A1, nullptr);
        A = A1;
    }
    if (only == 2)
    {
        InputJac B1;
        dynamics(x, u, nullptr, &B1);
        B = B1;
    }
    const Eigen::MatrixXd Ad = A.dense(n), Bd = B.dense(n);
    sym_assert((Ad.rows() == 30 + n) & (Ad.cols() == 30 + n) & (Bd.rows() == 30 + n) & (Bd.cols() == 6), "sizes");
    const Eigen::VectorXd v = d.dense(n), want = e.dense(n);
    double ev[6] = {eta.accel(0), eta.accel(1), eta.accel(2), eta.gyro(0), eta.gyro(1), eta.gyro(2)};
    for (int i = 0; i < 30 + n; ++i)
    {
        double y = 0;
        for (int j = 0; j < 30 + n; ++j) y += Ad(i, j) * v(j);
        for (int j = 0; j < 6; ++j) y += Bd(i, j) * ev[j];
        sym_assert_eq(y, want(i), T, "transition and input Jacobians");
    }
    sym_reach("end");
}
// -ad is how errors turn: the derivative of the adjoint of the backwards motion
struct AdCtx
{
    Vec6 f, d;
};
static void f_ad(double t, void* vp, double* out)
{
    AdCtx* c = (AdCtx*)vp;
    const Vec6 m = -t * c->f;
    const Vec6 y = DQ::exp(m).Ad() * c->d;
    for (int i = 0; i < 6; ++i) out[i] = y(i);
}
extern "C" void h_ad()
{
    AdCtx c;
    c.f << dir("w"), dir("v");
    c.d << dir("dr"), dir("dp");
    double o[6];
    sym_jvp(f_ad, &c, o, 6);
    const Vec3 w(c.f(0), c.f(1), c.f(2)), v(c.f(3), c.f(4), c.f(5)), dr(c.d(0), c.d(1), c.d(2)), dp(c.d(3), c.d(4), c.d(5));
    const Vec3 a = -crs(w, dr), b = -crs(v, dr) - crs(w, dp);
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(o[i], a(i), TJ, "rotation error");
        sym_assert_eq(o[3 + i], b(i), TJ, "position error");
    }
    sym_reach("end");
}

// ---------------------------------------------------------------- receiver position and velocity
struct Rec
{
    Vec3 p, v;
};
static Rec receiver(const State& x, const Input& u)
{
    const Mat3 Rb = dcm(x.pose.rotation()), Re = dcm(x.T_I2e.rotation()).transpose();
    const Vec3 pI = Rb * x.p_b2g + x.pose.translation();
    return {Re * (pI - x.T_I2e.translation()), Re * (Rb * (crs(u.gyro, x.p_b2g) + x.vel))};
}
// one of the two rotations is general at a time
static void poses(State& x, bool general)
{
    const int k = sym_choice("rotations", 0, 3);
    if (general)
    {
        const Q q = uq("q");
        const Vec3 a = rv("p"), b = rv("pe");
        if (k & 1)
            x.pose = DQ(q, a), x.T_I2e = DQ(fixedRot(k), b);
        else
            x.pose = DQ(fixedRot(k), a), x.T_I2e = DQ(q, b);
    }
    else
    {
        const Vec3 a = rv("p"), b = rv("pe");
        x.pose = DQ(fixedRot(k), a);
        x.T_I2e = DQ(fixedRot(3 - k), b);
    }
}
extern "C" void h_point()
{
    State x;
    rest(x, 0);
    const Input u = input();
    poses(x, true);
    pointPosMeas::ZType z;
    for (int i = 0; i < 6; ++i) z(i) = sym_real("z");
    const Rec r = receiver(x, u);
    const pointPosMeas::Residual a = h<pointPosMeas>(z, x, nullptr, u);
    pointPosMeas::Jac J;
    const pointPosMeas::Residual b = h<pointPosMeas>(z, x, &J, u);
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(a(i), z(i) - r.p(i), T, "position residual");
        sym_assert_eq(a(3 + i), z(3 + i) - r.v(i), T, "velocity residual");
    }
    for (int i = 0; i < 6; ++i) sym_assert_eq(a(i), b(i), T, "the residual does not depend on asking for Jacobians");
    sym_reach("end");
}

// ---------------------------------------------------------------- Jacobians
struct Dir
{
    Vec6 pose, te;
    Vec3 vel, ba, bg, pb;
    Vec2 gps, gal, glo;
    double sd;
};
static Dir direction(int part)
{
    Dir d;
    d.pose.setZero();
    d.te.setZero();
    d.vel.setZero();
    d.ba.setZero();
    d.bg.setZero();
    d.pb.setZero();
    d.gps.setZero();
    d.gal.setZero();
    d.glo.setZero();
    d.sd = 0;
    if (part == 0) d.pose << dir("dw"), dir("dt");
    if (part == 1) d.te << dir("dw"), dir("dt");
    if (part == 2) d.vel = dir("d");
    if (part == 3) d.pb = dir("d");
    if (part == 4)
    {
        const Vec3 a = dir("da"), b = dir("db");
        d.gps << a(0), b(0);
        d.gal << a(1), b(1);
        d.glo << a(2), b(2);
        d.ba = dir("dba");
        d.bg = dir("dbg");
    }
    return d;
}
// the direction as an element of the dense error state
static Eigen::VectorXd flat(const Dir& d, int n)
{
    ErrorState e;
    e.setZero();
    e.pose = d.pose;
    e.T_I2e = d.te;
    e.vel = d.vel;
    e.acc_bias = d.ba;
    e.gyro_bias = d.bg;
    e.p_b2g = d.pb;
    e.gps_clk = d.gps;
    e.gal_clk = d.gal;
    e.glo_clk = d.glo;
    return e.dense(n);
}
struct JCtx
{
    const State* x;
    const Input* u;
    const void* z;
    Dir d;
    Vec8 dp, de;
    Vec3 e;
};
static State moved(const JCtx& c, double t)
{
    State x = *c.x;
    Vec8 a, b;
    for (int i = 0; i < 8; ++i) a(i) = c.x->pose.data()[i] + t * c.dp(i), b(i) = c.x->T_I2e.data()[i] + t * c.de(i);
    x.pose = DQ(a.data());
    x.T_I2e = DQ(b.data());
    x.vel += t * c.d.vel;
    x.acc_bias += t * c.d.ba;
    x.gyro_bias += t * c.d.bg;
    x.p_b2g += t * c.d.pb;
    x.gps_clk += t * c.d.gps;
    x.gal_clk += t * c.d.gal;
    x.glo_clk += t * c.d.glo;
    return x;
}
static void f_point(double t, void* vp, double* out)
{
    JCtx* c = (JCtx*)vp;
    const State x = moved(*c, t);
    const pointPosMeas::Residual r = h<pointPosMeas>(*(const pointPosMeas::ZType*)c->z, x, nullptr, *c->u);
    for (int i = 0; i < 6; ++i) out[i] = r(i);
}
static void point_jac(int part)
{
    State x;
    const int n = 1;
    rest(x, n);
    const Input u = input();
    const Dir d = direction(part);
    poses(x, false);
    pointPosMeas::ZType z;
    z.setZero();
    pointPosMeas::Jac J;
    h<pointPosMeas>(z, x, &J, u);
    JCtx c{&x, &u, &z, d, x.pose.dParamDGen() * d.pose, x.T_I2e.dParamDGen() * d.te, Vec3::Zero()};
    double o[6];
    sym_jvp(f_point, &c, o, 6);
    const Eigen::MatrixXd D = J.dense(n);
    const Eigen::VectorXd v = flat(d, n);
    for (int i = 0; i < 6; ++i)
    {
        double y = 0;
        for (int j = 0; j < 30; ++j) y += D(i, j) * v(j);
        sym_assert_eq(y, o[i], TJ, "Jacobian of the position and velocity residual");
        sym_assert_eq(D(i, 30), 0, T, "no effect of the ambiguities");
    }
    sym_reach("end");
}
extern "C" void h_point_pose() { point_jac(0); }
extern "C" void h_point_frame() { point_jac(1); }
extern "C" void h_point_rest() { point_jac(sym_choice("part", 2, 4)); }

// ---------------------------------------------------------------- pseudorange and Doppler
static satellite::SatelliteCache satellite_()
{
    satellite::SatelliteCache s;
    s.cache_rec_pos.setZero();
    s.state.pos = rv("sat");
    s.state.vel = rv("satvel");
    s.state.clk = rv2("satclk");
    s.sagnac = sym_real("sagnac");
    s.atm.ionospheric_delay_m = sym_real("iono");
    s.atm.tropospheric_delay_m = sym_real("tropo");
    return s;
}
static const int ID[3] = {GnssID::GPS, GnssID::Galileo, GnssID::Glonass};
extern "C" void h_obs()
{
    State x;
    rest(x, 0);
    const Input u = input();
    // two satellites, one of each pair of systems, or one
    const satellite::SatelliteCache s0 = satellite_(), s1 = satellite_();
    const Vec2 z0 = rv2("z"), z1 = rv2("z");
    poses(x, false);
    const int a = sym_choice("system", 0, 2), n = sym_choice("satellites", 0, 2);
    const int id[2] = {ID[a], ID[(a + 1) % 3]};
    obsMeas::ZType z;
    if (n > 0) z.push_back({z0, s0, id[0]});
    if (n > 1) z.push_back({z1, s1, id[1]});
    const Rec r = receiver(x, u);
    const satellite::SatelliteCache* s[2] = {&s0, &s1};
    Vec3 e[2];
    double rho[2];
    for (int k = 0; k < n; ++k)
    {
        const Vec3 l = s[k]->state.pos - r.p;
        const double q = l(0) * l(0) + l(1) * l(1) + l(2) * l(2);
        sym_assume(q > 1);
        rho[k] = std::sqrt(q);
        e[k] = l / rho[k];
    }
    obsMeas::Jac J;
    const obsMeas::Residual res = h<obsMeas>(z, x, nullptr, u), res2 = h<obsMeas>(z, x, &J, u);
    for (int k = 0; k < n; ++k)
    {
        const Vec2& clk = id[k] == GnssID::GPS ? x.gps_clk : id[k] == GnssID::Galileo ? x.gal_clk : x.glo_clk;
        const satellite::SatelliteCache& c = *s[k];
        const double pr = rho[k] + c.sagnac + c.atm.ionospheric_delay_m + c.atm.tropospheric_delay_m + C * (clk(0) * 1e-9 - c.state.clk(0));
        const Vec3 dv = c.state.vel - r.v;
        const Vec3 &P = c.state.pos, &V = c.state.vel;
        const double dop = dv(0) * e[k](0) + dv(1) * e[k](1) + dv(2) * e[k](2) +
                           WE / C * (V(1) * r.p(0) + P(1) * r.v(0) - V(0) * r.p(1) - P(0) * r.v(1)) + C * (clk(1) * 1e-9 - c.state.clk(1));
        sym_assert_eq(res(2 * k), z[k].z(0) - pr, T, "pseudorange residual");
        sym_assert_eq(res(2 * k + 1), z[k].z(1) - dop, T, "Doppler residual");
        for (int i = 0; i < 2; ++i) sym_assert_eq(res2(2 * k + i), res(2 * k + i), T, "the residual does not depend on asking for Jacobians");
    }
    sym_reach("end");
}
// row 0: the pseudorange residual of the code; row 1: the Doppler with the line of sight held
static void f_obs(double t, void* vp, double* out)
{
    JCtx* c = (JCtx*)vp;
    const State x = moved(*c, t);
    const obsMeas::ZType& z = *(const obsMeas::ZType*)c->z;
    const obsMeas::Residual r = h<obsMeas>(z, x, nullptr, *c->u);
    out[0] = r(0);
    const Rec q = receiver(x, *c->u);
    const Vec2& clk = z[0].gnss_id == GnssID::GPS ? x.gps_clk : z[0].gnss_id == GnssID::Galileo ? x.gal_clk : x.glo_clk;
    out[1] = q.v(0) * c->e(0) + q.v(1) * c->e(1) + q.v(2) * c->e(2) - C * 1e-9 * clk(1);
}
static void obs_jac(int part)
{
    State x;
    const int n = 1;
    rest(x, n);
    const Input u = input();
    const satellite::SatelliteCache s = satellite_();
    const Dir d = direction(part);
    poses(x, false);
    const int a = part == 4 ? sym_choice("system", 0, 2) : 0;
    obsMeas::ZType z;
    z.push_back({Vec2(0, 0), s, ID[a]});
    const Rec r = receiver(x, u);
    const Vec3 l = s.state.pos - r.p;
    const double q = l(0) * l(0) + l(1) * l(1) + l(2) * l(2);
    sym_assume(q > 1);
    const double rho = std::sqrt(q);
    obsMeas::Jac J;
    h<obsMeas>(z, x, &J, u);
    JCtx c{&x, &u, &z, d, x.pose.dParamDGen() * d.pose, x.T_I2e.dParamDGen() * d.te, l / rho};
    double o[2];
    sym_jvp(f_obs, &c, o, 2);
    const Eigen::MatrixXd D = J.dense(1, n);
    const Eigen::VectorXd v = flat(d, n);
    for (int i = 0; i < 2; ++i)
    {
        double y = 0;
        for (int j = 0; j < 30; ++j) y += D(i, j) * v(j);
        sym_assert_eq(y, o[i], TJ, i ? "Doppler Jacobian, line of sight held" : "pseudorange Jacobian");
        sym_assert_eq(D(i, 30), 0, T, "no effect of the ambiguities");
    }
    sym_reach("end");
}
extern "C" void h_obs_pose() { obs_jac(0); }
extern "C" void h_obs_frame() { obs_jac(1); }
extern "C" void h_obs_rest() { obs_jac(sym_choice("part", 2, 4)); }
// satellites do not influence each other's rows
extern "C" void h_obs_rows()
{
    State x;
    rest(x, 0);
    const Input u = input();
    const satellite::SatelliteCache s0 = satellite_(), s1 = satellite_(), s2 = satellite_();
    poses(x, false);
    const Rec r = receiver(x, u);
    const satellite::SatelliteCache* sp[3] = {&s0, &s1, &s2};
    for (int k = 0; k < 3; ++k)
    {
        const Vec3 l = sp[k]->state.pos - r.p;
        sym_assume(l(0) * l(0) + l(1) * l(1) + l(2) * l(2) > 1);
    }
    const int a = sym_choice("order", 0, 2);
    obsMeas::ZType z, one;
    for (int k = 0; k < 3; ++k) z.push_back({Vec2(k, 2 * k), *sp[k], ID[(k + a) % 3]});
    obsMeas::Jac J, J1;
    const obsMeas::Residual res = h<obsMeas>(z, x, &J, u);
    const Eigen::MatrixXd D = J.dense(3, 0);
    for (int k = 0; k < 3; ++k)
    {
        one.clear();
        one.push_back({Vec2(k, 2 * k), *sp[k], ID[(k + a) % 3]});
        const obsMeas::Residual r1 = h<obsMeas>(one, x, &J1, u);
        const Eigen::MatrixXd D1 = J1.dense(1, 0);
        for (int i = 0; i < 2; ++i)
        {
            sym_assert_eq(res(2 * k + i), r1(i), T, "residual of one satellite among several");
            for (int j = 0; j < 30; ++j) sym_assert_eq(D(2 * k + i, j), D1(i, j), T, "Jacobian rows of one satellite among several");
        }
    }
    sym_reach("end");
}

// ---------------------------------------------------------------- fixed ambiguities
extern "C" void h_fix()
{
    static const int NS[4] = {0, 1, 3, 30};
    const int n = NS[sym_choice("n", 0, 3)];
    State x;
    x.pose = DQ(fixedRot(1), Vec3(1, 2, 3));
    x.T_I2e = DQ(fixedRot(2), Vec3(3, 2, 1));
    rest(x, n);
    fixAndHoldMeas::ZType z;
    for (int i = 0; i < n; ++i)
    {
        Vec1 v;
        v(0) = sym_real("z");
        z.push_back(v);
    }
    fixAndHoldMeas::Jac J;
    const fixAndHoldMeas::Residual a = h<fixAndHoldMeas>(z, x, nullptr), b = h<fixAndHoldMeas>(z, x, &J);
    const Eigen::MatrixXd D = J.dense(n, n);
    for (int i = 0; i < n; ++i)
    {
        sym_assert_eq(a(i), z[i](0) - x.sd[i](0), T, "fixed ambiguity residual");
        sym_assert_eq(b(i), a(i), T, "the residual does not depend on asking for Jacobians");
        for (int j = 0; j < 30; ++j) sym_assert_eq(D(i, j), 0, T, "no effect of the other states");
        for (int j = 0; j < n; ++j) sym_assert_eq(D(i, 30 + j), i == j ? -1 : 0, T, "fixed ambiguity Jacobian");
    }
    sym_reach("end");
}
extern "C" void h_fix_size()
{
    State x;
    x.pose = DQ(fixedRot(1), Vec3(1, 2, 3));
    x.T_I2e = DQ(fixedRot(2), Vec3(3, 2, 1));
    const int n = sym_choice("n", 0, 2), m = sym_choice("m", 0, 2);
    rest(x, n);
    fixAndHoldMeas::ZType z;
    for (int i = 0; i < m; ++i) z.push_back(Vec1(Vec1::Zero()));
    sym_reach("start");
    if (n == m) return;
    h<fixAndHoldMeas>(z, x, nullptr);
    sym_assert(false, "as many fixed ambiguities as states");
}
