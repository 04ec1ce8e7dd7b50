// IMU preintegration (models/imu_model.*, models/imu_state.*)
#include <array>
#include <type_traits>
#include <limits>
#include <functional>
#include <vector>
#include "sym.h"
#include "common/defs.h"
#include "common/matrix_defs.h"
#include "common/math/dquat.h"
#include "models/imu_model.h"
using namespace mc;
using namespace mc::models;
using DQ = math::DQuat<double>;
using Q = math::Quat<double>;
static const double T = 1e-9, TJ = 1e-5;
static const double G = 9.80665;

static Vec3 rv(const char* n)
{
    Vec3 v;
    for (int i = 0; i < 3; ++i) v(i) = sym_real(n);
    return v;
}
static Q uq(const char* n)
{
    double b[4];
    sym_unit_quat(n, b);
    return Q(b[0], b[1], b[2], b[3]);
}
// body-to-reference rotation of a quaternion (w x y z), written out
static Mat3 dcm(const Q& q)
{
    const double w = q.arr_(0), x = q.arr_(1), y = q.arr_(2), z = q.arr_(3);
    Mat3 r;
    r << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
        2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
        2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return r;
}
static Q mul(const Q& a, const Q& b)
{
    const double p = a.arr_(0), q = a.arr_(1), r = a.arr_(2), s = a.arr_(3), w = b.arr_(0), x = b.arr_(1), y = b.arr_(2), z = b.arr_(3);
    return Q(p * w - q * x - r * y - s * z, p * x + q * w + r * z - s * y, p * y - q * z + r * w + s * x, p * z + q * y - r * x + s * w);
}
static Vec3 crs(const Vec3& a, const Vec3& b)
{
    return Vec3(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
}
static const double QS[4][4] = {{1, 0, 0, 0}, {0.5, 0.5, -0.5, 0.5}, {0.8, 0, 0.6, 0}, {0.2, 0.4, 0.8, -0.4}};
static Q fixedRot(int k) { return Q(QS[k][0], QS[k][1], QS[k][2], QS[k][3]); }
static UTCTime at(int64_t us) { return UTCTime((int64_t)1600000000 + us / 1000000, (int64_t)(us % 1000000) * 1000); }
static meas::ImuSample sample(int64_t us, const Vec3& a, const Vec3& w)
{
    meas::ImuSample s;
    s.t = at(us);
    s.accel = a;
    s.gyro = w;
    return s;
}
static Vec6 v6(const Vec3& a, const Vec3& b)
{
    Vec6 v;
    for (int i = 0; i < 3; ++i) v(i) = a(i), v(3 + i) = b(i);
    return v;
}

// the error dynamics, linear in the error and the noise: alpha' = beta; beta' = -R(gamma) (a x dgamma + na); gamma' = -w x dgamma - nw
static Vec9 errdyn(const Mat3& R, const Vec3& a, const Vec3& w, const Vec9& e, const Vec6& n)
{
    const Vec3 g(e(6), e(7), e(8)), na(n(0), n(1), n(2)), nw(n(3), n(4), n(5));
    const Vec3 b = -(R * (crs(a, g) + na)), c = -crs(w, g) - nw;
    Vec9 o;
    o << e(3), e(4), e(5), b(0), b(1), b(2), c(0), c(1), c(2);
    return o;
}
extern "C" void h_dynamics()
{
    ImuState s;
    s.gamma = uq("q");
    s.alpha = rv("alpha");
    s.beta = rv("beta");
    const Vec3 ba = rv("ba"), bw = rv("bw");
    const Vec6 R = Vec6::Ones();
    const meas::ImuSample z = sample(0, rv("a"), rv("w"));
    const ImuModel m(z, v6(ba, bw), R);
    Vec9 e9;
    Vec6 n;
    for (int i = 0; i < 9; ++i) e9(i) = sym_real("e");
    for (int i = 0; i < 6; ++i) n(i) = sym_real("n");
    const ImuErrorState e(e9);
    ImuErrorState xdot, edot;
    Mat9 A;
    Mat96 B;
    m.dynamics(s, z, Out<ImuErrorState>(xdot), Out<Mat9>(A), Out<Mat96>(B));
    m.errorStateDynamics(s, e, z, n, Out<ImuErrorState>(edot));
    const Mat3 C = dcm(s.gamma);
    const Vec3 a = z.accel - ba, w = z.gyro - bw;
    const Vec9 want = errdyn(C, a, w, e9, n);
    const Vec3 acc = C * a;
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(xdot(i), s.beta(i), T, "position rate is the velocity");
        sym_assert_eq(xdot(3 + i), acc(i), T, "velocity rate is the rotated, bias-free acceleration");
        sym_assert_eq(xdot(6 + i), w(i), T, "rotation rate is the bias-free angular rate");
    }
    const Vec9 lin = A * e9 + B * n;
    for (int i = 0; i < 9; ++i)
    {
        sym_assert_eq(edot(i), want(i), T, "error dynamics");
        sym_assert_eq(lin(i), want(i), T, "A and B are the error dynamics");
    }
    sym_reach("end");
}

// ---------------------------------------------------------------- one step
static const int64_t DT_US[4] = {100, 5000, 250000, 1000000};
struct Step
{
    ImuState s;
    Mat9 P;
    Mat96 D;
    Vec3 a, w;
    double dt;
};
// runs integrate() from a given state; the returned model holds the result
static ImuModel* step(Step& k, const Vec6& R, bool cov, int n = -1)
{
    static Vec6 Rs;
    Rs = R;
    const int64_t us = DT_US[n < 0 ? sym_choice("dt", 0, 3) : n];
    k.dt = us * 1e-6;
    const Vec3 a0 = rv("a0"), w0 = rv("w0"), a1 = rv("a1"), w1 = rv("w1"), ba = rv("ba"), bw = rv("bw");
    ImuModel* m = new ImuModel(sample(0, a0, w0), v6(ba, bw), Rs);
    m->state() = k.s;
    if (cov)
    {
        m->covariance() = k.P;
        m->dStatedBias() = k.D;
    }
    sym_assert(m->integrate(sample(us, a1, w1)).ok(), "accepted");
    sym_assert((m->numUpdates() == 1) & (m->tf() == at(us)) & (m->t0() == at(0)), "the interval grows to the new sample");
    k.a = 0.5 * (a0 + a1) - ba;
    k.w = 0.5 * (w0 + w1) - bw;
    return m;
}
extern "C" void h_step_state()
{
    Step k;
    k.s.gamma = uq("q");
    k.s.alpha = rv("alpha");
    k.s.beta = rv("beta");
    ImuModel* m = step(k, Vec6::Ones(), false);
    const Vec3 acc = dcm(k.s.gamma) * k.a;
    const Q g = mul(k.s.gamma, Q::exp(k.w * k.dt));
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(m->state().alpha(i), k.s.alpha(i) + k.s.beta(i) * k.dt, T, "position after a step");
        sym_assert_eq(m->state().beta(i), k.s.beta(i) + acc(i) * k.dt, T, "velocity after a step");
    }
    for (int i = 0; i < 4; ++i) sym_assert_eq(m->state().gamma.arr_(i), g.arr_(i), T, "rotation after a step");
    sym_reach("end");
}
extern "C" void h_step_cov()
{
    Step k;
    const int rot = sym_choice("rot", 0, 3);
    k.s.gamma = fixedRot(rot);
    k.s.alpha = rv("alpha");
    k.s.beta = rv("beta");
    Vec9 v;
    for (int i = 0; i < 9; ++i) v(i) = sym_real("v");
    Vec6 R;
    for (int i = 0; i < 6; ++i) R(i) = sym_real("R");
    k.P = v * v.transpose();
    for (int i = 0; i < 9; ++i)
        for (int j = 0; j < 6; ++j) k.D(i, j) = sym_real("D");
    ImuModel* m = step(k, R, true, rot);
    const Mat3 C = dcm(k.s.gamma);
    const Vec6 none = Vec6::Zero();
    // v is propagated by I + A dt + (A dt)^2 / 2
    const Vec9 d1 = errdyn(C, k.a, k.w, v, none), d2 = errdyn(C, k.a, k.w, d1, none);
    const Vec9 u = v + d1 * k.dt + d2 * (0.5 * k.dt * k.dt);
    Mat96 B;
    for (int j = 0; j < 6; ++j)
    {
        Vec6 n = Vec6::Zero();
        n(j) = 1;
        B.col(j) = errdyn(C, k.a, k.w, Vec9::Zero(), n) * k.dt;
        const Vec9 d = k.D.col(j), e1 = errdyn(C, k.a, k.w, d, none), e2 = errdyn(C, k.a, k.w, e1, none);
        for (int i = 0; i < 9; ++i)
            sym_assert_eq(m->dStatedBias()(i, j), d(i) + e1(i) * k.dt + e2(i) * (0.5 * k.dt * k.dt) + B(i, j), T, "bias sensitivity after a step");
    }
    for (int i = 0; i < 9; ++i)
        for (int j = 0; j < 9; ++j)
        {
            double n = 0;
            for (int l = 0; l < 6; ++l) n += B(i, l) * R(l) * B(j, l);
            sym_assert_eq(m->covariance()(i, j), u(i) * u(j) + n, T, "covariance after a step");
        }
    sym_reach("end");
}
// samples out of order or closer than the time resolution are refused
extern "C" void h_order()
{
    static Vec6 R = Vec6::Ones();
    ImuModel m(sample(0, rv("a"), rv("w")), Vec6::Zero(), R);
    const int64_t US[4] = {0, -100, -2000000, 50};
    const int64_t us = US[sym_choice("dt", 0, 3)];
    meas::ImuSample z = sample(0, rv("a"), rv("w"));
    z.t = at(3000000 + us);
    ImuModel n(sample(3000000, rv("a"), rv("w")), Vec6::Zero(), R);
    sym_reach("start");
    n.integrate(z);
    sym_assert(false, "a sample that does not advance time is refused");
}

// ---------------------------------------------------------------- end state and residual
struct Ends
{
    DQ s, e;
    Vec3 vs, ve;
    Vec6 b;
};
static const int64_t DUR_US[3] = {10000, 500000, 2000000};
// a model over the chosen interval whose integrated state is as given
static ImuModel* between(const ImuState& s, const Mat96& D, double& dt)
{
    static Vec6 R = Vec6::Ones();
    const int64_t us = DUR_US[sym_choice("interval", 0, 2)];
    dt = us * 1e-6;
    ImuModel* m = new ImuModel(sample(0, Vec3(0, 0, 0), Vec3(0, 0, 0)), Vec6::Zero(), R);
    m->integrate(sample(us, Vec3(0, 0, 0), Vec3(0, 0, 0)));
    m->state() = s;
    m->dStatedBias() = D;
    return m;
}
static void bar(const Ends& x, double* par[5], double* vs, double* ve, double* b)
{
    for (int i = 0; i < 3; ++i) vs[i] = x.vs(i), ve[i] = x.ve(i);
    for (int i = 0; i < 6; ++i) b[i] = x.b(i);
    par[2] = vs;
    par[3] = ve;
    par[4] = b;
}
extern "C" void h_end_state()
{
    ImuState s;
    s.gamma = uq("g");
    s.alpha = rv("alpha");
    s.beta = rv("beta");
    const Q qs = fixedRot(sym_choice("start", 1, 3));
    const Vec3 ts = rv("ts");
    Ends x;
    x.s = DQ(qs, ts);
    x.vs = rv("vs");
    x.b.setZero();
    double dt;
    ImuModel* m = between(s, Mat96::Zero(), dt);
    sym_assert(m->computeEndState(x.s, x.vs, Out<DQ>(x.e), Out<Vec3>(x.ve)).ok(), "an end state exists");
    const Mat3 C = dcm(qs), Cg = dcm(s.gamma);
    const Q q = mul(qs, s.gamma);
    const Vec3 g(0, 0, G);
    // free fall from the start, plus the integrated motion in the start frame; velocities are in the body frame
    const Vec3 p = ts + C * (x.vs * dt + s.alpha) + 0.5 * dt * dt * g;
    const Vec3 v = Cg.transpose() * (x.vs + dt * (C.transpose() * g) + s.beta);
    const Vec3 tr = x.e.translation();
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(tr(i), p(i), T, "predicted position");
        sym_assert_eq(x.ve(i), v(i), T, "predicted velocity");
    }
    for (int i = 0; i < 4; ++i) sym_assert_eq(x.e.rotation().arr_(i), q.arr_(i), T, "predicted rotation");
    double *par[5] = {x.s.data(), x.e.data(), 0, 0, 0}, a[3], b[3], c[6], r[9];
    bar(x, par, a, b, c);
    m->Evaluate(par, r, nullptr);
    for (int i = 0; i < 9; ++i) sym_assert_eq(r[i], 0, T, "the residual vanishes at the predicted end state");
    sym_reach("end");
}
extern "C" void h_residual()
{
    ImuState s;
    s.gamma = fixedRot(sym_choice("gamma", 0, 3));
    s.alpha = rv("alpha");
    s.beta = rv("beta");
    Ends x;
    const int w = sym_choice("symbolic", 0, 1);
    const Q q0 = w ? fixedRot(2) : uq("q"), q1 = w ? uq("q") : fixedRot(1);
    const Vec3 t0 = rv("ts"), t1 = rv("te");
    x.s = DQ(q0, t0);
    x.e = DQ(q1, t1);
    x.vs = rv("vs");
    x.ve = rv("ve");
    x.b << rv("ba"), rv("bw");
    // the correction for the bias shifts position and velocity here; h_bias turns as well
    Mat96 D = Mat96::Zero();
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) D(i, j) = sym_real("D");
    double dt;
    ImuModel* m = between(s, D, dt);
    double *par[5] = {x.s.data(), x.e.data(), 0, 0, 0}, a[3], b[3], c[6], r[9], r2[9];
    bar(x, par, a, b, c);
    m->Evaluate(par, r, nullptr);
    double* none[5] = {nullptr, nullptr, nullptr, nullptr, nullptr};
    m->Evaluate(par, r2, none);
    const Mat3 C = dcm(q0), Cg = dcm(s.gamma);
    const Vec3 g(0, 0, G);
    const Vec3 p = C.transpose() * (t1 - t0 - 0.5 * dt * dt * g) - dt * x.vs - s.alpha;
    const Vec3 v = Cg * x.ve - x.vs - dt * (C.transpose() * g) - s.beta;
    const Q qi = s.gamma.inverse(), si = q0.inverse();
    const Vec3 l = mul(qi, mul(si, q1)).log();
    for (int i = 0; i < 3; ++i)
    {
        double dp = 0, dv = 0;
        for (int j = 0; j < 6; ++j) dp += D(i, j) * x.b(j), dv += D(3 + i, j) * x.b(j);
        sym_assert_eq(r[i], p(i) - dp, T, "position residual");
        sym_assert_eq(r[3 + i], v(i) - dv, T, "velocity residual");
        sym_assert_eq(r[6 + i], l(i), T, "rotation residual");
    }
    for (int i = 0; i < 9; ++i) sym_assert_eq(r2[i], r[i], T, "the residual does not depend on asking for Jacobians");
    sym_reach("end");
}
// the bias turns the integrated rotation by the exponential of its sensitivity
extern "C" void h_bias()
{
    ImuState s;
    s.gamma = fixedRot(sym_choice("gamma", 0, 3));
    s.alpha.setZero();
    s.beta.setZero();
    Ends x;
    x.s = DQ(fixedRot(2), Vec3(1, 2, 3));
    x.e = DQ(fixedRot(1), Vec3(-4, 5, 7));
    x.vs.setZero();
    x.ve = rv("ve");
    Mat96 D = Mat96::Zero();
    // six rotations; the rest of the sensitivity is general
    static const double RB[6][3] = {{0, 0, 0.0001}, {0.25, -0.125, 0.0625}, {0, 1.5, 0}, {-1, 1, 2}, {1e-5, 0, -3e-5}, {0.5, 0.5, 0.5}};
    const int col = sym_choice("column", 0, 5);
    for (int i = 0; i < 6; ++i) D(i, col) = sym_real("D");
    for (int i = 0; i < 3; ++i) D(6 + i, col) = RB[col][i] / 2;
    x.b.setZero();
    x.b(col) = 2;
    double dt;
    ImuModel* m = between(s, D, dt);
    double *par[5] = {x.s.data(), x.e.data(), 0, 0, 0}, a[3], b[3], c[6], r[9];
    bar(x, par, a, b, c);
    m->Evaluate(par, r, nullptr);
    const Vec3 d(D(6, col) * x.b(col), D(7, col) * x.b(col), D(8, col) * x.b(col));
    const Q g = mul(s.gamma, Q::exp(d));
    const Mat3 C = dcm(x.s.rotation());
    const Vec3 gv(0, 0, G), v = dcm(g) * x.ve - dt * (C.transpose() * gv);
    const Vec3 l = mul(g.inverse(), mul(x.s.rotation().inverse(), x.e.rotation())).log();
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(r[3 + i], v(i) - D(3 + i, col) * x.b(col), T, "velocity residual with a bias");
        sym_assert_eq(r[6 + i], l(i), T, "rotation residual with a bias");
    }
    sym_reach("end");
}

// ---------------------------------------------------------------- Jacobians
// directions: the derivative is linear, so unit size is enough
static Vec3 dir(const char* n)
{
    const Vec3 v = rv(n);
    for (int i = 0; i < 3; ++i) sym_assume((v(i) <= 1) & (v(i) >= -1));
    return v;
}
struct JCtx
{
    const ImuModel* m;
    Ends* x;
    int which;
    Vec6 d6;
    Vec3 d3;
    Vec8 d8;
};
static void f_imu(double t, void* vp, double* out)
{
    JCtx* c = (JCtx*)vp;
    Ends x = *c->x;
    const Vec6 d = t * c->d6;
    Vec8 p;
    for (int i = 0; i < 8; ++i) p(i) = (c->which ? x.e : x.s).data()[i] + t * c->d8(i);
    if (c->which == 0) x.s = DQ(p.data());
    if (c->which == 1) x.e = DQ(p.data());
    if (c->which == 2) x.vs += t * c->d3;
    if (c->which == 3) x.ve += t * c->d3;
    if (c->which == 4) x.b += d;
    double *par[5] = {x.s.data(), x.e.data(), 0, 0, 0}, a[3], b[3], e[6];
    bar(x, par, a, b, e);
    c->m->Evaluate(par, out, nullptr);
}
static void jac(int which)
{
    ImuState s;
    s.gamma = fixedRot(1);
    s.alpha = rv("alpha");
    s.beta = rv("beta");
    Ends x;
    const int k = sym_choice("rotations", 0, 2);
    x.s = DQ(fixedRot(k), rv("ts"));
    x.e = DQ(fixedRot(3 - k), rv("te"));
    x.vs = rv("vs");
    x.ve = rv("ve");
    x.b.setZero();
    Mat96 D = Mat96::Zero();
    if (which == 4)
    {
        for (int i = 0; i < 9; ++i)
            for (int j = 0; j < 6; ++j) D(i, j) = sym_real("D");
        // a fixed bias of a fixed sensitivity: the rotation it makes is not zero
        const int n = sym_choice("bias", 0, 1);
        if (n) x.b << 0.01, 0.02, -0.02, 0.03, -0.01, 0.02;
        else x.b << -0.5, 0, 0.25, 0, 1, 0;
        for (int i = 6; i < 9; ++i)
            for (int j = 0; j < 6; ++j) D(i, j) = ((i * 7 + j * 5) % 11 - 5) / 4.0;
    }
    double dt;
    ImuModel* m = between(s, D, dt);
    static const int W[5] = {8, 8, 3, 3, 6};
    double J[72];
    double* jp[5] = {nullptr, nullptr, nullptr, nullptr, nullptr};
    jp[which] = J;
    double *par[5] = {x.s.data(), x.e.data(), 0, 0, 0}, a[3], b[3], e[6], r[9], r2[9];
    bar(x, par, a, b, e);
    m->Evaluate(par, r, jp);
    m->Evaluate(par, r2, nullptr);
    for (int i = 0; i < 9; ++i) sym_assert_eq(r2[i], r[i], T, "the residual does not depend on asking for Jacobians");
    JCtx c{m, &x, which, Vec6::Zero(), Vec3::Zero(), Vec8::Zero()};
    Vec8 d = Vec8::Zero();
    if (which < 2)
    {
        c.d6 << dir("dw"), dir("dt");
        d = (which ? x.e : x.s).dParamDGen() * c.d6;
        c.d8 = d;
    }
    else if (which < 4)
    {
        c.d3 = dir("d");
        for (int i = 0; i < 3; ++i) d(i) = c.d3(i);
    }
    else
    {
        c.d6 << dir("da"), dir("dg");
        for (int i = 0; i < 6; ++i) d(i) = c.d6(i);
    }
    double o[9];
    sym_jvp(f_imu, &c, o, 9);
    for (int i = 0; i < 9; ++i)
    {
        double y = 0;
        for (int j = 0; j < W[which]; ++j) y += J[i * W[which] + j] * d(j);
        sym_assert_eq(y, o[i], TJ, which == 0 ? "Jacobian with respect to the first pose" : which == 1 ? "Jacobian with respect to the second pose" :
                      which == 2 ? "Jacobian with respect to the first velocity" : which == 3 ? "Jacobian with respect to the second velocity" :
                      "Jacobian with respect to the bias");
    }
    sym_reach("end");
}
extern "C" void h_jac_start() { jac(0); }
extern "C" void h_jac_end() { jac(1); }
extern "C" void h_jac_vs() { jac(2); }
extern "C" void h_jac_ve() { jac(3); }
extern "C" void h_jac_bias() { jac(4); }

// ---------------------------------------------------------------- splitting
static void sameState(ImuModel& a, ImuModel& b, const char* m)
{
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(a.state().alpha(i), b.state().alpha(i), T, m);
        sym_assert_eq(a.state().beta(i), b.state().beta(i), T, m);
    }
    for (int i = 0; i < 4; ++i) sym_assert_eq(a.state().gamma.arr_(i), b.state().gamma.arr_(i), T, m);
    for (int i = 0; i < 9; ++i)
    {
        for (int j = 0; j < 9; ++j) sym_assert_eq(a.covariance()(i, j), b.covariance()(i, j), T, m);
        for (int j = 0; j < 6; ++j) sym_assert_eq(a.dStatedBias()(i, j), b.dStatedBias()(i, j), T, m);
    }
    sym_assert((a.t0() == b.t0()) & (a.tf() == b.tf()), m);
    sym_assert(a.numUpdates() == b.numUpdates(), m);
}
extern "C" void h_split()
{
    static Vec6 R;
    const int n = 5;
    static const int64_t TS[n] = {0, 10000, 30000, 1030000, 1040000};
    static const int64_t SP[8] = {10000, 30000, 1030000, 4000, 12500, 530000, 1032000, 1039900};
    const int64_t sp = SP[sym_choice("at", 0, 7)];
    meas::ImuSample z[n];
    for (int i = 0; i < n; ++i)
    {
        const Vec3 a = rv("a");
        // rates about one axis per sample keep the expressions small
        z[i] = sample(TS[i], a, Vec3(0, 0, 0));
    }
    z[0].gyro(0) = sym_real("w");
    for (int i = 0; i < 6; ++i) R(i) = sym_real("R");
    const Vec6 bias = v6(rv("ba"), Vec3(0, 0, 0));
    ImuModel m(z[0], bias, R);
    for (int i = 1; i < n; ++i) m.integrate(z[i]);
    ImuModel second = m.split(at(sp));
    int k = 0;
    while (TS[k + 1] <= sp) ++k;
    const double l = (at(sp) - at(TS[k])).toSec() / (at(TS[k + 1]) - at(TS[k])).toSec();
    meas::ImuSample mid;
    mid.t = at(sp);
    mid.accel = l * z[k + 1].accel + (1.0 - l) * z[k].accel;
    mid.gyro = l * z[k + 1].gyro + (1.0 - l) * z[k].gyro;
    ImuModel a(z[0], bias, R), b(mid, bias, R);
    for (int i = 1; i <= k; ++i) a.integrate(z[i]);
    if (TS[k] != sp) a.integrate(mid);
    for (int i = k + 1; i < n; ++i) b.integrate(z[i]);
    sym_assert((m.tf() == at(sp)) & (second.t0() == at(sp)), "the parts meet at the split time");
    sameState(m, a, "the first part is what integrating up to the split gives");
    sameState(second, b, "the second part is what integrating from the split gives");
    sym_reach("end");
}
// ---------------------------------------------------------------- weight
extern "C" void h_weight()
{
    static Vec6 R = Vec6::Ones();
    ImuModel m(sample(0, Vec3(0, 0, 0), Vec3(0, 0, 0)), Vec6::Zero(), R);
    const int n = 3;
    for (int i = 1; i <= n; ++i) m.integrate(sample(i * 1000, Vec3(0, 0, 0), Vec3(0, 0, 0)));
    // P = s U U^T with U upper triangular
    Mat9 U = Mat9::Identity();
    for (int i = 0; i < 9; ++i)
    {
        U(i, i) = i % 3 == 1 ? 2 : 1;
        for (int j = i + 1; j < 9; ++j)
            if ((i * 5 + j * 3) % 4 == 0) U(i, j) = (i + j) % 2 ? 1 : -1;
    }
    const double v = sym_real("s");
    sym_assume((v > 0.01) & (v < 100));
    Mat9 P;
    for (int i = 0; i < 9; ++i)
        for (int j = 0; j < 9; ++j)
        {
            double y = 0;
            for (int k = 0; k < 9; ++k) y += U(i, k) * U(j, k);
            P(i, j) = v * v * y;
        }
    m.covariance() = P;
    m.finished();
    const Mat9 X = m.Xi();
    for (int i = 0; i < 9; ++i)
        for (int j = 0; j < 9; ++j)
        {
            double y = 0;
            for (int k = 0; k < 9; ++k)
                for (int l = 0; l < 9; ++l) y += X(k, i) * X(k, l) * P(l, j);
            sym_assert_eq(y, i == j, T, "the weight is a square root of the inverse covariance");
        }
    sym_reach("end");
}
// ---------------------------------------------------------------- states
extern "C" void h_states()
{
    ImuState a, b;
    a.gamma = uq("q");
    a.alpha = rv("a1");
    a.beta = rv("b1");
    Vec9 d;
    for (int i = 0; i < 9; ++i) d(i) = sym_real("d");
    const ImuErrorState e(d);
    b = a + e;
    const Q g = mul(a.gamma, Q::exp(Vec3(d(6), d(7), d(8))));
    ImuState c(a);
    c += e;
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(b.alpha(i), a.alpha(i) + d(i), T, "state plus error");
        sym_assert_eq(b.beta(i), a.beta(i) + d(3 + i), T, "state plus error");
        sym_assert_eq(c.alpha(i), b.alpha(i), T, "adding in place");
        sym_assert_eq(c.beta(i), b.beta(i), T, "adding in place");
    }
    for (int i = 0; i < 4; ++i)
    {
        sym_assert_eq(b.gamma.arr_(i), g.arr_(i), T, "state plus error");
        sym_assert_eq(c.gamma.arr_(i), b.gamma.arr_(i), T, "adding in place");
    }
    const ImuErrorState z = a - a;
    for (int i = 0; i < 9; ++i) sym_assert_eq(z(i), 0, T, "a state differs from itself by nothing");
    ImuState o;
    o.gamma = fixedRot(sym_choice("other", 1, 3));
    o.alpha = rv("oa");
    o.beta = rv("ob");
    const ImuErrorState f = a - o;
    const Vec3 l = mul(o.gamma.inverse(), a.gamma).log();
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(f.alpha(i), a.alpha(i) - o.alpha(i), T, "difference of positions");
        sym_assert_eq(f.beta(i), a.beta(i) - o.beta(i), T, "difference of velocities");
        sym_assert_eq(f.gamma(i), l(i), T, "difference of rotations");
    }
    sym_reach("end");
}
// error states are values: a copy is a copy
extern "C" void h_err_value()
{
    Vec9 d, d2;
    for (int i = 0; i < 9; ++i) d(i) = sym_real("d"), d2(i) = sym_real("x");
    ImuErrorState a(d);
    ImuErrorState b(a);
    ImuErrorState c;
    c = a;
    a.alpha(0) = d2(0);
    a.beta(1) = d2(1);
    a.gamma(2) = d2(2);
    sym_assert_eq(a(0), d2(0), T, "parts are views of the vector");
    sym_assert_eq(a(4), d2(1), T, "parts are views of the vector");
    sym_assert_eq(a(8), d2(2), T, "parts are views of the vector");
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(b.alpha(i), d(i), T, "a copy keeps its value");
        sym_assert_eq(b.beta(i), d(3 + i), T, "a copy keeps its value");
        sym_assert_eq(b.gamma(i), d(6 + i), T, "a copy keeps its value");
        sym_assert_eq(c.alpha(i), d(i), T, "an assigned value stays");
        sym_assert_eq(c.beta(i), d(3 + i), T, "an assigned value stays");
        sym_assert_eq(c.gamma(i), d(6 + i), T, "an assigned value stays");
    }
    c.alpha(1) = d2(5);
    sym_assert_eq(c(1), d2(5), T, "parts are views of the vector");
    sym_assert_eq(a(1), d(1), T, "an assigned value stays");
    sym_reach("end");
}
