// The generated EKF (core/ekf/ekf_gen -> rtk_ekf.cxx, rtk_ekf_state.cxx) against the dense Kalman equations.
// Dynamics and residual functions are stand-ins (decided by K01) that hand out chosen Jacobians.
#include <array>
#include <type_traits>
#include <limits>
#include <functional>
#include <vector>
#include <new>
#include "sym.h"
#include "core/ekf/rtk_ekf.h"
#include "core/ekf/rtk_ekf_state.h"
#include "core/ekf/rtk_ekf_types.h"
using namespace mc;
using namespace mc::ekf;

static const double T = 1e-9;
static const int MAXN = 33;
// order of the dense equations: pose 0, vel 6, accBias 9, gyroBias 12, gps 15, gal 17, glo 19, pB2g 21, TI2e 24, sd 30
static double P[MAXN][MAXN];
static ErrorState XDOT;
static StateJac A;
static InputJac B;
static pointPosMeas::Jac HP;
static Vec<6> RES;
static double HF[3][3], RF[3];

#ifdef SYM_NATIVE
// whatever the code reads without having written it is huge
__attribute__((noinline)) static void poison()
{
    volatile double a[60000];
    for (int i = 0; i < 60000; ++i) a[i] = 1e150;
}
#else
static void poison() {}
#endif

namespace mc {
namespace ekf {
ErrorState dynamics(const State&, const Input&, StateJac* a, InputJac* b)
{
    if (a) *a = A;
    if (b) *b = B;
    return XDOT;
}
template <>
pointPosMeas::Residual h<pointPosMeas>(const pointPosMeas::ZType&, const State&, pointPosMeas::Jac* j)
{
    if (j) *j = HP;
    return RES;
}
// as the real one: only the entries that belong to the measurement and the state are written
template <>
fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z, const State& x, fixAndHoldMeas::Jac* j)
{
    fixAndHoldMeas::Residual r;
    for (size_t i = 0; i < z.size(); ++i) r[i] = RF[i];
    for (size_t i = 0; i < z.size(); ++i)
        for (size_t k = 0; k < x.num_sd; ++k) j->dSd_buf_(i, k) = HF[i][k];
    return r;
}
}  // namespace ekf
}  // namespace mc

// f(block, row, column) for every stored block of a covariance
template <class C, class F>
static void blocks(C& c, int n, F f)
{
#define B_(M, R, K) f(c.M, R, K)
#define S_(M, R) \
    { auto b = c.M(n); f(b, R, 30); }
    B_(pose_pose, 0, 0); B_(pose_vel, 0, 6); B_(pose_accBias, 0, 9); B_(pose_gyroBias, 0, 12); B_(pose_gpsClk, 0, 15);
    B_(pose_galClk, 0, 17); B_(pose_gloClk, 0, 19); B_(pose_pB2g, 0, 21); B_(pose_TI2e, 0, 24); S_(pose_sd, 0);
    B_(vel_vel, 6, 6); B_(vel_accBias, 6, 9); B_(vel_gyroBias, 6, 12); B_(vel_gpsClk, 6, 15); B_(vel_galClk, 6, 17);
    B_(vel_gloClk, 6, 19); B_(vel_pB2g, 6, 21); B_(vel_TI2e, 6, 24); S_(vel_sd, 6);
    B_(accBias_accBias, 9, 9); B_(accBias_gyroBias, 9, 12); B_(accBias_gpsClk, 9, 15); B_(accBias_galClk, 9, 17);
    B_(accBias_gloClk, 9, 19); B_(accBias_pB2g, 9, 21); B_(accBias_TI2e, 9, 24); S_(accBias_sd, 9);
    B_(gyroBias_gyroBias, 12, 12); B_(gyroBias_gpsClk, 12, 15); B_(gyroBias_galClk, 12, 17); B_(gyroBias_gloClk, 12, 19);
    B_(gyroBias_pB2g, 12, 21); B_(gyroBias_TI2e, 12, 24); S_(gyroBias_sd, 12);
    B_(gpsClk_gpsClk, 15, 15); B_(gpsClk_galClk, 15, 17); B_(gpsClk_gloClk, 15, 19); B_(gpsClk_pB2g, 15, 21); B_(gpsClk_TI2e, 15, 24);
    S_(gpsClk_sd, 15);
    B_(galClk_galClk, 17, 17); B_(galClk_gloClk, 17, 19); B_(galClk_pB2g, 17, 21); B_(galClk_TI2e, 17, 24); S_(galClk_sd, 17);
    B_(gloClk_gloClk, 19, 19); B_(gloClk_pB2g, 19, 21); B_(gloClk_TI2e, 19, 24); S_(gloClk_sd, 19);
    B_(pB2g_pB2g, 21, 21); B_(pB2g_TI2e, 21, 24); S_(pB2g_sd, 21);
    B_(TI2e_TI2e, 24, 24); S_(TI2e_sd, 24);
    S_(sd_sd, 30);
#undef B_
#undef S_
}
static void store(Covariance& c, int n)
{
    blocks(c, n, [](auto& b, int r, int k) {
        for (int i = 0; i < (int)b.rows(); ++i)
            for (int j = 0; j < (int)b.cols(); ++j) b(i, j) = P[r + i][k + j];
    });
}
static double bounded(const char* nm, double m)
{
    const double v = sym_real(nm);
    sym_assume((v >= -m) & (v <= m));
    return v;
}
static double num(int i, int j) { return (double)((i * 7 + j * 3 + (i * j) % 5) % 13 - 6) / 8; }
// a symbolic covariance whose rows and columns listed in `fixed` are numbers among themselves
static void symP(int n, const int* fixed, int nf)
{
    const int N = 30 + n;
    for (int i = 0; i < N; ++i)
        for (int j = i; j < N; ++j)
        {
            bool fi = false, fj = false;
            for (int k = 0; k < nf; ++k)
            {
                if (fixed[k] == i) fi = true;
                if (fixed[k] == j) fj = true;
            }
            P[i][j] = P[j][i] = fi && fj ? (i == j ? 8 : num(i, j)) : bounded("P", 10);
        }
}
static void freeState(State& x, int n)
{
    x.pose = math::DQuat<double>(0.5, 0.5, -0.5, 0.5, 0.25, -1, 2, 3);
    x.T_I2e = math::DQuat<double>(0.5, -0.5, -0.5, 0.5, 1, 0.5, -2, 1);
    for (int i = 0; i < 3; ++i)
    {
        x.vel(i) = bounded("vel", 10);
        x.acc_bias(i) = bounded("ab", 10);
        x.gyro_bias(i) = bounded("gb", 10);
        x.p_b2g(i) = bounded("pb", 10);
    }
    for (int i = 0; i < 2; ++i)
    {
        x.gps_clk(i) = bounded("gps", 10);
        x.gal_clk(i) = bounded("gal", 10);
        x.glo_clk(i) = bounded("glo", 10);
    }
    x.num_sd = n;
    for (int i = 0; i < State::MAX_SD; ++i) x.sd[i](0) = i < n ? bounded("sd", 10) : 0;
}
static void sameP(const Covariance& c, int n, double (*e)[MAXN], const char* m)
{
    blocks(c, n, [&](const auto& b, int r, int k) {
        for (int i = 0; i < (int)b.rows(); ++i)
            for (int j = 0; j < (int)b.cols(); ++j) sym_assert_eq(b(i, j), e[r + i][k + j], T, m);
    });
}
// b is a moved by the dense correction d
static void sameX(const State& b, const State& a, const double* d, int n)
{
    Vec6 p, t;
    for (int i = 0; i < 6; ++i)
    {
        p(i) = d[i];
        t(i) = d[24 + i];
    }
    const math::DQuat<double> ep = a.pose * math::DQuat<double>::exp(p), et = a.T_I2e * math::DQuat<double>::exp(t);
    for (int i = 0; i < 8; ++i)
    {
        sym_assert_eq(b.pose[i], ep[i], T, "pose");
        sym_assert_eq(b.T_I2e[i], et[i], T, "T_I2e");
    }
    for (int i = 0; i < 3; ++i)
    {
        sym_assert_eq(b.vel(i), a.vel(i) + d[6 + i], T, "velocity");
        sym_assert_eq(b.acc_bias(i), a.acc_bias(i) + d[9 + i], T, "accelerometer bias");
        sym_assert_eq(b.gyro_bias(i), a.gyro_bias(i) + d[12 + i], T, "gyro bias");
        sym_assert_eq(b.p_b2g(i), a.p_b2g(i) + d[21 + i], T, "antenna offset");
    }
    for (int i = 0; i < 2; ++i)
    {
        sym_assert_eq(b.gps_clk(i), a.gps_clk(i) + d[15 + i], T, "GPS clock");
        sym_assert_eq(b.gal_clk(i), a.gal_clk(i) + d[17 + i], T, "Galileo clock");
        sym_assert_eq(b.glo_clk(i), a.glo_clk(i) + d[19 + i], T, "GLONASS clock");
    }
    sym_assert(b.num_sd == (size_t)n, "the number of ambiguities is kept");
    for (int i = 0; i < n; ++i) sym_assert_eq(b.sd[i](0), a.sd[i](0) + d[30 + i], T, "ambiguity");
}
static void setErr(ErrorState& e, const double* d, int n)
{
    e.setZero();
    for (int i = 0; i < 6; ++i)
    {
        e.pose(i) = d[i];
        e.T_I2e(i) = d[24 + i];
    }
    for (int i = 0; i < 3; ++i)
    {
        e.vel(i) = d[6 + i];
        e.acc_bias(i) = d[9 + i];
        e.gyro_bias(i) = d[12 + i];
        e.p_b2g(i) = d[21 + i];
    }
    for (int i = 0; i < 2; ++i)
    {
        e.gps_clk(i) = d[15 + i];
        e.gal_clk(i) = d[17 + i];
        e.glo_clk(i) = d[19 + i];
    }
    for (int i = 0; i < n; ++i) e.sd(i)(0) = d[30 + i];
}
static const UTCTime T1(1000, 0);

// ---------------------------------------------------------------- prediction
static double F[MAXN][MAXN], G[MAXN][6], Ad[MAXN][MAXN], Bd[MAXN][6], E[MAXN][MAXN], W[MAXN][MAXN];
template <class M>
static void fill(M& m, double (*d)[MAXN], int r, int c, int salt)
{
    for (int i = 0; i < (int)m.rows(); ++i)
        for (int j = 0; j < (int)m.cols(); ++j) m(i, j) = d[r + i][c + j] = num(i + salt, j + 2 * salt);
}
static void predictEntry(int n, int ns, double dt, int salt)
{
    const int N = 30 + n;
    symP(n, nullptr, 0);
    Snapshot s, o;
    freeState(s.x, n);
    s.x.t = T1;
    s.cov.setIdentity();
    store(s.cov, n);
    double xd[MAXN];
    for (int i = 0; i < N; ++i) xd[i] = bounded("xdot", 10);
    setErr(XDOT, xd, n);
    fill(A.dPose_dPose, Ad, 0, 0, salt);
    fill(A.dPose_dVel, Ad, 0, 6, salt + 1);
    fill(A.dPose_dGyroBias, Ad, 0, 12, salt + 2);
    fill(A.dVel_dPose, Ad, 6, 0, salt + 3);
    fill(A.dVel_dAccBias, Ad, 6, 9, salt + 4);
    fill(A.dGpsClk_dGpsClk, Ad, 15, 15, salt + 5);
    fill(A.dGalClk_dGalClk, Ad, 17, 17, salt + 6);
    fill(A.dGloClk_dGloClk, Ad, 19, 19, salt + 7);
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 3; ++j) B.dPose_dGyro(i, j) = Bd[i][3 + j] = num(i + salt + 8, j);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) B.dVel_dAccel(i, j) = Bd[6 + i][j] = num(i + salt + 9, j);
    ProcessCovariance Qx;
    InputCovariance Qu;
    double q[MAXN], u[6];
    for (int i = 0; i < 31; ++i) q[i] = bounded("Qx", 10);
    for (int i = 0; i < 6; ++i) u[i] = bounded("Qu", 10);
    for (int i = 0; i < 6; ++i)
    {
        Qx.pose(i) = q[i];
        Qx.TI2e(i) = q[24 + i];
    }
    for (int i = 0; i < 3; ++i)
    {
        Qx.vel(i) = q[6 + i];
        Qx.accBias(i) = q[9 + i];
        Qx.gyroBias(i) = q[12 + i];
        Qx.pB2g(i) = q[21 + i];
        Qu.accel(i) = u[i];
        Qu.gyro(i) = u[3 + i];
    }
    for (int i = 0; i < 2; ++i)
    {
        Qx.gpsClk(i) = q[15 + i];
        Qx.galClk(i) = q[17 + i];
        Qx.gloClk(i) = q[19 + i];
    }
    Qx.sd(0) = q[30];
    for (int i = 31; i < MAXN; ++i) q[i] = q[30];
    Input in;
    for (int i = 0; i < 3; ++i)
    {
        in.accel(i) = bounded("accel", 10);
        in.gyro(i) = bounded("gyro", 10);
    }
    const UTCTime t2(1000, ns);
    poison();
    const Error e = predict(s, t2, in, Qx, Qu, make_out(o));
    sym_assert(e.ok(), "a prediction forward in time succeeds");
    // F = I + A dt + A² dt²/2, G = B dt + A B dt²/2
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
        {
            double v = (i == j ? 1 : 0) + Ad[i][j] * dt;
            for (int k = 0; k < N; ++k)
                if (Ad[i][k] != 0 && Ad[k][j] != 0) v += Ad[i][k] * Ad[k][j] * dt * dt / 2;
            F[i][j] = v;
        }
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < 6; ++j)
        {
            double v = Bd[i][j] * dt;
            for (int k = 0; k < N; ++k)
                if (Ad[i][k] != 0 && Bd[k][j] != 0) v += Ad[i][k] * Bd[k][j] * dt * dt / 2;
            G[i][j] = v;
        }
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
        {
            double v = 0;
            for (int k = 0; k < N; ++k)
                if (F[i][k] != 0) v += F[i][k] * P[k][j];
            W[i][j] = v;
        }
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
        {
            double v = i == j ? q[i] : 0;
            for (int k = 0; k < N; ++k)
                if (F[j][k] != 0) v += W[i][k] * F[j][k];
            for (int k = 0; k < 6; ++k)
                if (G[i][k] != 0 && G[j][k] != 0) v += G[i][k] * u[k] * G[j][k];
            E[i][j] = v;
        }
    sameP(o.cov, n, E, "predicted covariance");
    double d[MAXN];
    for (int i = 0; i < N; ++i) d[i] = xd[i] * dt;
    sameX(o.x, s.x, d, n);
    sym_assert((o.x.t.sec == 1000) & (o.x.t.nsec == ns), "time of the predicted state");
    sym_reach("end");
}
extern "C" void h_predict() { predictEntry(1, 250000000, 0.25, 1); }
extern "C" void h_predict_0() { predictEntry(0, 500000000, 0.5, 4); }
extern "C" void h_predict_2() { predictEntry(2, 125000000, 0.125, 2); }

// ---------------------------------------------------------------- update
static double S[6][6], SI[6][6];
static void invert(int n)
{
    double m[6][12];
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
            m[i][j] = S[i][j];
            m[i][n + j] = i == j ? 1 : 0;
        }
    for (int c = 0; c < n; ++c)
    {
        const double p = m[c][c];
        for (int j = 0; j < 2 * n; ++j) m[c][j] = m[c][j] / p;
        for (int i = 0; i < n; ++i)
            if (i != c)
            {
                const double f = m[i][c];
                for (int j = 0; j < 2 * n; ++j) m[i][j] = m[i][j] - f * m[c][j];
            }
    }
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) SI[i][j] = m[i][n + j];
}
// the dense update of an m-vector that depends on the columns `col`
static void dense(int m, const int* col, int nc, double (*H)[6], const double* r, const double* res, int n, double* d)
{
    const int N = 30 + n;
    for (int a = 0; a < m; ++a)
        for (int b = 0; b < m; ++b)
        {
            double v = a == b ? r[a] : 0;
            for (int k = 0; k < nc; ++k)
                for (int l = 0; l < nc; ++l) v += H[a][k] * P[col[k]][col[l]] * H[b][l];
            S[a][b] = v;
        }
    invert(m);
    double K[6][6], Wr[6];  // K = Hᵀ S⁻¹ H, Wr = Hᵀ S⁻¹ res
    for (int k = 0; k < nc; ++k)
    {
        Wr[k] = 0;
        for (int a = 0; a < m; ++a)
            for (int b = 0; b < m; ++b) Wr[k] += H[a][k] * SI[a][b] * res[b];
        for (int l = 0; l < nc; ++l)
        {
            K[k][l] = 0;
            for (int a = 0; a < m; ++a)
                for (int b = 0; b < m; ++b) K[k][l] += H[a][k] * SI[a][b] * H[b][l];
        }
    }
    for (int i = 0; i < N; ++i)
    {
        double w[6];
        for (int l = 0; l < nc; ++l)
        {
            w[l] = 0;
            for (int k = 0; k < nc; ++k) w[l] += P[i][col[k]] * K[k][l];
        }
        for (int j = i; j < N; ++j)
        {
            double v = P[i][j];
            for (int l = 0; l < nc; ++l) v -= w[l] * P[j][col[l]];
            E[i][j] = E[j][i] = v;
        }
        d[i] = 0;
        for (int k = 0; k < nc; ++k) d[i] += P[i][col[k]] * Wr[k];
    }
}
static void snapshot(Snapshot& s, int n)
{
    freeState(s.x, n);
    s.x.t = T1;
    s.cov.setIdentity();
    store(s.cov, n);
}
// position measurement: Jacobian columns on two or three of the states at a time
static void pointEntry(int n, const int* col, int nc)
{
    symP(n, col, nc);
    Snapshot s;
    snapshot(s, n);
    const State x0 = s.x;
    double H[6][6], r[6], res[6], d[MAXN];
    HP.setZero();
    for (int a = 0; a < 6; ++a)
    {
        for (int k = 0; k < nc; ++k)
        {
            const int c = col[k];
            const double v = H[a][k] = num(a + 3, c + a);
            if (c < 6) HP.dPose(a, c) = v;
            else if (c < 9) HP.dVel(a, c - 6) = v;
            else if (c < 24) HP.dPB2g(a, c - 21) = v;
            else HP.dTI2e(a, c - 24) = v;
        }
        r[a] = 1 + 0.25 * a;
        RES(a) = res[a] = bounded("res", 10);
    }
    pointPosMeas::Covariance R;
    for (int a = 0; a < 6; ++a) R(a) = r[a];
    const Vec6 z = Vec6::Zero();
    poison();
    const auto e = update<pointPosMeas>(make_out(s), z, R);
    sym_assert(e.ok(), "the position is used");
    dense(6, col, nc, H, r, res, n, d);
    sameP(s.cov, n, E, "covariance after a position");
    sameX(s.x, x0, d, n);
    sym_assert((s.x.t.sec == 1000) & (s.x.t.nsec == 0), "time");
    sym_reach("end");
}
static const int C1[] = {1, 7, 22, 25}, C2[] = {4, 8, 21, 29}, C3[] = {0, 2, 3, 5, 6}, C4[] = {23, 24, 26, 27, 28};
extern "C" void h_point() { pointEntry(1, C1, 4); }
extern "C" void h_point_2() { pointEntry(0, C2, 4); }
extern "C" void h_point_3() { pointEntry(2, C3, 5); }
extern "C" void h_point_4() { pointEntry(0, C4, 5); }

// m ambiguities held, n estimated (the residual function demands m = n)
static void fixEntry(int m, int n)
{
    static const int col[] = {30, 31, 32};
    symP(n, col, n);
    Snapshot s;
    snapshot(s, n);
    const State x0 = s.x;
    double H[6][6], r[6], d[MAXN];
    for (int a = 0; a < m; ++a)
    {
        for (int k = 0; k < n; ++k) HF[a][k] = H[a][k] = a == k ? -1 : num(a, k + 2) / 4;
        r[a] = 0.25;
        RF[a] = bounded("res", 10);
    }
    fixAndHoldMeas::Covariance R;
    R(0) = 0.25;
    fixAndHoldMeas::ZType z;
    for (int a = 0; a < m; ++a) z.push_back(Vec1::Zero());
    poison();
    const auto e = update<fixAndHoldMeas>(make_out(s), z, R);
    sym_assert(e.ok(), "the fixed ambiguities are used");
    dense(m, col, n, H, r, RF, n, d);
    sameP(s.cov, n, E, "covariance after a fix");
    sameX(s.x, x0, d, n);
    sym_assert((s.x.t.sec == 1000) & (s.x.t.nsec == 0), "time");
    sym_reach("end");
}
extern "C" void h_fix() { fixEntry(1, 1); }
extern "C" void h_fix_2() { fixEntry(2, 2); }
extern "C" void h_fix_3() { fixEntry(3, 3); }
// nothing to hold: refused, nothing changed
extern "C" void h_fix_none()
{
    const int n = sym_choice("n", 0, 2);
    symP(n, nullptr, 0);
    Snapshot s;
    snapshot(s, n);
    const State x0 = s.x;
    fixAndHoldMeas::Covariance R;
    R(0) = 0.25;
    fixAndHoldMeas::ZType z;
    const auto e = update<fixAndHoldMeas>(make_out(s), z, R);
    sym_assert(!e.ok(), "an empty measurement is refused");
    const double d[MAXN] = {0};
    sameP(s.cov, n, P, "covariance kept");
    sameX(s.x, x0, d, n);
    sym_reach("end");
}

// ---------------------------------------------------------------- containers
// the covariance made from standard deviations squared is diagonal
extern "C" void h_initial()
{
    const int n = sym_choice("n", 0, 3);
    ProcessCovariance q;
    double v[31];
    for (int i = 0; i < 31; ++i) v[i] = bounded("q", 10);
    for (int i = 0; i < 6; ++i)
    {
        q.pose(i) = v[i];
        q.TI2e(i) = v[24 + i];
    }
    for (int i = 0; i < 3; ++i)
    {
        q.vel(i) = v[6 + i];
        q.accBias(i) = v[9 + i];
        q.gyroBias(i) = v[12 + i];
        q.pB2g(i) = v[21 + i];
    }
    for (int i = 0; i < 2; ++i)
    {
        q.gpsClk(i) = v[15 + i];
        q.galClk(i) = v[17 + i];
        q.gloClk(i) = v[19 + i];
    }
    q.sd(0) = v[30];
    for (int i = 0; i < 30 + n; ++i)
        for (int j = 0; j < 30 + n; ++j) E[i][j] = i == j ? v[i < 30 ? i : 30] : 0;
    void* mem = operator new(sizeof(Covariance));
#ifdef SYM_NATIVE
    for (size_t i = 0; i + 8 <= sizeof(Covariance); i += 8) *(volatile double*)((char*)mem + i) = 1e200;
#endif
    const Covariance& c = *new (mem) Covariance(q);
    sameP(c, n, E, "initial covariance");
    sym_reach("end");
}
// copies are equal, time included
extern "C" void h_copy()
{
    const int n = sym_choice("n", 0, 3), how = sym_choice("how", 0, 2);
    State x;
    freeState(x, n);
    x.t = UTCTime(1234, 600000000);
    State y;
    y.num_sd = sym_choice("before", 0, 4);
    if (how == 0) y = x;
    const State w(x);
    Snapshot s;
    s.x = x;
    s.cov.setIdentity();
    s.u.setZero();
    const Snapshot c = s;
    const State& z = how == 0 ? y : how == 1 ? w : c.x;
    const double d[MAXN] = {0};
    sameX(z, x, d, n);
    for (int i = 0; i < 8; ++i)
    {
        sym_assert_eq(z.pose[i], x.pose[i], T, "pose");
        sym_assert_eq(z.T_I2e[i], x.T_I2e[i], T, "T_I2e");
    }
    sym_assert((z.t.sec == 1234) & (z.t.nsec == 600000000), "time");
    sym_reach("end");
}
// (x + d) and x += d move a state in the same way, and x + d - x gives d back for the vector states
extern "C" void h_plus()
{
    const int n = sym_choice("n", 0, 3);
    State x;
    freeState(x, n);
    double d[MAXN];
    for (int i = 0; i < 30 + n; ++i) d[i] = bounded("d", 10);
    ErrorState e;
    setErr(e, d, n);
    const State y = x + e;
    sameX(y, x, d, n);
    State z = x;
    z += e;
    sameX(z, x, d, n);
    sym_reach("end");
}
