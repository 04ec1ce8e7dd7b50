// Rotations and rigid transforms (common/math/*)
#include <array>
#include <type_traits>
#include "sym.h"
#include "common/math/quat.h"
#include "common/math/so3.h"
#include "common/math/se3.h"
#include "common/math/dquat.h"
#include "common/numerical_jacobian.h"
using namespace mc;
using namespace mc::math;
using Q = Quat<double>;
using SO = SO3<double>;
using SE = SE3<double>;
using DQ = DQuat<double>;
static const double T = 1e-9;

static Q uq(const char* n)
{
    double b[4];
    sym_unit_quat(n, b);
    return Q(b[0], b[1], b[2], b[3]);
}
static Vec3 rv(const char* n)
{
    Vec3 v;
    for (int i = 0; i < 3; ++i) v(i) = sym_real(n);
    return v;
}
template <typename A, typename B>
static void eq(const A& a, const B& b, const char* m)
{
    for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < a.cols(); ++j) sym_assert_eq(a(i, j), b(i, j), T, m);
}
static void eqQ(const Q& a, const Q& b, const char* m)
{
    for (int i = 0; i < 4; ++i) sym_assert_eq(a[i], b[i], T, m);
}
// same rotation: equal up to sign
static void eqRot(const Q& a, const Q& b, const char* m)
{
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j <= i; ++j) sym_assert_eq(a[i] * a[j], b[i] * b[j], T, m);
}

// ------------------------------------------------------------ group laws
extern "C" void h_quat_group()
{
    const Q a = uq("a"), b = uq("b");
    const Vec3 v = rv("v");
    const Q ab = a * b;
    sym_assert_eq(ab.arr_.squaredNorm(), 1.0, T, "product of unit quaternions is unit");
    const Mat3 Ra = a.R().matrix(), Rb = b.R().matrix();
    eq(ab.R().matrix(), (Rb * Ra).eval(), "R(a*b) = R(b) R(a)");
    eq((Ra * Ra.transpose()).eval(), Mat3::Identity(), "R is orthonormal");
    sym_assert_eq(Ra.determinant(), 1.0, T, "det R = 1");
    eq(a.rotp(v), (Ra * v).eval(), "rotp = R v");
    eq(a.rota(v), (Ra.transpose() * v).eval(), "rota = R^T v");
    eqQ(a * a.inverse(), Q::Identity(), "q q^-1 = 1");
    eqQ(a.inverse() * a, Q::Identity(), "q^-1 q = 1");
    Q c = a;
    c *= b;
    eqQ(c, ab, "*= equals *");
    c = a.copy();
    eqQ(c.otimes(b), ab, "otimes equals *");
    eq(a.Ad(), Ra.transpose().eval(), "Ad(q) is the adjoint");
    // adjoint: q exp(pure v) q^-1
    eq((a * Q::make_pure(v) * a.inverse()).bar(), (a.Ad() * v).eval(), "Ad(q) v = q v q^-1");
    sym_reach("end");
}
extern "C" void h_quat_assoc()
{
    const Q a = uq("a"), b = uq("b"), c = uq("c");
    eqQ((a * b) * c, a * (b * c), "associative");
    eqQ((a * b).inverse(), b.inverse() * a.inverse(), "(ab)^-1 = b^-1 a^-1");
    const Vec3 v = rv("v");
    eq((a * b).rotp(v), b.rotp(a.rotp(v)), "rotp composes");
    eq((a * b).rota(v), a.rota(b.rota(v)), "rota composes");
    Eigen::Matrix<double, 3, 2> m;
    m << v, rv("u");
    eq(a.rotp(m), a.doublerotp(m), "doublerotp");
    eq(a.rota(m), a.doublerota(m), "doublerota");
    eq(a.rotp(m), (a.R().matrix() * m).eval(), "column-wise rotp");
    eq(a.rota(m), (a.R().matrix().transpose() * m).eval(), "column-wise rota");
    sym_reach("end");
}
extern "C" void h_quat_fromR()
{
    const Q a = uq("a");
    eqRot(Q::from_R(a.R().matrix()), a, "from_R inverts R");
    sym_reach("end");
}
extern "C" void h_so3_q()
{
    const Q a = uq("a");
    const SO R(a);
    eqRot(R.q(), a, "SO3::q inverts R");
    sym_reach("end");
}
extern "C" void h_euler()
{
    const double r = sym_real("roll"), p = sym_real("pitch"), y = sym_real("yaw");
    const Q a = Q::from_euler(r, p, y);
    sym_assert_eq(a.arr_.squaredNorm(), 1.0, T, "from_euler is unit");
    eqQ(Q(r, p, y), a, "euler constructor");
    const double cr = cos(r), sr = sin(r), cp = cos(p), sp = sin(p), cy = cos(y), sy = sin(y);
    Mat3 X, Y, Z;
    X << 1, 0, 0, 0, cr, sr, 0, -sr, cr;
    Y << cp, 0, -sp, 0, 1, 0, sp, 0, cp;
    Z << cy, sy, 0, -sy, cy, 0, 0, 0, 1;
    eq(a.R().matrix(), (X * Y * Z).eval(), "from_euler is yaw-pitch-roll");
    sym_reach("end");
}
extern "C" void h_euler_inv()
{
    const double r = sym_real("roll"), p = sym_real("pitch"), y = sym_real("yaw");
    sym_assume(cos(p) > 0.01);
    const Q a = Q::from_euler(r, p, y);
    const double ro = a.roll(), yo = a.yaw(), po = a.pitch();
    sym_assert_eq(cos(ro), cos(r), T, "roll");
    sym_assert_eq(sin(ro), sin(r), T, "roll");
    sym_assert_eq(cos(yo), cos(y), T, "yaw");
    sym_assert_eq(sin(yo), sin(y), T, "yaw");
    sym_assert_eq(sin(po), sin(p), T, "pitch");
    sym_assert_eq(cos(po), cos(p), T, "pitch");
    sym_reach("end");
}
extern "C" void h_axis_angle()
{
    const Vec3 ax = uq("axis").rotp(Vec3(Vec3::UnitX()));
    const double th = sym_real("angle");
    const Q a = Q::from_axis_angle(ax, th);
    sym_assert_eq(a.arr_.squaredNorm(), 1.0, T, "from_axis_angle is unit");
    eq(a.rotp(ax), ax, "axis is fixed");
    sym_assert_eq(a.R().matrix().trace(), 1 + 2 * cos(th), T, "angle of from_axis_angle");
    sym_reach("end");
}
extern "C" void h_se3_group()
{
    const SE A(uq("a").R(), rv("ta")), B(uq("b").R(), rv("tb")), C(uq("c").R(), rv("tc"));
    const Vec3 v = rv("v");
    const SE AB = A * B;
    eq(AB.matrix(), (A.matrix() * B.matrix()).eval(), "SE3 product is the matrix product");
    eq(((A * B) * C).t(), (A * (B * C)).t(), "SE3 associative");
    eq((A * A.inverse()).matrix(), Mat4::Identity(), "SE3 inverse");
    eq(AB.transformp(v), A.transformp(B.transformp(v)), "SE3 action composes");
    eq(A.transforma(A.transformp(v)), v, "transforma undoes transformp");
    eq((A * v).eval(), A.transformp(v), "operator* is transformp");
    eq(SE(A.matrix()).t(), A.t(), "from matrix");
    eq(SE(A.matrix()).R().matrix(), A.R().matrix(), "from matrix");
    sym_reach("end");
}
extern "C" void h_se3_ad()
{
    // A exp(X) A^-1 = exp(Ad X): compare the Lie algebra elements
    const SE A(uq("a").R(), rv("ta"));
    const Vec3 w = rv("w"), v = rv("v");
    Mat4 X = Mat4::Zero();
    X.topLeftCorner<3, 3>() = skew(w);
    X.topRightCorner<3, 1>() = v;
    const Mat4 Y = A.matrix() * X * A.inverse().matrix();
    Vec6 x;
    x << w, v;
    const Vec6 y = A.Ad() * x;
    eq(Y.topLeftCorner<3, 3>().eval(), skew(y.head<3>().eval()), "SE3 adjoint, rotation part");
    eq(Y.topRightCorner<3, 1>().eval(), y.tail<3>().eval(), "SE3 adjoint, translation part");
    sym_reach("end");
}
static DQ anyDQ(const char* n, const char* t) { return DQ(uq(n), rv(t)); }
static void eqDQ(const DQ& a, const DQ& b, const char* m)
{
    for (int i = 0; i < 8; ++i) sym_assert_eq(a[i], b[i], T, m);
}
extern "C" void h_dq_group()
{
    const Q qa = uq("a"), qb = uq("b");
    const Vec3 ta = rv("ta"), tb = rv("tb");
    const DQ A(qa, ta), B(qb, tb);
    eq(A.translation(), ta, "translation()");
    eqQ(A.rotation(), qa, "rotation()");
    const Vec3 v = rv("v");
    eq(A.transforma(v), (qa.rota(v) + ta).eval(), "transforma");
    eq(A.transformp(A.transforma(v)), v, "transformp undoes transforma");
    eq(A.rota(v), qa.rota(v), "rota");
    eq(A.rotp(v), qa.rotp(v), "rotp");
    const DQ AB = A * B;
    eq(AB.transforma(v), A.transforma(B.transforma(v)), "action composes");
    eqQ(AB.rotation(), qa * qb, "rotation of product");
    eqDQ(A * A.inverse(), DQ::Identity(), "A A^-1 = 1");
    eqDQ(A.inverse() * A, DQ::Identity(), "A^-1 A = 1");
    sym_assert_eq(AB.real().arr_.squaredNorm(), 1.0, T, "unit real part");
    sym_assert_eq(AB.real().arr_.dot(AB.dual().arr_), 0.0, T, "dual part orthogonal");
    sym_reach("end");
}
extern "C" void h_dq_misc()
{
    const DQ A = anyDQ("a", "ta"), B = anyDQ("b", "tb"), C = anyDQ("c", "tc");
    eqDQ((A * B) * C, A * (B * C), "associative");
    DQ D;
    D = A;
    eqDQ(D, A, "assignment");
    DQ E(A);
    eqDQ(E, A, "copy");
    E = B;
    eqDQ(D, A, "copies are independent");
    eqDQ(E, B, "copies are independent");
    eq(A.R().matrix(), A.rotation().R().matrix(), "R()");
    DQ F(A.real(), A.dual());
    eqDQ(F, A, "parts constructor");
    const DQ G(A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7]);
    eqDQ(G, A, "eight-argument constructor");
    eqQ(G.real(), A.real(), "eight-argument constructor, real part");
    eqQ(G.dual(), A.dual(), "eight-argument constructor, dual part");
    sym_reach("end");
}
extern "C" void h_dq_ad()
{
    // A exp(x) A^-1 = exp(Ad x) on the algebra (pure dual quaternions x/2)
    const DQ A = anyDQ("a", "ta");
    const Vec3 w = rv("w"), v = rv("v");
    const DQ X(Q::make_pure(w), Q::make_pure(v));
    const DQ Y = A * X * A.inverse();
    Vec6 x;
    x << w, v;
    const Vec6 y = A.Ad() * x;
    eq(Y.real().bar(), y.head<3>().eval(), "adjoint, rotation part");
    eq(Y.dual().bar(), y.tail<3>().eval(), "adjoint, translation part");
    sym_reach("end");
}
extern "C" void h_dq_4x4()
{
    const Q q = uq("a");
    const Vec3 t = rv("ta");
    Mat4 m = Mat4::Identity();
    m.topLeftCorner<3, 3>() = q.R().matrix();
    m.topRightCorner<3, 1>() = t;
    const DQ D = DQ::from_4x4(m);
    const Vec3 v = rv("v");
    eq(D.rotp(v), q.rotp(v), "from_4x4 rotation");
    eq(D.translation(), q.rota(t), "from_4x4 translation");
    sym_reach("end");
}

// ------------------------------------------------------------ exp / log
static const double SMALL = 0.01, PI_ = 3.14159;
// a tangent vector with norm in (lo, hi), away from the coordinate planes' degeneracies
static Vec3 tangent(const char* n, double lo, double hi)
{
    const Vec3 v = rv(n);
    const double s = v.squaredNorm();
    sym_assume(s > lo * lo && s < hi * hi);
    return v;
}
extern "C" void h_quat_exp()
{
    const Vec3 v = rv("v");
    const Q q = Q::exp(v);
    sym_assert_eq(q.arr_.squaredNorm(), 1.0, T, "exp is a unit quaternion");
    Mat3 J;
    const Q q2 = Q::exp(v, &J);
    sym_assert_eq(q2.arr_.squaredNorm(), 1.0, T, "exp with Jacobian is a unit quaternion");
    sym_reach("end");
}
extern "C" void h_quat_exp_same()
{
    const Vec3 v = tangent("v", SMALL, 20);
    Mat3 J;
    const Q q = Q::exp(v);
    eqQ(Q::exp(v, &J), q, "both exp overloads agree");
    eqQ(Q::exp(-v), q.inverse(), "exp(-v) = exp(v)^-1");
    const SO R = SO::exp(v);
    eq(R.matrix(), q.R().matrix().transpose().eval(), "SO3::exp agrees with Quat::exp");
    Mat3 JR;
    eq(SO::exp(v, &JR).matrix(), R.matrix(), "both SO3 exp overloads agree");
    eq(JR, J, "SO3 and Quat exp Jacobians agree");
    sym_reach("end");
}
extern "C" void h_quat_explog()
{
    const Q q = uq("q");
    sym_assume(q.bar().squaredNorm() > SMALL * SMALL);
    const Vec3 w = q.log();
    sym_assume(w.squaredNorm() > SMALL * SMALL);
    const Q e = Q::exp(w);
    for (int i = 0; i < 4; ++i) sym_assert_eq(e[i], q[i], T, "exp(log q) = q");
    Mat3 J;
    const Vec3 w2 = q.log(&J);
    eq(w2, w, "both log overloads agree");
    sym_reach("end");
}
extern "C" void h_quat_logexp()
{
    const Vec3 v = tangent("v", SMALL, PI_);
    eq(Q::exp(v).log(), v, "log(exp v) = v");
    sym_reach("end");
}
struct JCtx { Vec3 v, d; Q* q; };
static void f_qexp(double t, void* c, double* o)
{
    JCtx* x = (JCtx*)c;
    const Q q = Q::exp(Vec3(x->v + t * x->d));
    for (int i = 0; i < 4; ++i) o[i] = q[i];
}
extern "C" void h_quat_exp_jac()
{
    JCtx c;
    c.v = tangent("v", SMALL, 20);
    c.d = rv("d");
    double o[4];
    sym_jvp(f_qexp, &c, o, 4);
    const Q q = Q::exp(c.v);
    Mat3 J;
    Q::exp(c.v, &J);
    const Q l = Q::make_pure(J * c.d) * q;
    for (int i = 0; i < 4; ++i) sym_assert_eq(o[i], 0.5 * l[i], T, "left Jacobian of exp");
    Q::exp<JacobianSide::RIGHT>(c.v, &J);
    const Q r = q * Q::make_pure(J * c.d);
    for (int i = 0; i < 4; ++i) sym_assert_eq(o[i], 0.5 * r[i], T, "right Jacobian of exp");
    sym_reach("end");
}
template <JacobianSide S>
static void f_qlog(double t, void* c, double* o)
{
    JCtx* x = (JCtx*)c;
    const Q& q = *x->q;
    const Q d = S == JacobianSide::LEFT ? Q::make_pure(x->d) * q : q * Q::make_pure(x->d);
    Q p;
    for (int i = 0; i < 4; ++i) p[i] = q[i] + 0.5 * t * d[i];
    const Vec3 w = p.log();
    for (int i = 0; i < 3; ++i) o[i] = w(i);
}
template <JacobianSide S>
static void qlog_jac()
{
    Q q = uq("q");
    sym_assume(q.bar().squaredNorm() > SMALL * SMALL && q.w() > SMALL);
    JCtx c;
    c.q = &q;
    c.d = rv("d");
    double o[3];
    sym_jvp(f_qlog<S>, &c, o, 3);
    Mat3 J;
    q.log<S>(&J);
    const Vec3 e = J * c.d;
    for (int i = 0; i < 3; ++i) sym_assert_eq(o[i], e(i), 1e-6, "Jacobian of log");
    sym_reach("end");
}
extern "C" void h_quat_log_jac_left() { qlog_jac<JacobianSide::LEFT>(); }
extern "C" void h_quat_log_jac_right() { qlog_jac<JacobianSide::RIGHT>(); }
extern "C" void h_quat_param()
{
    const Q q = uq("q");
    const Vec3 d = rv("d");
    const Vec4 a = q.dParamDGen() * d;
    const Q b = q * Q::make_pure(d);
    for (int i = 0; i < 4; ++i) sym_assert_eq(a(i), 0.5 * b[i], T, "dParamDGen");
    eq((q.dGenDParam() * q.dParamDGen()).eval(), Mat3::Identity(), "dGenDParam inverts dParamDGen");
    sym_reach("end");
}
// rotation matrices
extern "C" void h_so3_explog()
{
    const Q q = uq("q");
    const SO R = q.R();
    const double t = R.matrix().trace();
    sym_assume(t < 2.99 && t > -0.99);
    const Vec3 w = R.log();
    eq(SO::exp(w).matrix(), R.matrix(), "SO3 exp(log R) = R");
    Mat3 J;
    eq(R.log(&J), w, "both SO3 log overloads agree");
    Mat3 E;
    SO::exp(w, &E);
    eq((J * E).eval(), Mat3::Identity(), "SO3 log Jacobian inverts the exp Jacobian");
    sym_reach("end");
}
// close to a half turn
extern "C" void h_so3_logpi()
{
    const Q q = uq("q");
    const SO R = q.R();
    sym_assume(R.matrix().trace() < -1 + 1e-8);
    sym_assume(q.w() > 1e-6 || q.w() < -1e-6);
    const Vec3 w = R.log();
    eq(SO::exp(w).matrix(), R.matrix(), "SO3 exp(log R) = R near pi");
    Mat3 J, E;
    const Vec3 w2 = R.log(&J);
    eq(SO::exp(w2, &E).matrix(), R.matrix(), "SO3 exp(log R) = R near pi, second overload");
    eq((J * E).eval(), Mat3::Identity(), "SO3 log Jacobian inverts the exp Jacobian near pi");
    sym_reach("end");
}
struct SCtx { Vec6 x, d; };
static void f_soexp(double t, void* c, double* o)
{
    JCtx* x = (JCtx*)c;
    const Mat3 R = SO::exp(Vec3(x->v + t * x->d)).matrix();
    for (int i = 0; i < 9; ++i) o[i] = R(i / 3, i % 3);
}
extern "C" void h_so3_exp_jac()
{
    JCtx c;
    c.v = tangent("v", SMALL, 20);
    c.d = rv("d");
    double o[9];
    sym_jvp(f_soexp, &c, o, 9);
    Mat3 J;
    const SO R = SO::exp(c.v, &J);
    const Mat3 e = skew((J * c.d).eval()) * R.matrix();
    for (int i = 0; i < 9; ++i) sym_assert_eq(o[i], e(i / 3, i % 3), T, "left Jacobian of SO3 exp");
    eq((R.matrix() * R.matrix().transpose()).eval(), Mat3::Identity(), "SO3 exp is orthonormal");
    sym_reach("end");
}
// rigid transforms: SE3 and dual quaternions
static Vec6 twist(const char* w, const char* v, double lo, double hi)
{
    Vec6 x;
    x << tangent(w, lo, hi), rv(v);
    return x;
}
extern "C" void h_se3_explog()
{
    const Q q = uq("q");
    const SE A(q.R(), rv("t"));
    const double t = A.R().matrix().trace();
    sym_assume(t < 2.99 && t > -0.99);
    const Vec6 x = A.log();
    const SE B = SE::exp(x);
    eq(B.R().matrix(), A.R().matrix(), "SE3 exp(log A) = A, rotation");
    eq(B.t(), A.t(), "SE3 exp(log A) = A, translation");
    sym_reach("end");
}
extern "C" void h_se3_log_same()
{
    const Q q = uq("q");
    const SE A(q.R(), rv("t"));
    const double t = A.R().matrix().trace();
    sym_assume(t < 2.99 && t > -0.99);
    Mat6 J, E;
    const Vec6 x = A.log();
    eq(A.log(&J), x, "both SE3 log overloads agree");
    SE::exp(x, &E);
    eq((J * E).eval(), Mat6::Identity(), "SE3 log Jacobian inverts the exp Jacobian");
    sym_reach("end");
}
static void f_seexp(double t, void* c, double* o)
{
    SCtx* x = (SCtx*)c;
    const SE A = SE::exp(Vec6(x->x + t * x->d));
    for (int i = 0; i < 9; ++i) o[i] = A.R().matrix()(i / 3, i % 3);
    for (int i = 0; i < 3; ++i) o[9 + i] = A.t()(i);
}
extern "C" void h_se3_exp_jac()
{
    SCtx c;
    c.x = twist("w", "v", SMALL, 20);
    c.d << rv("dw"), rv("dv");
    double o[12];
    sym_jvp(f_seexp, &c, o, 12);
    Mat6 J;
    const SE A = SE::exp(c.x, &J);
    const Vec6 y = J * c.d;
    const Mat3 eR = skew(y.head<3>().eval()) * A.R().matrix();
    const Vec3 et = y.head<3>().cross(A.t()) + y.tail<3>();
    for (int i = 0; i < 9; ++i) sym_assert_eq(o[i], eR(i / 3, i % 3), T, "left Jacobian of SE3 exp, rotation");
    for (int i = 0; i < 3; ++i) sym_assert_eq(o[9 + i], et(i), T, "left Jacobian of SE3 exp, translation");
    const SE B = SE::exp(c.x);
    eq(B.t(), A.t(), "both SE3 exp overloads agree");
    eq(B.R().matrix(), A.R().matrix(), "both SE3 exp overloads agree");
    sym_reach("end");
}
extern "C" void h_dq_explog()
{
    const DQ A = anyDQ("q", "t");
    sym_assume(A.real().bar().squaredNorm() > SMALL * SMALL);
    const Vec6 x = A.log();
    sym_assume(x.head<3>().squaredNorm() > SMALL * SMALL);
    const DQ B = DQ::exp(x);
    eqRot(B.real(), A.real(), "exp(log A) = A, rotation");
    eq(B.translation(), A.translation(), "exp(log A) = A, translation");
    sym_reach("end");
}
extern "C" void h_dq_logexp()
{
    const Vec6 x = twist("w", "v", SMALL, PI_);
    eq(DQ::exp(x).log(), x, "log(exp x) = x");
    sym_reach("end");
}
extern "C" void h_dq_log_same()
{
    const DQ A = anyDQ("q", "t");
    sym_assume(A.real().bar().squaredNorm() > SMALL * SMALL && A.real().w() > SMALL);
    const Vec6 x = A.log();
    sym_assume(x.head<3>().squaredNorm() > SMALL * SMALL);
    Mat6 J, E;
    eq(A.log(&J), x, "both log overloads agree");
    DQ::exp(x, &E);
    eq((J * E).eval(), Mat6::Identity(), "log Jacobian inverts the exp Jacobian");
    sym_reach("end");
}
static void f_dqexp(double t, void* c, double* o)
{
    SCtx* x = (SCtx*)c;
    const DQ A = DQ::exp(Vec6(x->x + t * x->d));
    for (int i = 0; i < 8; ++i) o[i] = A[i];
}
template <JacobianSide S>
static void dq_exp_jac()
{
    SCtx c;
    c.x = twist("w", "v", SMALL, 20);
    c.d << rv("dw"), rv("dv");
    double o[8];
    sym_jvp(f_dqexp, &c, o, 8);
    Mat6 J;
    const DQ A = DQ::exp<S>(c.x, &J);
    const Vec6 y = J * c.d;
    const DQ Y(Q::make_pure(y.head<3>()), Q::make_pure(y.tail<3>()));
    const DQ e = S == JacobianSide::LEFT ? Y * A : A * Y;
    for (int i = 0; i < 8; ++i) sym_assert_eq(o[i], 0.5 * e[i], T, "Jacobian of dual quaternion exp");
    eqDQ(DQ::exp(c.x), A, "both exp overloads agree");
    sym_reach("end");
}
extern "C" void h_dq_exp_jac_left() { dq_exp_jac<JacobianSide::LEFT>(); }
extern "C" void h_dq_exp_jac_right() { dq_exp_jac<JacobianSide::RIGHT>(); }
extern "C" void h_dq_param()
{
    const DQ A = anyDQ("q", "t");
    Vec6 d;
    d << rv("dw"), rv("dv");
    const Eigen::Matrix<double, 8, 1> a = A.dParamDGen() * d;
    const DQ D(Q::make_pure(d.head<3>()), Q::make_pure(d.tail<3>()));
    const DQ b = A * D;
    for (int i = 0; i < 8; ++i) sym_assert_eq(a(i), 0.5 * b[i], T, "dual quaternion dParamDGen");
    eq((A.dGenDParam() * A.dParamDGen()).eval(), Mat6::Identity(), "dual quaternion dGenDParam inverts dParamDGen");
    sym_reach("end");
}
