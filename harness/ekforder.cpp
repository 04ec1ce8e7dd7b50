// RtkEkfEstimator: measurements that arrive out of order (core/ekf/rtk_ekf_estimator.*).
// The filter's own arithmetic (predict, update) is a stand-in whose steps do not commute, so the state tells which
// measurements were applied, with which input, over which interval and in which order.
#include <array>
#include <type_traits>
#include <limits>
#include <functional>
#include <unordered_map>
#include <memory>
#include <vector>
#include "sym.h"
#include "core/ekf/rtk_ekf_estimator.h"
using namespace mc;
using namespace mc::ekf;

namespace mc {
// comparisons within half a quantum (decided by B03), on integers
static int64_t diffNs(const UTCTime& a, const UTCTime& b) { return (a.sec - b.sec) * (int64_t)1000000000 + (a.nsec - b.nsec); }
static const int64_t HALF = 50000;
QuantizedTime& QuantizedTime::operator=(const UTCTime& o)
{
    UTCTime::operator=(o);
    return *this;
}
bool QuantizedTime::operator>(const UTCTime& o) const { return diffNs(*this, o) > HALF; }
bool QuantizedTime::operator>=(const UTCTime& o) const { return diffNs(o, *this) <= HALF; }
bool QuantizedTime::operator<(const UTCTime& o) const { return diffNs(o, *this) > HALF; }
bool QuantizedTime::operator<=(const UTCTime& o) const { return diffNs(*this, o) <= HALF; }
bool QuantizedTime::operator==(const UTCTime& o) const { return !(*this > o) && !(*this < o); }
bool QuantizedTime::operator!=(const UTCTime& o) const { return !(*this == o); }
bool operator>(const UTCTime& t, const QuantizedTime& q) { return diffNs(t, q) > HALF; }
bool operator>=(const UTCTime& t, const QuantizedTime& q) { return diffNs(q, t) <= HALF; }
bool operator<(const UTCTime& t, const QuantizedTime& q) { return diffNs(q, t) > HALF; }
bool operator<=(const UTCTime& t, const QuantizedTime& q) { return diffNs(t, q) <= HALF; }
bool operator==(const UTCTime& t, const QuantizedTime& q) { return q == t; }
bool operator!=(const UTCTime& t, const QuantizedTime& q) { return q != t; }
bool isFinite(const ::mc::ekf::State&) { return true; }
bool isFinite(const ::mc::ekf::Input&) { return true; }
bool isFinite(const ::mc::ekf::ErrorState&) { return true; }
bool isFinite(const ::mc::ekf::Covariance&) { return true; }
bool isFinite(const ::mc::ekf::ProcessCovariance&) { return true; }
bool isFinite(const ::mc::ekf::InputCovariance&) { return true; }
namespace ekf {
State::State() {}
State& State::operator=(const State& o)
{
    t = o.t;
    pose = o.pose;
    vel = o.vel;
    p_b2g = o.p_b2g;
    T_I2e = o.T_I2e;
    num_sd = o.num_sd;
    return *this;
}
// the interval of a prediction is told by one free real per point in time
static const int N = 5;
struct M
{
    int64_t ns;  // since T0
    int kind;    // 0 imu, 1 obs, 2 point position, 3 fix and hold (the documented order at equal times)
    double z, w;
    bool live;
};
static const int64_t T0 = 1000, SEC = 1000000000, Q = 100000;
static M ms[N];
static int cnt;
static double v0;
static double mark(int64_t ns)
{
    for (int i = 0; i < cnt; ++i)
        if (ms[i].ns == ns) return ms[i].w;
    sym_assert(ns == 0, "the filter only ever predicts to the time of a measurement");
    return 0;
}
static double fPredict(double v, double u, int64_t from, int64_t to) { return 2 * v + 3 * u + mark(to) - 7 * mark(from); }
static int64_t sinceT0(const UTCTime& t) { return (t.sec - T0) * SEC + t.nsec; }
static double fUpdate(int kind, double v, double z) { return (3 + 2 * kind) * v + z; }

Error predict(const Snapshot& s, const UTCTime& t, const Input& u, const ProcessCovariance&, const InputCovariance&, Out<Snapshot> out)
{
    check(t > s.x.t, "Cannot propagate backwards");
    out->x = s.x;
    out->x.vel(0) = fPredict(s.x.vel(0), u.accel(0), sinceT0(s.x.t), sinceT0(t));
    out->x.t = t;
    out->u = u;
    return Error::none();
}
template <>
pointPosMeas::Residual h<pointPosMeas>(const pointPosMeas::ZType& z, const State&, pointPosMeas::Jac* jac, const Input&)
{
    jac->setZero();
    return z;
}
template <>
obsMeas::Residual h<obsMeas>(const obsMeas::ZType&, const State&, obsMeas::Jac* jac, const Input&)
{
    jac->setZero();
    return obsMeas::Residual::Zero();
}
template <>
fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z, const State&, fixAndHoldMeas::Jac* jac)
{
    jac->setZero();
    fixAndHoldMeas::Residual r;
    r.setZero();
    r(0) = z[0](0);
    return r;
}
template <>
Error doUpdate<pointPosMeas>(Out<Snapshot> s, const pointPosMeas::ZType&, const pointPosMeas::Jac&, const pointPosMeas::Covariance&, const pointPosMeas::Residual& r)
{
    s->x.vel(0) = fUpdate(2, s->x.vel(0), r(0));
    return Error::none();
}
template <>
Error doUpdate<obsMeas>(Out<Snapshot> s, const obsMeas::ZType&, const obsMeas::Jac&, const obsMeas::Covariance&, const obsMeas::Residual& r)
{
    s->x.vel(0) = fUpdate(1, s->x.vel(0), 0);
    return Error::none();
}
template <>
Error doUpdate<fixAndHoldMeas>(Out<Snapshot> s, const fixAndHoldMeas::ZType&, const fixAndHoldMeas::Jac&, const fixAndHoldMeas::Covariance&, const fixAndHoldMeas::Residual& r)
{
    s->x.vel(0) = fUpdate(3, s->x.vel(0), r(0));
    return Error::none();
}
}  // namespace ekf
}  // namespace mc

static Snapshot seed;

static RtkEkfEstimator* make()
{
    RtkEkfEstimator* e = new RtkEkfEstimator();
    State x0;
    x0.pose = math::DQuat<double>::Identity();
    x0.T_I2e = math::DQuat<double>::Identity();
    x0.vel = Vec3(v0, 0, 0);
    x0.p_b2g.setZero();
    x0.num_sd = 1;
    pointPosMeas::Covariance pc = pointPosMeas::Covariance::Ones();
    obsMeas::Covariance oc = obsMeas::Covariance::Ones();
    fixAndHoldMeas::Covariance fc = fixAndHoldMeas::Covariance::Ones();
    e->init(UTCTime(T0, 0), x0, seed.cov, pc, oc, fc, InputCovariance(), ProcessCovariance());
    return e;
}
static UTCTime when(int64_t ns) { return UTCTime((int)(T0 + ns / SEC), (int)(ns % SEC)); }
static bool add(RtkEkfEstimator* e, const UTCTime& t, const M& m)
{
    if (m.kind == 0)
    {
        ImuMeas z = ImuMeas::Zero();
        z.z.accel(0) = m.z;
        return e->addMeasurement(t, z).ok();
    }
    if (m.kind == 1) return e->addMeasurement(t, std::vector<meas::GnssObservation>()).ok();
    if (m.kind == 2)
    {
        pointPosMeas z;
        z.z.setZero();
        z.z(0) = m.z;
        return e->addMeasurement(t, z).ok();
    }
    fixAndHoldMeas z;
    z.z.push_back(Vec1(m.z));
    return e->addMeasurement(t, z).ok();
}
// the accepted measurements in the order of time, kind and arrival
static void oracle(int n, double& v, int64_t& ns, bool front)
{
    int idx[N], k = 0;
    for (int i = 0; i < n; ++i)
    {
        if (!ms[i].live) continue;
        int j = k++;
        while (j > 0 && !(front && ms[i].ns == 0 && ms[idx[j - 1]].ns == 0) && (ms[i].ns < ms[idx[j - 1]].ns || (ms[i].ns == ms[idx[j - 1]].ns && ms[i].kind < ms[idx[j - 1]].kind)))
        {
            idx[j] = idx[j - 1];
            --j;
        }
        idx[j] = i;
    }
    double u = 0;
    v = v0;
    ns = 0;
    for (int j = 0; j < k; ++j)
    {
        const M& m = ms[idx[j]];
        if (m.ns > ns)
        {
            if (m.kind == 0) u = m.z;
            v = fPredict(v, u, ns, m.ns);
            ns = m.ns;
        }
        if (m.kind) v = fUpdate(m.kind, v, m.kind == 1 ? 0 : m.z);
    }
}
static void sym_meas(int n, bool late)
{
    v0 = sym_real("v0");
    cnt = n;
    for (int i = 0; i < n; ++i)
    {
        const uint16_t d = sym_u16("t");
        sym_assume((late | (d > 0)) & (d <= 900));
        ms[i].ns = (int64_t)d << 20;  // units of about a millisecond, ten quanta
        ms[i].z = sym_real("z");
        ms[i].w = sym_real("w");
        ms[i].live = true;
    }
}
static void order(int n, const int* kinds, bool front = false)
{
    RtkEkfEstimator* e = make();
    for (int i = 0; i < n; ++i)
    {
        ms[i].kind = kinds[i];
        const bool ok = add(e, UTCTime((int)T0, (int)ms[i].ns), ms[i]);
        sym_assert(ok, "a measurement within the delay window is accepted");
    }
    double v;
    int64_t ns;
    oracle(n, v, ns, front);
    sym_assert_eq(e->x().vel(0), v, 1e-9, "the state is the one in-order processing gives, whatever the order of arrival");
    sym_assert(e->t().sec == T0 && e->t().nsec == ns, "the state stands at the newest measurement");
    sym_reach("end");
}
static int pick(const char* n, int lo, int hi) { return sym_concretize(sym_choice(n, lo, hi)); }
static const int K3[] = {0, 2, 3};
extern "C" void h_two()
{
    sym_meas(2, false);
    const int k[2] = {pick("k0", 0, 3), pick("k1", 0, 3)};
    order(2, k);
}
static void three(int a, int b)
{
    sym_meas(3, false);
    const int k[3] = {a, b, K3[pick("k2", 0, 2)]};
    order(3, k);
}
extern "C" void h_three_imu_imu() { three(0, 0); }
extern "C" void h_three_imu_pos() { three(0, 2); }
extern "C" void h_three_imu_fix() { three(0, 3); }
extern "C" void h_three_pos_imu() { three(2, 0); }
extern "C" void h_three_pos_pos() { three(2, 2); }
extern "C" void h_three_pos_fix() { three(2, 3); }
extern "C" void h_three_fix_imu() { three(3, 0); }
extern "C" void h_three_fix_pos() { three(3, 2); }
extern "C" void h_three_fix_fix() { three(3, 3); }
// with measurements at the time of the initial state, which has no predecessor: those are applied as they arrive
extern "C" void h_front()
{
    sym_meas(2, true);
    const int k[2] = {K3[pick("k0", 0, 2)], K3[pick("k1", 0, 2)]};
    order(2, k, true);
}
static void three_obs(int a)
{
    sym_meas(3, false);
    const int k[3] = {a, pick("k1", 0, 3), pick("k2", 0, 3)};
    sym_assume((k[0] == 1) | (k[1] == 1) | (k[2] == 1));
    order(3, k);
}
extern "C" void h_obs_first() { three_obs(1); }
extern "C" void h_obs_imu() { three_obs(0); }
extern "C" void h_obs_pos() { three_obs(2); }
extern "C" void h_obs_fix() { three_obs(3); }
static void four(int a, int b)
{
    sym_meas(4, false);
    const int k[4] = {a, b, pick("k2", 0, 1) * 2, pick("k3", 0, 1) * 2};
    order(4, k);
}
extern "C" void h_four_ii() { four(0, 0); }
extern "C" void h_four_ip() { four(0, 2); }
extern "C" void h_four_pi() { four(2, 0); }
extern "C" void h_four_pp() { four(2, 2); }
// longer histories: what is older than a second is forgotten and what comes for it is refused
static void window(const int* kinds)
{
    const int n = 3;
    v0 = sym_real("v0");
    cnt = n;
    int sec[N], frac[N];
    for (int i = 0; i < n; ++i)
    {
        const uint16_t d = sym_u16("t");
        const uint8_t s = sym_u8("s");
        sym_assume((d > 0) & (d <= 900) & (s <= 2));
        sec[i] = s;
        frac[i] = d << 20;
        ms[i].ns = s * SEC + frac[i];
        for (int j = 0; j < i; ++j) sym_assume((sec[j] != sec[i]) | (frac[j] != frac[i]));
        ms[i].z = sym_real("z");
        ms[i].w = sym_real("w");
        ms[i].kind = kinds[i];
        ms[i].live = false;
    }
    RtkEkfEstimator* e = make();
    int64_t newest = 0;
    for (int i = 0; i < n; ++i)
    {
        const double before = e->x().vel(0);
        ms[i].live = add(e, UTCTime((int)T0 + sec[i], frac[i]), ms[i]);
        if (!ms[i].live)
        {
            sym_assert(ms[i].ns < newest, "a measurement in time is never refused");
            sym_assert(newest > SEC, "nothing is refused within a second of the start");
            sym_assert_eq(e->x().vel(0), before, 1e-12, "a refused measurement changes nothing");
            sym_reach("refused");
        }
        else if (ms[i].ns > newest) newest = ms[i].ns;
        else sym_assert(ms[i].ns + SEC >= newest || newest <= SEC, "what is more than a second late is refused");
        double v;
        int64_t ns;
        oracle(i + 1, v, ns, false);
        sym_assert_eq(e->x().vel(0), v, 1e-9, "the state is the one in-order processing of the accepted measurements gives");
        sym_assert(sinceT0(e->t()) == newest, "the state stands at the newest measurement");
    }
    sym_reach("end");
}
extern "C" void h_window_imu()
{
    const int k[3] = {0, 0, 2};
    window(k);
}
extern "C" void h_window_pos()
{
    const int k[3] = {2, 3, 0};
    window(k);
}
