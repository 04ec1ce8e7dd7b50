// Signal travel time (common/satellite/satellite_cache.*)
#include <array>
#include <cmath>
#include <functional>
#include <limits>
#include <type_traits>
#include "common/defs.h"
#include "common/satellite/satellite_cache.h"
#include "sym.h"
using namespace mc;
using namespace mc::satellite;

// what the cache asked for
static UTCTime asked_t;
static Vec3 asked_pos, asked_sat;
static int asked = 0;
namespace mc {
namespace satellite {
Error computeAtmCorrection(const UTCTime& t, const Vec3& p, const SatelliteState& s, Out<AtmosphericCorrection> atm)
{
    asked_t = t;
    asked_pos = p;
    asked_sat = s.pos;
    ++asked;
    atm->ionospheric_delay_m = 3.25;
    atm->tropospheric_delay_m = 7.5;
    return Error::none();
}
}  // namespace satellite
}  // namespace mc

// a satellite on a parabola about the time of reception
struct Moving : SatelliteBase
{
    Vec3 p, v, a;
    UTCTime t0;
    Moving() : SatelliteBase(GnssID::GPS, 5) {}
    Vec3 at(double dt) const { return p + v * dt + a * (0.5 * dt * dt); }
    Error getState(const UTCTime& t, Out<SatelliteState> s) const override
    {
        const double dt = (t - t0).toSec();
        s->t = t;
        s->pos = at(dt);
        s->vel = v + a * dt;
        return Error::none();
    }
    double carrierWavelength(int) const override { return 0.19; }
    int almanacSize() const override { return 1; }
};
static const double P[6][3] = {{2.2e7, 1.1e7, 0.9e7}, {-1.4e7, 2.0e7, -1.0e7}, {0, -2.6e7, 1e6}, {2.1e7, -1.2e7, 1.05e7}, {-6.4e6, 1e5, 2e5}, {4.2e7, 0, 0}};
static const double V[6][3] = {{-1000, 2900, -2500}, {3000, 900, 2300}, {-3900, 0, 100}, {0, 0, 3}, {7000, 3000, 0}, {0, 3000, 0.5}};
static const double R[4][3] = {{-1798904.13, -4532227.1, 4099781.95}, {6378137, 0, 0}, {3e6, 4e6, -3.9e6}, {-6.3e6, 3e5, 8e5}};
static void run(bool odd)
{
    const int i = sym_choice("sat", 0, 5), j = sym_choice("rec", 0, 3);
    Moving m;
    m.p = Vec3(P[i][0], P[i][1], P[i][2]);
    m.v = Vec3(V[i][0], V[i][1], V[i][2]);
    m.a = odd ? Vec3(-0.3, 0.4, 0.2) : Vec3(0, 0, 0);
    const Vec3 rec(R[j][0], R[j][1], R[j][2]);
    UTCTime t;
    t.sec = sym_i64("sec");
    sym_assume((t.sec > 1) & (t.sec < ((int64_t)1 << 40)));
    const int64_t ns = sym_i64("nsec");
    sym_assume((ns >= 0) & (ns < 1000000000));
    t.nsec = ns;
    m.t0 = t;
    SatelliteCache c;
    c.update(t, rec, m);
    const double back = (t - c.state.t).toSec();
    const Vec3 d = c.state.pos - rec;
    const double sag = OMEGA_EARTH / C_LIGHT * (c.state.pos.x() * rec.y() - c.state.pos.y() * rec.x());
    const double tau = (std::sqrt(d.x() * d.x() + d.y() * d.y() + d.z() * d.z()) + sag) / C_LIGHT;
    const double speed = m.v.norm() + m.a.norm();
    const double miss = std::fabs(tau - back) * speed;
    sym_assert(miss <= 2e-3 + 2e-9 * speed, "the satellite is taken where the signal left it");
    for (int k = 0; k < 3; ++k) sym_assert_eq(c.state.pos(k), m.at(-back)(k), 1e-9, "the state is that of its time");
    sym_assert_eq(c.sagnac, sag, 1e-5, "rotation of the earth during the travel");
    sym_assert(asked == 1, "delays are computed once");
    sym_assert((asked_t.sec == t.sec) & (asked_t.nsec == t.nsec), "delays are those of the time of reception");
    for (int k = 0; k < 3; ++k)
    {
        sym_assert_eq(asked_pos(k), rec(k), 0, "delays are those at the receiver");
        sym_assert_eq(asked_sat(k), c.state.pos(k), 0, "delays are those towards the satellite");
    }
    sym_assert_eq(c.atm.ionospheric_delay_m, 3.25, 0, "the delays are kept");
    sym_assert_eq(c.atm.tropospheric_delay_m, 7.5, 0, "the delays are kept");
    sym_reach("end");
}
extern "C" void h_straight() { run(false); }
extern "C" void h_curved() { run(true); }
