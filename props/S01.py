from ._models import REAL
PROP = dict(
    title='Broadcast elements give the satellite position, velocity and clock they define',
    statement='For Keplerian elements the position is the one the interface document defines for the eccentric anomaly that solves Kepler\'s equation, the velocity is its time derivative (to first '
              'order in the harmonic corrections), the clock is the polynomial about toc with the relativistic term, and an ephemeris more than two hours away is refused. For GLONASS the acceleration is '
              'the documented one, it is integrated by a fourth-order step of at most a minute from the ephemeris (or the last state) to exactly the requested time, and the clock is the broadcast line.',
    over=['inputs'], quant='every value of every orbital element and correction (eccentric anomaly and eccentricity fixed per case), every state, acceleration and clock coefficient',
    why='Tests compare one ephemeris at one instant with RTKLIB to a tolerance above the size of most terms; perigee, apogee, sign and mix-ups of correction terms, late and early times are not covered.',
    files=['common/satellite/satellite_state.cxx', 'common/math/rk4.h'],
    mech=[('eph2Sat', 'common/satellite/satellite_state.cxx'), ('glonassOrbit', 'common/satellite/satellite_state.cxx'), ('RK4', 'common/math/rk4.h')])
S = dict(trig_sum=True, nf_cmp=True, sqrt_nf=True, dec_const=True, coef_tol=1e-12)
REPO = ['common/satellite/satellite_state.cxx', 'common/utctime.cxx', 'common/quantized_time.cxx', 'common/ephemeris/glonass.cxx', 'utils/crc.cxx']
UNITS = [dict(name='sat', src='sat.cpp', repo=REPO, replay_env={'SYM_JVP_H': '1e-2'},
              entries=[dict(fn=f, opts=S) for f in ('h_kep_circ', 'h_kep_ell', 'h_kep_ell2', 'h_glo_orbit', 'h_rk4', 'h_rk4_quad')] +
              [dict(fn='h_kep_stale', opts=dict(gf2=True, dec_const=True), reach=['start'])]),
         dict(name='glostep', src='glostep.cpp', repo=REPO, flags=['-include', 'rk4_record.h'],
              entries=[dict(fn='h_glo_step', opts=S)])]
BOUNDS = ['eccentricity and eccentric anomaly take 13 listed pairs (e up to 0.7, E from -5 to 9 rad, perigee and apogee included), or e = 0 with any mean anomaly; toe offsets 0, 900.5, -3600.25, 7200 s; '
          'toes one value; all other elements symbolic',
          'GLONASS interval: 12 listed values from -1799.875 s to 900 s; state carry-over takes the previous state as it is (of the same satellite)',
          'the rate of the relativistic clock term is not claimed']
ASSUMPTIONS = [REAL, 'the stepping check replaces math::RK4 by a recording linear step']
