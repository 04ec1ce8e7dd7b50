from ._models import REAL
PROP = dict(
    title='Geodetic conversions, look angles and atmosphere follow their definitions',
    statement='Geodetic, earth-fixed and local north-east-down coordinates convert by the WGS84 definitions and back to themselves, at the poles and the equator too, and the local frame has its axes north, '
              'east and down. Azimuth runs from north to east and elevation up from the horizon for every direction. The tropospheric and ionospheric delays are the Saastamoinen and Klobuchar models with their limits.',
    over=['inputs'], quant='every latitude, longitude, height, line of sight and frame (for the iterative inverse: listed latitudes and heights, every longitude)',
    why='Tests check one town and two pole points; other hemispheres, axis and sign slips that vanish there, heights outside the model, low satellites and night time are not covered.',
    files=['utils/wgs84.cxx', 'common/satellite/azel.cxx', 'common/satellite/atm_correction.cxx'],
    mech=[('WGS84', 'utils/wgs84.cxx'), ('los2AzEl', 'common/satellite/azel.cxx'), ('computeTroposphericDelay', 'common/satellite/atm_correction.cxx')])
S = dict(trig_sum=True, atan2_angle=True, nf_cmp=True, sqrt_nf=True, dec_const=True, coef_tol=1e-11, fold=True, coef_low=1e-14)
F = dict(S, coef_low=1e-11)
I = dict(S, feas_timeout_ms=150)
UNITS = [dict(name='geo', src='geo.cpp', repo=['utils/wgs84.cxx', 'common/satellite/azel.cxx', 'common/satellite/atm_correction.cxx',
                                               'common/utctime.cxx', 'common/quantized_time.cxx'],
              entries=[dict(fn=f, opts=S) for f in ('h_lla2ecef', 'h_axes', 'h_frame', 'h_lla2ned', 'h_ecef2lla', 'h_poles', 'h_equator', 'h_trop', 'h_atm')] +
              [dict(fn=f, opts=F) for f in ('h_dq', 'h_azel')] + [dict(fn=f, opts=I, weight=9) for f in ('h_iono0', 'h_iono1')])]
BOUNDS = ['inverse conversion: 11 listed latitudes and 5 heights with any longitude, the poles and the equator with any height; frames and look angles: 8 latitudes, 2 heights',
          'ionosphere: two times of the week']
ASSUMPTIONS = [REAL]
