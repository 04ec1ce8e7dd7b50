from ._models import REAL
PROP = dict(
    title='A satellite is taken where it was when the signal left it',
    statement='After an update, whatever the time of reception, the cached satellite state is the one at a time of transmission that agrees with the distance and the earth\'s rotation to millimetres, the '
              'rotation term is the one of that geometry, and the atmospheric delays are asked for once, for the reception time, the receiver and that state.',
    over=['inputs'], quant='every time of reception (second and nanosecond); listed satellites (fast, slow, low, overhead, stationary ones) and receivers',
    why='The tests use one satellite and one instant; the time arithmetic across whole seconds and the loop\'s ending for other motions are not covered.',
    files=['common/satellite/satellite_cache.cxx', 'common/utctime.cxx'],
    mech=[('SatelliteCache::update', 'common/satellite/satellite_cache.cxx')])
S = dict(dec_const=True, gf2=True)
UNITS = [dict(name='cache', src='cache.cpp', repo=['common/satellite/satellite_cache.cxx', 'common/utctime.cxx', 'common/quantized_time.cxx'],
              entries=[dict(fn=f, opts=S) for f in ('h_straight', 'h_curved')])]
BOUNDS = ['6 satellite motions (straight or parabolic) and 4 receivers; any reception time', 'a satellite at rest in the earth-fixed frame (velocity exactly zero) is not claimed']
ASSUMPTIONS = [REAL, 'the atmospheric model is replaced by a recorder']
