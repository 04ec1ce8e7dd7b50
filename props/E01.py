PROP = dict(
    title='The satellite almanac answers with the closest ephemeris received',
    statement='Whatever the order in which ephemerides of satellites arrive, each satellite keeps one entry per reference time (the latest received) and a query at any time uses the entry whose '
              'reference time is closest. A satellite is known to the manager exactly when an ephemeris of that constellation and number was received and it has not been pushed out by 29 newer satellites; '
              'ephemerides of other satellites or constellations are refused without effect.',
    over=['histories', 'inputs'], quant='every sequence of up to four ephemerides with arbitrary reference times, contents and satellite numbers, and every query time, satellite and constellation',
    why='Tests add sorted or 100 random ephemerides and query a few times; ties, out-of-order insertion before/after particular entries and eviction interact in ways samples do not reach.',
    files=['common/satellite/satellite.h', 'common/satellite/satellite.cxx', 'core/sat_manager.cxx', 'core/sat_manager.h', 'common/circular_buffer.h'],
    mech=[('Satellite::addEph / findClosestEphemeris', 'common/satellite/satellite.h'), ('SatelliteManager::ephCb / getSat', 'core/sat_manager.cxx')])
R = ['common/ephemeris/gps.cxx', 'common/ephemeris/galileo.cxx', 'common/ephemeris/glonass.cxx', 'common/utctime.cxx', 'utils/crc.cxx',
     'common/satellite/satellite.cxx', 'common/satellite/satellite_state.cxx', 'core/sat_manager.cxx']
UNITS = [dict(name='satman', src='satman.cpp', repo=R, native_extra=['common/check.cxx', 'common/print.cxx', 'common/quantized_time.cxx'], opts=dict(gf2=True),
              entries=['h_alm_gps3', dict(fn='h_alm_gps4', thorough_only=True), 'h_alm_gal', 'h_alm_glo', 'h_alm_nsec', 'h_alm_long', 'h_alm_refuse', 'h_manager', 'h_manager_other', 'h_full_gps', 'h_full_gal', 'h_full_glo'])]
BOUNDS = ['Reference and query times: 32-bit seconds, all nanoseconds. Three (thorough: four) ephemerides in any order, eight at fixed spacing in rotated or reversed order; '
          'managers fed three ephemerides, or 29 satellites plus one. Closest is decided to within a microsecond.']
