from ._models import M, REAL
PROP = dict(
    title='EKF results do not depend on the order in which measurements arrive',
    statement='A measurement that reaches the estimator late is applied as if it had come in time: after any sequence of arrivals the state is the one obtained by processing all accepted measurements once each in order of '
              'time, IMU first and then by kind at equal times, and by arrival for equal kinds. A measurement is refused only when it is older than the buffered history, and then changes nothing.',
    over=['histories', 'inputs'], quant='every arrival order, every pattern of distinct or equal times and every mix of kinds of up to 4 measurements; every value, over the reals',
    why='Tests replay a handful of fixed schedules with distinct kinds and count callbacks; ties between kinds, late IMU samples and the resulting state are not covered.',
    files=['core/ekf/rtk_ekf_estimator.h', 'core/ekf/rtk_ekf_estimator.cxx'],
    mech=[('addMeasurement', 'core/ekf/rtk_ekf_estimator.h'), ('rollFilter', 'core/ekf/rtk_ekf_estimator.cxx'), ('dropOldMeasurements', 'core/ekf/rtk_ekf_estimator.cxx')])
O = dict(M)
TH = ['h_three_%s_%s' % (a, b) for a in ('imu', 'pos', 'fix') for b in ('imu', 'pos', 'fix')]
DEEP = ['h_obs_first', 'h_obs_imu', 'h_obs_pos', 'h_obs_fix', 'h_four_ii', 'h_four_ip', 'h_four_pi', 'h_four_pp']
UNITS = [dict(name='ekforder', src='ekforder.cpp', ekf=True,
              repo=['core/ekf/rtk_ekf_estimator.cxx', 'gen:core/ekf/rtk_ekf_types.cxx', 'common/utctime.cxx'],
              native_extra=['common/check.cxx', 'common/print.cxx', 'common/logging/log_format.cxx', 'common/logging/log_writer.cxx', 'common/logging/serialize.cxx', 'core/sat_manager.cxx',
                            'common/satellite/satellite.cxx', 'common/satellite/satellite_state.cxx', 'common/satellite/satellite_cache.cxx', 'common/satellite/azel.cxx', 'common/satellite/atm_correction.cxx',
                            'common/ephemeris/gps.cxx', 'common/ephemeris/galileo.cxx', 'common/ephemeris/glonass.cxx', 'utils/crc.cxx', 'utils/wgs84.cxx'],
              entries=[dict(fn=f, opts=O) for f in ['h_two', 'h_front'] + TH] + [dict(fn=f, opts=O, reach=['end', 'refused']) for f in ('h_window_imu', 'h_window_pos')]
              + [dict(fn=f, opts=O, thorough_only=True) for f in DEEP])]
BOUNDS = ['2 or 3 measurements in every order of arrival (4 thorough); times in steps of about 1 ms over 0.95 s after the first state, equal ones included; over 3 s and distinct for the sliding window',
          'bundles of GNSS observations are empty (thorough only); a measurement at the very time of the oldest kept state is applied as it arrives']
ASSUMPTIONS = [REAL, 'prediction and update are stand-ins whose steps do not commute (K02 decides them)', 'quantized time comparisons are done on integer nanoseconds (B03 decides them)']
