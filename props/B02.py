PROP = dict(
    title='Time arithmetic, ordering and GNSS calendar conversions are exact',
    statement='Times are totally ordered by their value to the nanosecond; sums, differences and constructors keep the nanosecond part in [0, 1e9) and are '
              'exact, so adding and then subtracting a duration returns the original time. GPS, Galileo and GLONASS week/time-of-week (millisecond) conversions give the '
              'exact UTC instant and invert the week/day/time-of-week accessors. A GLONASS time of day resolves to the instant with that time of day closest to the reference.',
    over=['inputs'], quant='every pair of times, every duration, every week number below 8192 and every millisecond of the week or day',
    why='Tests use a few dates; carry/borrow, rollover-day and overflow boundaries are isolated points in a 2^64 space.',
    files=['common/utctime.cxx', 'common/utctime.h'],
    mech=[('UTCTime operators and constructors', 'common/utctime.cxx'), ('fromGPS / fromGalileo / fromGlonass / fromGlonassTimeOfDay', 'common/utctime.cxx')])
UNITS = [dict(name='utc', src='utctime.cpp', repo=['common/utctime.cxx'], native_extra=['common/quantized_time.cxx'],
              entries=['h_order', 'h_addsub', 'h_addint', 'h_ctor', 'h_gps', 'h_gps_tow', 'h_glonass', dict(fn='h_glonass_tod', opts=dict(lemmas=True))])]
BOUNDS = ['|sec| < 2^61, nsec in [0,1e9); constructor nsec any value within +-9e15; weeks 0..8191 (GPS/Galileo/GLONASS), all milliseconds; '
          'accessors for times at or after the GPS epoch (1980).', 'The (double) constructor is outside the claim.']
ASSUMPTIONS = ['double-valued accessors (toSec, GpsTow) are compared over the reals']
