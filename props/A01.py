from props._eph import unit
PROP = dict(
    title='GPS navigation message decoding follows the interface specification',
    statement='Feeding the 40-byte subframes of one satellite to the GPS parser in any order yields, once subframes 1 to 3 of one issue of data are present, exactly the '
              'fields of IS-GPS-200 (bit position, sign, scale, pi) and reference times from week and seconds; other subframes, short messages and wrong preambles are '
              'ignored, and an ephemeris is never reported complete from subframes of different issues of data.',
    over=['inputs', 'histories'], quant='every content of the three subframes in every order, every history of up to four (thorough: five) subframes, every short length',
    why='The test decodes one recorded ephemeris; wrong widths, signs or a mixed issue of data only show for other contents and orders.',
    files=['common/ephemeris/gps.cxx', 'common/ephemeris/bit_tools.h', 'common/utctime.cxx'],
    mech=[('GPSEphemeris::parse and frame1..3', 'common/ephemeris/gps.cxx'), ('UTCTime::fromGPS', 'common/utctime.cxx')])
UNITS = unit('gps', ['h_gps_fields', dict(fn='h_gps_history4', cost=3), 'h_gps_reject', dict(fn='h_gps_history5', thorough_only=True)])
BUDGET_T = 3000
BOUNDS = ['All 240 data bits and the parity bits of each subframe symbolic; orders of the three subframes enumerated; reference times below one week '
          '(raw < 37800); histories of 4 (thorough 5) subframes with ids 1..4; week rollover epoch fixed at 2048.']
ASSUMPTIONS = ['decoded real fields are compared within one thousandth of a raw unit']
