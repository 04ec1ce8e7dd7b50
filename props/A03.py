from props._eph import unit
PROP = dict(
    title='GLONASS string decoding follows the interface specification',
    statement='Feeding strings of one satellite to the GLONASS parser yields, once strings 1 to 5 of one super-frame have passed the check, exactly the sign-magnitude '
              'fields of the GLONASS ICD, with ephemeris and frame times computed from the four-year interval, day, and time marks; strings that fail the check or are short are ignored and strings of '
              'different super-frames are never mixed. Carrier wavelengths equal c over the nominal frequency for every GPS, Galileo and GLONASS channel.',
    over=['inputs', 'histories'], quant='every string content, every rotation of strings 1..4, one super-frame change and one damaged string anywhere in six strings',
    why='The test decodes one recorded ephemeris; super-frame changes and damaged strings at a particular place are never sampled.',
    files=['common/ephemeris/glonass.cxx', 'common/ephemeris/bit_tools.h', 'common/ephemeris/gps.cxx', 'common/ephemeris/galileo.cxx'],
    mech=[('GlonassEphemeris::parse, frame1..5, convertTime', 'common/ephemeris/glonass.cxx'), ('getWavelength', 'common/ephemeris/*.cxx')])
UNITS = unit('glonass', [dict(fn='h_glo_fields', cost=2), dict(fn='h_glo_history', cost=3), 'h_glo_reject', 'h_wavelength'])
BOUNDS = ['All string bits symbolic except that the sign bits of at most one string at a time are negative; four-year interval 1..17, day 1..1461; '
          'channel numbers -7..31.']
ASSUMPTIONS = ['decoded real fields are compared within one thousandth of a raw unit']
