from props._eph import unit
PROP = dict(
    title='Galileo I/NAV page decoding follows the interface specification',
    statement='Feeding page pairs of one satellite to the Galileo parser yields, once words 0 to 5 of one issue of data are present, exactly the fields of the Galileo '
              'OS-SIS-ICD and reference times with week rollover; pages with a wrong CRC, alert or misordered halves, wrong length, other types or of another satellite are '
              'ignored and never complete or change an ephemeris.',
    over=['inputs', 'histories'], quant='every page content with a correct CRC, every single extra page at every place in the sequence, every short length',
    why='The test decodes one recorded sequence; consistency across words, CRC and satellite identity matter only in other sequences.',
    files=['common/ephemeris/galileo.cxx', 'utils/crc.cxx', 'common/utctime.cxx'],
    mech=[('GalileoEphemeris::parse and frame0..5', 'common/ephemeris/galileo.cxx'), ('crc24', 'utils/crc.cxx')])
UNITS = unit('galileo', ['h_gal_fields', dict(fn='h_gal_extra', cost=3), dict(fn='h_gal_after', cost=2), 'h_gal_reject', 'h_gal_odd'])
BOUNDS = ['Six pages in transmission order plus one extra page (any of types 0..6, CRC right or wrong, any satellite number) at any place or after the last; all page bits '
          'symbolic; GST week 1..3999. The decoder takes data bits 112..127 from odd-page bits 106..121 (known finding), so fields reaching into these bits accept either source.']
ASSUMPTIONS = ['decoded real fields are compared within one thousandth of a raw unit']
