PROP = dict(
    title='Bit-field reads and writes in subframe buffers are exact',
    statement='Reading a bit field of any supported width at any bit position of a byte buffer returns exactly those bits, most significant '
              'first, as an unsigned, two\'s-complement or (GLONASS) sign-magnitude number, and touches nothing outside the field. Writing a field stores the '
              'value\'s low bits there, leaves every other bit of the buffer unchanged, and reading it back returns what was written.',
    over=['inputs'], quant='every buffer content, field width, bit position and value within the stated widths',
    why='The tests sample a handful of widths, offsets and contents; errors sit at particular width/offset/sign-bit combinations.',
    files=['common/ephemeris/bit_tools.h'],
    mech=[('getBit / setBit / getBitGlo', 'common/ephemeris/bit_tools.h')])
UNITS = [dict(name='bits', src='bits.cpp', native_extra=[],
              entries=['h_get_static', 'h_get_dynamic', 'h_set_static', 'h_set_dynamic', 'h_get_glo'])]
BOUNDS = ['12-byte symbolic buffers; every field length 1..56 (reads), 1..32 (writes), 2..33 (sign-magnitude); every bit offset '
          '0..7 within a byte; all buffer contents and data values symbolic.']
