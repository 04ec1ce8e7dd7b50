PROP = dict(
    title='Checksums equal their defining polynomials and detect transmission errors',
    statement='The CRC-24Q of any buffer equals the remainder of polynomial division, every error burst of up to 24 bits in a Galileo page changes it, and the GLONASS string check '
              'accepts exactly the strings whose ICD check sums are consistent, rejecting every single- and double-bit error that touches a data bit.',
    over=['inputs'], quant='every buffer (by an inductive step over one byte), every burst position and pattern, every pair of flipped bits',
    why='The tests check a few recorded messages; one wrong table entry or mask bit is only visible for the inputs that use it.',
    files=['utils/crc.cxx', 'utils/crc.h'], mech=[('crc24', 'utils/crc.cxx'), ('gloTest', 'utils/crc.cxx')])
UNITS = [dict(name='crc', src='crc.cpp', repo=['utils/crc.cxx'], native_extra=[], opts=dict(gf2=True),
              entries=['h_crc_step', 'h_crc_onto', 'h_crc_burst', 'h_glo_sums', 'h_glo_detect'])]
BOUNDS = ['CRC: one-byte step for all states and bytes, buffers of the 25-byte page; bursts of at most 24 bits at every position. GLONASS: all 85-bit strings; one or two flipped bits '
          '(two errors confined to the seven check bits are outside what the code can detect).']
