PROP = dict(
    title='Quantised times compare equal exactly within half a quantisation step',
    statement='Comparing a quantised time with a time, on either side, treats the two as equal exactly when they are at most half the quantisation step (50 microseconds) apart and orders them by '
              'value otherwise, so that exactly one of less, equal and greater holds and the other three comparisons are their negations. Quantising or assigning a time keeps its value.',
    over=['inputs'], quant='every pair of times',
    why='Tests place two times a few nanoseconds around the threshold in the same second; borrow across the second, sign and which side is quantised are separate cases.',
    files=['common/quantized_time.cxx', 'common/quantized_time.h'],
    mech=[('QuantizedTime comparison operators', 'common/quantized_time.cxx'), ('UTCTime::quantized', 'common/utctime.cxx')])
UNITS = [dict(name='quant', src='quant.cpp', repo=['common/utctime.cxx', 'common/quantized_time.cxx'], native_extra=[], opts=dict(gf2=True, dec_const=True), entries=['h_cmp'])]
BOUNDS = ['|sec| < 2^40, difference below 2^31 s, nanoseconds in [0, 1e9).']
