REPO = ['common/ephemeris/gps.cxx', 'common/ephemeris/galileo.cxx', 'common/ephemeris/glonass.cxx', 'common/utctime.cxx', 'utils/crc.cxx']


def unit(name, entries):
    return [dict(name=name, src='eph.cpp', repo=REPO, native_extra=['common/check.cxx', 'common/print.cxx', 'common/quantized_time.cxx'],
                 opts=dict(gf2='seg'), entries=entries)]
