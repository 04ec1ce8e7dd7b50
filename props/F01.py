from ._models import M, REAL
PROP = dict(
    title='Logged records read back as they were written',
    statement='Every record type that can be logged (times, IMU and GNSS measurements, ephemerides of all three systems, rotations, rigid motions and their jets) reads back with every logged field as it was written. '
              'Reading takes exactly the bytes that writing produced, so stamps, records and what follows them in a stream stay aligned.',
    over=['inputs'], quant='every value of every field, two stamped records in a row',
    why='Tests write and read a few random records of some types; a field missing, repeated or out of order in one type only shows for values that differ.',
    files=['common/logging/serialize.cxx', 'common/logging/serialize.h', 'common/quantized_time.h', 'common/math/dquat.h'],
    mech=[('serialize / deserialize', 'common/logging/serialize.cxx'), ('DEF_SERIALIZE', 'common/logging/serialize.cxx'), ('serialize<T>', 'common/logging/serialize.h')])
E = ['h_gnss', 'h_imu', 'h_gps', 'h_gal', 'h_glo', 'h_time', 'h_qtime']
UNITS = [dict(name='logio', src='logio.cpp', repo=['common/logging/serialize.cxx', 'common/utctime.cxx', 'common/quantized_time.cxx', 'common/ephemeris/gps.cxx', 'common/ephemeris/galileo.cxx', 'common/ephemeris/glonass.cxx', 'utils/crc.cxx'],
              native_extra=['common/check.cxx', 'common/print.cxx'],
              entries=[dict(fn=f) for f in E] + [dict(fn=f, opts=M) for f in ('h_quat', 'h_jet')])]
BOUNDS = ['two records in a row per type; field values are unrestricted bit patterns; rotations are unit quaternions over the reals with translations within +-100',
          'the file system, record counts and the text descriptions of the streams are outside']
ASSUMPTIONS = [REAL, 'in the encoding std::ostream::write and std::istream::read are a byte buffer; the replay uses std::stringstream']
