// Bit-field extraction / insertion (common/ephemeris/bit_tools.h)
#include <array>
#include <type_traits>
#include <cstring>
#include "sym.h"
#include "common/ephemeris/bit_tools.h"
using namespace mc::ephemeris;

static const int BYTES = 12;

// reference: bit i of the stream, most significant bit of byte 0 first
static inline uint64_t refBits(const uint8_t* b, int pos, int len)
{
    uint64_t r = 0;
    for (int i = 0; i < len; ++i)
    {
        const int k = pos + i;
        r = (r << 1) | ((b[k >> 3] >> (7 - (k & 7))) & 1);
    }
    return r;
}
static inline int64_t sext(uint64_t v, int len)
{
    return len == 64 ? (int64_t)v : ((int64_t)(v << (64 - len))) >> (64 - len);
}

template <int len>
static void one_get(const uint8_t* b, int pos)
{
    sym_assert((uint64_t)getBit<len>(b, pos) == refBits(b, pos, len), "getBit<len> unsigned");
    sym_assert((int64_t)getBit<len, Signed>(b, pos) == sext(refBits(b, pos, len), len), "getBit<len> signed");
}
template <int len>
static void all_get(const uint8_t* b, int want, int pos)
{
    if constexpr (len <= 56)
    {
        if (want == len) one_get<len>(b, pos);
        else all_get<len + 1>(b, want, pos);
    }
}

extern "C" void h_get_static()
{
    uint8_t b[BYTES];
    sym_bytes("buf", b, BYTES);
    const int len = sym_choice("len", 1, 56);
    const int pos = sym_choice("pos", 0, 7) + 8 * (len & 1);
    all_get<1>(b, len, pos);
    sym_reach("end");
}

extern "C" void h_get_dynamic()
{
    uint8_t b[BYTES];
    sym_bytes("buf", b, BYTES);
    const int len = sym_choice("len", 1, 32);
    const int pos = sym_choice("pos", 0, 7) + 8;
    sym_assert((uint64_t)getBit<>(b, pos, len) == refBits(b, pos, len), "getBit(len) unsigned");
    sym_assert((int64_t)(getBit<Signed>(b, pos, len)) == sext(refBits(b, pos, len), len), "getBit(len) signed");
    sym_reach("end");
}

template <int len>
static void one_set(int pos)
{
    uint8_t b[BYTES], o[BYTES];
    sym_bytes("buf", b, BYTES);
    memcpy(o, b, BYTES);
    const unsigned data = sym_u32("data");
    setBit<len>(b, pos, data);
    const uint64_t want = len >= 32 ? data : (data & ((1ul << len) - 1));
    sym_assert(refBits(b, pos, len) == want, "setBit<len> stores the value");
    sym_assert((uint64_t)getBit<len>(b, pos) == want, "getBit<len> after setBit<len>");
    bool same = true;
    for (int i = 0; i < BYTES; ++i)
    {
        uint8_t mask = 0;
        for (int k = 0; k < 8; ++k)
            if (8 * i + k < pos || 8 * i + k >= pos + len) mask |= (uint8_t)(0x80 >> k);
        same = same & ((b[i] & mask) == (o[i] & mask));
    }
    sym_assert(same, "setBit<len> leaves every other bit alone");
}
template <int len>
static void all_set(int want, int pos)
{
    if constexpr (len <= 32)
    {
        if (want == len) one_set<len>(pos);
        else all_set<len + 1>(want, pos);
    }
}
extern "C" void h_set_static()
{
    const int len = sym_choice("len", 1, 32);
    const int pos = sym_choice("pos", 0, 7) + 8;
    all_set<1>(len, pos);
    sym_reach("end");
}
extern "C" void h_set_dynamic()
{
    uint8_t b[BYTES], o[BYTES];
    sym_bytes("buf", b, BYTES);
    memcpy(o, b, BYTES);
    const int len = sym_choice("len", 1, 32);
    const int pos = sym_choice("pos", 0, 7) + 8;
    const unsigned data = sym_u32("data");
    setBit<>(b, pos, data, len);
    const uint64_t want = len >= 32 ? data : (data & ((1ul << len) - 1));
    sym_assert(refBits(b, pos, len) == want, "setBit(len) stores the value");
    bool same = true;
    for (int i = 0; i < BYTES; ++i)
    {
        uint8_t mask = 0;
        for (int k = 0; k < 8; ++k)
            if (8 * i + k < pos || 8 * i + k >= pos + len) mask |= (uint8_t)(0x80 >> k);
        same = same & ((b[i] & mask) == (o[i] & mask));
    }
    sym_assert(same, "setBit(len) leaves every other bit alone");
    sym_reach("end");
}

template <int len>
static void one_glo(const uint8_t* b, int pos)
{
    const double mag = (double)refBits(b, pos + 1, len - 1);
    const double v = getBitGlo<len>(b, pos);
    const bool neg = refBits(b, pos, 1);
    if (neg) sym_assert_eq(v, -mag, 0, "getBitGlo negative");
    else sym_assert_eq(v, mag, 0, "getBitGlo positive");
}
template <int len>
static void all_glo(const uint8_t* b, int want, int pos)
{
    if constexpr (len <= 33)
    {
        if (want == len) one_glo<len>(b, pos);
        else all_glo<len + 1>(b, want, pos);
    }
}
extern "C" void h_get_glo()
{
    uint8_t b[BYTES];
    sym_bytes("buf", b, BYTES);
    const int len = sym_choice("len", 2, 33);
    const int pos = sym_choice("pos", 0, 7) + 8;
    all_glo<2>(b, len, pos);
    sym_reach("end");
}
