#pragma once
#include <cstdint>
#include <initializer_list>
#include <utility>
// GLONASS string check: bit k of the string (1 = last, 85 = first)
static inline int sb(const uint8_t* buf, int k)
{
    const int p = 85 - k;
    return (buf[p >> 3] >> (7 - (p & 7))) & 1;
}
// interface control document 5.1, section 4.7: check sums C1..C7, C_sigma
static void sums(const uint8_t* b, uint8_t* c)
{
    static const uint8_t I1[] = {9, 10, 12, 13, 15, 17, 19, 20, 22, 24, 26, 28, 30, 32, 34, 35, 37, 39, 41, 43, 45, 47, 49, 51, 53, 55, 57, 59, 61, 63, 65, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84};
    static const uint8_t I2[] = {9, 11, 12, 14, 15, 18, 19, 21, 22, 25, 26, 29, 30, 33, 34, 36, 37, 40, 41, 44, 45, 48, 49, 52, 53, 56, 57, 60, 61, 64, 65, 67, 68, 71, 72, 75, 76, 79, 80, 83, 84};
    c[0] = sb(b, 1);
    for (int i : I1) c[0] ^= sb(b, i);
    c[1] = sb(b, 2);
    for (int i : I2) c[1] ^= sb(b, i);
    auto range = [&](int k, std::initializer_list<std::pair<int, int>> l) {
        c[k] = sb(b, k + 1);
        for (auto& r : l)
            for (int i = r.first; i <= r.second; ++i) c[k] ^= sb(b, i);
    };
    range(2, {{10, 12}, {16, 19}, {23, 26}, {31, 34}, {38, 41}, {46, 49}, {54, 57}, {62, 65}, {69, 72}, {77, 80}, {85, 85}});
    range(3, {{13, 19}, {27, 34}, {42, 49}, {58, 65}, {73, 80}});
    range(4, {{20, 34}, {50, 65}, {81, 85}});
    range(5, {{35, 65}});
    range(6, {{66, 85}});
    c[7] = 0;
    for (int i = 1; i <= 85; ++i) c[7] ^= sb(b, i);
}
// fills in the check bits 1..8
static void encodeSums(uint8_t* b)
{
    uint8_t c[8];
    for (int k = 1; k <= 8; ++k) b[(85 - k) >> 3] &= (uint8_t) ~(1 << (7 - ((85 - k) & 7)));
    sums(b, c);
    for (int k = 1; k <= 7; ++k) b[(85 - k) >> 3] |= (uint8_t)(c[k - 1] << (7 - ((85 - k) & 7)));
    sums(b, c);
    b[77 >> 3] |= (uint8_t)(c[7] << (7 - (77 & 7)));
}
