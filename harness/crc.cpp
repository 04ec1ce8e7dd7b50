// Error detection codes (utils/crc.*)
#include <cstring>
#include <initializer_list>
#include <utility>
#include "sym.h"
#include "utils/crc.h"

static uint32_t ref24(const uint8_t* b, int n)
{
    uint32_t r = 0;
    for (int i = 0; i < n; ++i)
    {
        r ^= (uint32_t)b[i] << 16;
        for (int k = 0; k < 8; ++k) r = (r & 0x800000) ? ((r << 1) ^ 0x1864cfb) & 0xffffff : (r << 1) & 0xffffff;
    }
    return r;
}
// branch-free twin for symbolic data
static uint32_t step24(uint32_t r, uint8_t x)
{
    r ^= (uint32_t)x << 16;
    for (int k = 0; k < 8; ++k)
    {
        const uint32_t top = (r >> 23) & 1;
        r = ((r << 1) & 0xffffff) ^ ((0u - top) & 0x864cfb);
    }
    return r;
}
// one step from every reachable register value: three bytes reach all 2^24
// values (checked), so the equality for four bytes is the inductive step
extern "C" void h_crc_step()
{
    uint8_t b[4];
    sym_bytes("b", b, 4);
    uint32_t r = 0;
    for (int n = 0; n <= 4; ++n)
    {
        sym_assert(mc::utils::crc24(b, n) == r, "crc24 equals the polynomial division");
        if (n < 4) r = step24(r, b[n]);
    }
    sym_reach("end");
}
// distinct three-byte prefixes leave distinct register values
extern "C" void h_crc_onto()
{
    uint8_t a[3], b[3];
    sym_bytes("a", a, 3);
    sym_bytes("b", b, 3);
    const uint32_t d = mc::utils::crc24(a, 3) ^ mc::utils::crc24(b, 3);
    sym_assert((d == 0) == (memcmp(a, b, 3) == 0), "three bytes reach every register value");
    sym_reach("end");
}
// every error burst of up to 24 bits inside a 25-byte page is detected
extern "C" void h_crc_burst()
{
    uint8_t a[25], b[25];
    memset(a, 0, 25);
    const int pos = sym_choice("pos", 0, 25 * 8 - 24);
    const uint32_t e = sym_u32("err");
    sym_assume(e != 0 && e < (1u << 24));
    for (int i = 0; i < 25; ++i) b[i] = 0;
    for (int k = 0; k < 24; ++k)
    {
        const int q = pos + k;
        b[q >> 3] |= (uint8_t)(((e >> (23 - k)) & 1) << (7 - (q & 7)));
    }
    sym_assert(mc::utils::crc24(b, 25) != mc::utils::crc24(a, 25), "a burst error is detected");
    sym_reach("end");
}

#include "glosum.h"
extern "C" void h_glo_sums()
{
    uint8_t b[12], c[8];
    sym_bytes("b", b, 12);
    sums(b, c);
    int n = 0;
    for (int i = 0; i < 7; ++i) n += c[i];
    // correct string: all sums zero, or one single check sum together with the parity sum
    const bool ok = (n == 0 && c[7] == 0) || (n == 1 && c[7] == 1);
    sym_assert(mc::utils::gloTest(b) == ok, "gloTest equals the check sums of the interface control document");
    sym_reach("end");
}
// the zero code word with one or two flipped bits (the code is linear)
extern "C" void h_glo_detect()
{
    uint8_t e[12];
    memset(e, 0, 12);
    const int i = sym_i32("i"), j = sym_i32("j");
    sym_assume(i >= 0 && i <= j && j < 85);
    for (int q = 0; q < 85; ++q) e[q >> 3] |= (uint8_t)((q == i || q == j) << (7 - (q & 7)));
    const bool ok = mc::utils::gloTest(e);
    // only an error confined to one of the seven check bits needs no correction
    sym_assert(ok == (i == j && i >= 78), "one- and two-bit errors are rejected");
    sym_reach("end");
}
