// QuantizedTime comparisons (common/quantized_time.*)
#include <array>
#include <type_traits>
#include <limits>
#include "sym.h"
#include "common/quantized_time.h"
using namespace mc;
static const int64_t N = 1000000000;

static UTCTime any(const char* s, const char* n)
{
    UTCTime t;
    t.sec = sym_i64(s);
    t.nsec = sym_i64(n);
    sym_assume(t.sec > -((int64_t)1 << 40) && t.sec < ((int64_t)1 << 40));
    sym_assume(t.nsec >= 0 && t.nsec < N);
    return t;
}
// the times differ by ds seconds and dn nanoseconds, 0 <= dn < 1e9
extern "C" void h_cmp()
{
    const UTCTime a = any("asec", "ansec");
    const int64_t ds = sym_i64("dsec"), dn = sym_i64("dnsec");
    sym_assume(ds > -((int64_t)1 << 31) && ds < ((int64_t)1 << 31) && dn >= 0 && dn < N);
    UTCTime b = a;
    b.sec = a.sec + ds;
    b.nsec = a.nsec + dn;
    if (b.nsec >= N)
    {
        b.nsec -= N;
        b.sec += 1;
    }
    // half the quantisation step is 50 microseconds
    const bool bigger = (ds > 0) | ((ds == 0) & (dn > 50000));
    const bool smaller = (ds < -1) | ((ds == -1) & (dn < N - 50000));
    const bool same = !bigger & !smaller;
    const QuantizedTime qa = a.quantized(), qb = b.quantized();
    sym_assert(qa.sec == a.sec && qa.nsec == a.nsec, "quantized keeps the value");
    switch (sym_choice("kind", 0, 1))
    {
    case 0:
        sym_assert((qb > a) == bigger, "q > t");
        sym_assert((qb < a) == smaller, "q < t");
        sym_assert((qb == a) == same, "q == t");
        sym_assert((qb != a) == !same, "q != t");
        sym_assert((qb >= a) == !smaller, "q >= t");
        sym_assert((qb <= a) == !bigger, "q <= t");
        break;
    default:
        sym_assert((b > qa) == bigger, "t > q");
        sym_assert((b < qa) == smaller, "t < q");
        sym_assert((b == qa) == same, "t == q");
        sym_assert((b != qa) == !same, "t != q");
        sym_assert((b >= qa) == !smaller, "t >= q");
        sym_assert((b <= qa) == !bigger, "t <= q");
        break;
    }
    QuantizedTime c;
    c = b;
    sym_assert(c.sec == b.sec && c.nsec == b.nsec, "assignment keeps the value");
    sym_reach("end");
}
