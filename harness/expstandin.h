// Dual-quaternion exponential (decided by N01) replaced by a linear, injective stand-in, so that states after a
// correction are polynomials in the correction.
#pragma once
#include <array>
#include <type_traits>
#include <limits>
#include <functional>
#include "common/math/dquat.h"
namespace mc {
namespace math {
template <>
inline DQuat<double> DQuat<double>::exp(const Vec6& v)
{
    DQuat<double> q;
    for (int i = 0; i < 6; ++i) q.arr_[i + 1] = v[i];
    return q;
}
}  // namespace math
}  // namespace mc
