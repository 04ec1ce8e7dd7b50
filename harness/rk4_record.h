// replaces math::RK4 for the stepping check
#pragma once
#ifdef __cplusplus
#include <array>
#include <type_traits>
#include <limits>
#include <functional>
#include "common/matrix_defs.h"
#include "common/math/rk4.h"
void rk4_record(double h, const Eigen::Matrix<double, 3, 1>& acc);
namespace mc { namespace math {
template <typename F, typename X, typename A>
X RK4_recorded(F&&, double h, const X& x, const A& acc)
{
    rk4_record(h, acc);
    X y = x;
    for (int i = 0; i < 3; ++i) y(i) += h * x(3 + i);
    return y;
}
} }
#define RK4 RK4_recorded
#endif
