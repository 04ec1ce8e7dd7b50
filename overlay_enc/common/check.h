// Stand-in for common/check.h in the symbolic encoding: mc::check stays an
// external function (modelled: a false condition ends the process), the
// message is dropped.
#pragma once
#include "common/print.h"
namespace mc {
void check(bool condition);
template <typename S>
inline void check(bool condition, const S&, const SymFmtArgs& = {}) { check(condition); }
template <typename S>
inline void weak_check(bool, const S&, const SymFmtArgs& = {}) {}
inline void weak_check(bool) {}
}  // namespace mc
