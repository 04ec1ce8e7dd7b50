// Stand-in for common/print.h in the symbolic encoding: same interface, the
// text is dropped (arguments are still evaluated).  The native replay binary
// uses the repository's header.
#pragma once
#include <fmt/color.h>
#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ostream.h>

#include <string>
#include <cstdint>
#include <sstream>
#include <memory>
#include <vector>
#include <experimental/source_location>

namespace mc {
enum class LoggingLevel { DEBUG, INFO, WARN, ERROR, FATAL };
inline constexpr bool operator>=(LoggingLevel a, LoggingLevel b) { return static_cast<uint8_t>(a) >= static_cast<uint8_t>(b); }
constexpr LoggingLevel LOGGING_LEVEL = LoggingLevel::INFO;
struct SymFmtArgs {};
template <typename... A>
inline SymFmtArgs fmt(const A&...) { return {}; }
#define watch(x) ((void)(x))
#define SYM_LOG(name)                                                     \
    template <typename S>                                                 \
    inline void name(const S&, const SymFmtArgs& = {}) {}                 \
    template <typename S>                                                 \
    inline void name(bool, const S&, const SymFmtArgs& = {}) {}
SYM_LOG(base_print) SYM_LOG(dbg) SYM_LOG(info) SYM_LOG(warn) SYM_LOG(error) SYM_LOG(fatal)
#undef SYM_LOG
}  // namespace mc
